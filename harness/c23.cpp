// C23: containers against models, with every contained object registered.
#include "pbt.hpp"

#include <memory>
#include <memory_resource>
#include <optional>
#include <set>
#include <sstream>

#include "common/result.hpp"
#include "common/tribool.hpp"
#include "common/variant.hpp"

#include "bmd/codegen/code_string.hpp"
#include "bms/concrete_value.hpp"
#include "bms/evaluation/builtin_function.hpp"
#include "bms/symbol_table.hpp"
#include "bms/vm/linear_map_stack.hpp"

using namespace bit_manipulation;
using pbt::Ctx;
using pbt::Src;

namespace {

// Every live Tracked object, by address.
std::set<const void*> live;
std::string lifetime_error;
int throw_after = -1; // number of throwing copies until one throws

void born(const void* p)
{
    if (!live.insert(p).second)
        lifetime_error = "an object was created over a live object";
}
void died(const void* p)
{
    if (!live.erase(p))
        lifetime_error = "an object was destroyed that was not alive";
}
void used(const void* p)
{
    if (!live.contains(p))
        lifetime_error = "an object was used that is not alive";
}

struct Copy_Failed { };

constexpr int moved_from = -1;

template <int Tag, bool Throws = false>
struct Tracked {
    int value;
    std::unique_ptr<int> heap; // makes leaks and double destruction visible to ASan, too
    void copied()
    {
        if (Throws && throw_after >= 0 && throw_after-- == 0)
            throw Copy_Failed {};
    }
    Tracked()
        : Tracked(0)
    {
    }
    explicit Tracked(int v)
        : value(v)
        , heap(std::make_unique<int>(v))
    {
        born(this);
    }
    Tracked(const Tracked& o) noexcept(!Throws)
        : value(o.value)
    {
        used(&o);
        copied();
        heap = std::make_unique<int>(value);
        born(this);
    }
    Tracked(Tracked&& o) noexcept
        : value(o.value)
        , heap(std::move(o.heap))
    {
        used(&o);
        o.value = moved_from;
        born(this);
    }
    Tracked& operator=(const Tracked& o) noexcept(!Throws)
    {
        used(this), used(&o);
        copied();
        value = o.value;
        heap = std::make_unique<int>(value);
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept
    {
        used(this), used(&o);
        if (this != &o) {
            value = o.value;
            heap = std::move(o.heap);
            o.value = moved_from;
        }
        return *this;
    }
    ~Tracked()
    {
        died(this);
    }
    bool operator==(const Tracked& o) const
    {
        used(this), used(&o);
        return value == o.value;
    }
    static Tracked make(int v)
    {
        return Tracked(v);
    }
};

template <int Tag>
struct Plain {
    long long value;
    char pad[Tag + 1] = {};
    static Plain make(int v)
    {
        return Plain { v };
    }
    bool operator==(const Plain& o) const
    {
        return value == o.value;
    }
    Plain(long long v = 0)
        : value(v)
    {
    }
};

template <class T>
constexpr bool moves_reset = !std::is_trivially_copyable_v<T>;

struct Model {
    int alt;
    long long value;
    bool operator==(const Model&) const = default;
};

template <class V>
struct Types;
template <class... Ts>
struct Types<Variant<Ts...>> {
    static constexpr int n = sizeof...(Ts);
    template <class F>
    static void at(int i, F&& f)
    {
        int k = 0;
        ((k++ == i ? f.template operator()<Ts>() : void()), ...);
    }
};

std::string op_log;

template <class V>
Model observe(Ctx& c, V& v)
{
    const int i = int(v.index());
    c.check(i >= 0 && i < Types<V>::n, "alternative index out of range");
    Model m { i, 0 };
    int seen = 0, k = 0;
    Types<V>::at(i, [&]<class T>() {
        c.check(holds_alternative<T>(v), "holds_alternative disagrees with index");
        T* p = get_if<T>(&v);
        const T* cp = get_if<T>((const V*)&v);
        c.check(p && p == cp && p == &get<T>(v) && p == &get<T>(std::as_const(v)),
                "get, get_if by type disagree");
        c.check(std::uintptr_t(p) % alignof(T) == 0 && std::uintptr_t(p) >= std::uintptr_t(&v)
                    && std::uintptr_t(p + 1) <= std::uintptr_t(&v + 1),
                "alternative is outside of its variant or misaligned");
        m.value = p->value;
        if constexpr (!std::is_trivially_copyable_v<T>)
            c.check(live.contains(p), "the alternative held is not a live object");
        visit(
            [&]<class U>(U& x) {
                ++seen;
                c.check(std::is_same_v<std::remove_const_t<U>, T> && (void*)&x == (void*)p,
                        "visit visits something else");
            },
            v);
        visit(
            [&]<class U>(const U& x) {
                ++seen;
                c.check((const void*)&x == (const void*)p, "const visit visits something else");
            },
            std::as_const(v));
        c.check(v == *p, "variant is not equal to the value it holds");
    });
    c.check(seen == 2, "visit did not call the visitor once");
    for (k = 0; k < Types<V>::n; ++k)
        if (k != i)
            Types<V>::at(k, [&]<class T>() {
                c.check(!holds_alternative<T>(v) && !get_if<T>(&v),
                        "a variant claims to hold a second alternative");
                if constexpr (std::is_default_constructible_v<T>)
                    c.check(!(v == T()), "variant equals a value of another alternative");
            });
    return m;
}

template <class V>
void variant_history(Src& s, Ctx& c)
{
    live.clear();
    lifetime_error.clear();
    constexpr int n = 3;
    {
        std::unique_ptr<V> slots[n];
        std::optional<Model> model[n];
        std::size_t heap_alive = 0;
        std::string log;
        const int steps = 1 + s.upto(40);
        int kinds = 0;
        for (int step = 0; step < steps; ++step) {
            const int a = s.upto(n - 1), b = s.upto(n - 1), alt = s.upto(Types<V>::n - 1),
                      val = 1 + s.upto(20);
            throw_after = -1;
            const int op = s.weighted({ 4, 2, 2, 4, 4, 4, 2, 1, 2, 2, 2, 1 });
            auto note = [&](std::string t) {
                log += t + "; ";
                c.show(log);
            };
            const std::string A = "v" + std::to_string(a), B = "v" + std::to_string(b),
                              T0 = "T" + std::to_string(alt) + "(" + std::to_string(val) + ")";
            kinds |= 1 << op;
            if (op > 2 && !slots[a])
                continue;
            switch (op) {
            case 0: // construct from a value, as rvalue, lvalue or const lvalue
                slots[a].reset();
                Types<V>::at(alt, [&]<class T>() {
                    const int how = s.upto(2);
                    note(A + " = new V(" + (how == 0 ? "" : how == 1 ? "lvalue " : "const ") + T0
                         + ")");
                    T x = T::make(val);
                    if (how == 0)
                        slots[a] = std::make_unique<V>(std::move(x));
                    else if (how == 1)
                        slots[a] = std::make_unique<V>(x);
                    else
                        slots[a] = std::make_unique<V>(std::as_const(x));
                });
                model[a] = Model { alt, val };
                break;
            case 1: // default construct
                note(A + " = new V()");
                slots[a] = std::make_unique<V>();
                model[a] = Model { 0, 0 };
                break;
            case 2: { // copy or move construct
                if (!slots[b] || a == b)
                    break;
                const bool move = s.flag();
                note(A + " = new V(" + (move ? "move " : "") + B + ")");
                slots[a].reset();
                slots[a] = move ? std::make_unique<V>(std::move(*slots[b]))
                                : std::make_unique<V>(std::as_const(*slots[b]));
                model[a] = model[b];
                if (move)
                    Types<V>::at(model[b]->alt, [&]<class T>() {
                        if (moves_reset<T>)
                            model[b]->value = moved_from;
                    });
                break;
            }
            case 3: // copy assign
                if (!slots[b])
                    break;
                note(A + " = " + B);
                {
                    V& r = (*slots[a] = std::as_const(*slots[b]));
                    c.check(&r == slots[a].get(), "assignment returns something else");
                }
                model[a] = model[b];
                break;
            case 4: // move assign
                if (!slots[b])
                    break;
                note(A + " = move " + B);
                {
                    V& r = (*slots[a] = std::move(*slots[b]));
                    c.check(&r == slots[a].get(), "assignment returns something else");
                }
                if (a != b) {
                    model[a] = model[b];
                    Types<V>::at(model[b]->alt, [&]<class T>() {
                        if (moves_reset<T>)
                            model[b]->value = moved_from;
                    });
                }
                break;
            case 5: // assign a value
                Types<V>::at(alt, [&]<class T>() {
                    note(A + " = " + T0);
                    T x = T::make(val);
                    if (s.flag())
                        *slots[a] = x;
                    else
                        *slots[a] = std::move(x);
                });
                model[a] = Model { alt, val };
                break;
            case 6: // swap
                if (!slots[b])
                    break;
                note("swap " + A + " " + B);
                std::swap(*slots[a], *slots[b]);
                std::swap(model[a], model[b]);
                break;
            case 7: // destroy
                note("delete " + A);
                slots[a].reset();
                model[a].reset();
                break;
            case 8: // modify the alternative in place
                note("modify " + A + " to " + std::to_string(val));
                visit([&](auto& x) { x.value = val; }, *slots[a]);
                model[a]->value = val;
                break;
            case 9: { // assign own alternative
                note(A + " = own alternative");
                const bool move = s.flag();
                Types<V>::at(model[a]->alt, [&]<class T>() {
                    if (move)
                        *slots[a] = std::move(get<T>(*slots[a]));
                    else
                        *slots[a] = get<T>(*slots[a]);
                });
                break;
            }
            case 10: { // copy assign with a copy that fails
                if (!slots[b])
                    break;
                throw_after = s.upto(1);
                note(A + " = " + B + " with failing copy");
                try {
                    *slots[a] = std::as_const(*slots[b]);
                    model[a] = model[b];
                } catch (const Copy_Failed&) {
                    c.label("copy failed");
                    // nothing may have changed
                }
                throw_after = -1;
                break;
            }
            default: { // take the alternative out
                note("take from " + A);
                Types<V>::at(model[a]->alt, [&]<class T>() {
                    T x = get<T>(std::move(*slots[a]));
                    c.check(x.value == model[a]->value, "took another value");
                    if (moves_reset<T>)
                        model[a]->value = moved_from;
                });
            }
            }
            heap_alive = 0;
            for (int i = 0; i < n; ++i) {
                c.check(bool(slots[i]) == model[i].has_value(), "harness");
                if (!slots[i])
                    continue;
                const Model m = observe(c, *slots[i]);
                // a moved-from object keeps its alternative, its value is not specified
                if (model[i]->value == moved_from)
                    model[i]->value = m.value;
                c.check(m == *model[i],
                        "v" + std::to_string(i) + " holds T" + std::to_string(m.alt) + "("
                            + std::to_string(m.value) + "), expected T"
                            + std::to_string(model[i]->alt) + "("
                            + std::to_string(model[i]->value) + ")");
                Types<V>::at(m.alt, [&]<class T>() {
                    heap_alive += !std::is_trivially_copyable_v<T>;
                });
            }
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j)
                    if (slots[i] && slots[j])
                        c.check((*slots[i] == *slots[j]) == (*model[i] == *model[j]),
                                "equality of v" + std::to_string(i) + " and v" + std::to_string(j));
            c.check(live.size() == heap_alive,
                    std::to_string(live.size()) + " objects alive, expected "
                        + std::to_string(heap_alive));
            c.check(lifetime_error.empty(), lifetime_error);
        }
        if (__builtin_popcount(kinds) >= 4)
            c.nontrivial(log);
    }
    c.check(live.empty(), "objects leaked");
    c.check(lifetime_error.empty(), lifetime_error);
}

// ---- Result ----

struct R_Model {
    bool ok;
    long long value;
    bool operator==(const R_Model&) const = default;
};

template <class R>
struct R_Types;
template <class A, class B>
struct R_Types<Result<A, B>> {
    using T = A;
    using E = B;
};

template <class R>
R_Model observe_result(Ctx& c, R& r)
{
    using T = typename R_Types<R>::T;
    c.check(r.has_value() == bool(r), "has_value and bool disagree");
    if (r) {
        if constexpr (std::is_void_v<T>) {
            r.value();
            *r;
            return { true, 0 };
        }
        else {
            c.check(&*r == &r.value() && &*r == r.operator->() && &*r == &std::as_const(r).value()
                        && &*r == &*std::as_const(r),
                    "accessors of the value disagree");
            if constexpr (!std::is_trivially_copyable_v<T>)
                c.check(live.contains(&*r), "the value is not a live object");
            bool threw = false;
            try {
                (void)r.error();
            } catch (...) {
                threw = true;
            }
            c.check(threw, "error() of a success");
            return { true, r->value };
        }
    }
    c.check(&r.error() == &std::as_const(r).error(), "accessors of the error disagree");
    if constexpr (!std::is_trivially_copyable_v<typename R_Types<R>::E>)
        c.check(live.contains(&r.error()), "the error is not a live object");
    bool threw = false;
    try {
        (void)r.value();
    } catch (...) {
        threw = true;
    }
    c.check(threw, "value() of an error");
    return { false, r.error().value };
}

template <class R>
std::unique_ptr<R> make_result(Src& s, bool ok, int v)
{
    using T = typename R_Types<R>::T;
    using E = typename R_Types<R>::E;
    const int how = s.upto(3);
    if (ok) {
        if constexpr (std::is_void_v<T>)
            return std::make_unique<R>();
        else if constexpr (std::is_same_v<T, E>) {
            T x = T::make(v);
            return how % 2 ? std::make_unique<R>(Success_Tag {}, x)
                           : std::make_unique<R>(Success_Tag {}, std::move(x));
        }
        else {
            T x = T::make(v);
            switch (how) {
            case 0: return std::make_unique<R>(std::move(x));
            case 1: return std::make_unique<R>(std::as_const(x));
            case 2: return std::make_unique<R>(Success_Tag {}, std::as_const(x));
            default: return std::make_unique<R>(Success_Tag {}, std::move(x));
            }
        }
    }
    E x = E::make(v);
    if constexpr (std::is_void_v<T>)
        return how % 2 ? std::make_unique<R>(x) : std::make_unique<R>(std::move(x));
    else if constexpr (std::is_same_v<T, E>)
        return how % 2 ? std::make_unique<R>(Error_Tag {}, x)
                       : std::make_unique<R>(Error_Tag {}, std::move(x));
    else
        switch (how) {
        case 0: return std::make_unique<R>(std::move(x));
        case 1: return std::make_unique<R>(std::as_const(x));
        case 2: return std::make_unique<R>(Error_Tag {}, std::as_const(x));
        default: return std::make_unique<R>(Error_Tag {}, std::move(x));
        }
}

template <class R>
void result_history(Src& s, Ctx& c)
{
    using T = typename R_Types<R>::T;
    using E = typename R_Types<R>::E;
    live.clear();
    lifetime_error.clear();
    throw_after = -1;
    constexpr int n = 3;
    {
        std::unique_ptr<R> slots[n];
        std::optional<R_Model> model[n];
        std::string log;
        const int steps = 1 + s.upto(30);
        int kinds = 0;
        auto resets = [](bool ok) {
            if (ok) {
                if constexpr (std::is_void_v<T>)
                    return false;
                else
                    return moves_reset<T>;
            }
            return moves_reset<E>;
        };
        for (int step = 0; step < steps; ++step) {
            const int a = s.upto(n - 1), b = s.upto(n - 1), val = 1 + s.upto(20);
            const bool ok = s.flag();
            const int op = s.weighted({ 4, 3, 4, 4, 2, 1, 1 });
            kinds |= 1 << op;
            const std::string A = "r" + std::to_string(a), B = "r" + std::to_string(b),
                              V = (ok ? "value " : "error ") + std::to_string(val);
            auto note = [&](std::string t) {
                log += t + "; ";
                c.show(log);
            };
            if (op != 0 && !slots[b])
                continue;
            if (op > 1 && !slots[a])
                continue;
            switch (op) {
            case 0:
                note(A + " = new R(" + V + ")");
                slots[a].reset();
                slots[a] = make_result<R>(s, ok, val);
                model[a] = R_Model { ok, ok && std::is_void_v<T> ? 0 : val };
                break;
            case 1: {
                if (a == b)
                    break;
                const bool move = s.flag();
                note(A + " = new R(" + (move ? "move " : "") + B + ")");
                slots[a].reset();
                slots[a] = move ? std::make_unique<R>(std::move(*slots[b]))
                                : std::make_unique<R>(std::as_const(*slots[b]));
                model[a] = model[b];
                if (move && resets(model[b]->ok))
                    model[b]->value = moved_from;
                break;
            }
            case 2: {
                note(A + " = " + B);
                R& r = (*slots[a] = std::as_const(*slots[b]));
                c.check(&r == slots[a].get(), "assignment returns something else");
                model[a] = model[b];
                break;
            }
            case 3: {
                note(A + " = move " + B);
                R& r = (*slots[a] = std::move(*slots[b]));
                c.check(&r == slots[a].get(), "assignment returns something else");
                if (a != b) {
                    model[a] = model[b];
                    if (resets(model[b]->ok))
                        model[b]->value = moved_from;
                }
                break;
            }
            case 4: {
                note("swap " + A + " " + B);
                std::swap(*slots[a], *slots[b]);
                std::swap(model[a], model[b]);
                break;
            }
            case 5:
                note("delete " + A);
                slots[a].reset();
                model[a].reset();
                break;
            default:
                note("take from " + A);
                if (model[a]->ok) {
                    if constexpr (!std::is_void_v<T>) {
                        T x = s.flag() ? *std::move(*slots[a]) : std::move(*slots[a]).value();
                        c.check(x.value == model[a]->value, "took another value");
                    }
                }
                else {
                    E x = std::move(*slots[a]).error();
                    c.check(x.value == model[a]->value, "took another error");
                }
                if (resets(model[a]->ok))
                    model[a]->value = moved_from;
            }
            std::size_t alive = 0;
            for (int i = 0; i < n; ++i) {
                if (!slots[i])
                    continue;
                const R_Model m = observe_result(c, *slots[i]);
                if (model[i]->value == moved_from)
                    model[i]->value = m.value;
                c.check(m == *model[i],
                        "r" + std::to_string(i) + " is " + (m.ok ? "value " : "error ")
                            + std::to_string(m.value) + ", expected "
                            + (model[i]->ok ? "value " : "error ")
                            + std::to_string(model[i]->value));
                alive += resets(m.ok);
            }
            c.check(live.size() == alive,
                    std::to_string(live.size()) + " objects alive, expected "
                        + std::to_string(alive));
            c.check(lifetime_error.empty(), lifetime_error);
        }
        if (__builtin_popcount(kinds) >= 4)
            c.nontrivial(log);
    }
    c.check(live.empty(), "objects leaked");
    c.check(lifetime_error.empty(), lifetime_error);
}

// ---- the frame stack ----

bool is_int(const bms::Concrete_Value& v, int x)
{
    return v.type == bms::Concrete_Type::Int && v.int_value == x;
}

void map_stack(Src& s, Ctx& c)
{
    using bms::Concrete_Value;
    std::pmr::unsynchronized_pool_resource mem;
    bms::Linear_Map_Stack st(&mem);
    // the bottom frame has no sentinel
    std::vector<std::pair<int, std::map<int, int>>> model(1);
    static const char keys[40] = {};
    const int key_count = s.chance(10) ? 40 : 6, steps = 1 + s.upto(key_count * 10);
    std::string log;
    int max_depth = 1;
    for (int i = 0; i < steps; ++i) {
        const int k = s.upto(key_count - 1), v = s.upto(50);
        auto& top = model.back().second;
        const std::string K = std::to_string(k), V = std::to_string(v);
        auto note = [&](std::string t) {
            log += t + "; ";
            c.show(log);
        };
        switch (s.weighted({ 5, 5, 4, key_count > 6 ? 1 : 3, key_count > 6 ? 1 : 3, 1 })) {
        case 0: {
            note("assign " + K + " " + V);
            auto& e = st.assign(keys + k, Concrete_Value::Int(v));
            c.check(e.key == keys + k && is_int(e.value, v), "assign returns wrong entry");
            top[k] = v;
            break;
        }
        case 1: {
            note("emplace " + K + " " + V);
            auto r = st.emplace(keys + k, Concrete_Value::Int(v));
            c.check(bool(r) == !top.contains(k), "emplace succeeds iff the key is new");
            top.emplace(k, v);
            auto* e = r ? *r : r.error();
            c.check(e->key == keys + k && is_int(e->value, top.at(k)),
                    "emplace returns wrong entry");
            break;
        }
        case 2: {
            note("find " + K);
            auto* e = st.find(keys + k);
            c.check(bool(e) == top.contains(k), "find finds iff the top frame has the key");
            if (e && s.chance(30)) {
                e->value = Concrete_Value::Int(v);
                top[k] = v;
                note("set " + V);
            }
            break;
        }
        case 3:
            note("push " + V);
            st.push_frame(Concrete_Value::Int(v));
            model.emplace_back(v, std::map<int, int> {});
            max_depth = std::max(max_depth, int(model.size()));
            break;
        case 4: {
            note("pop");
            auto r = st.pop_frame();
            c.check(r.has_value() == (model.size() > 1), "pop_frame succeeds iff there is a frame");
            if (r) {
                c.check(is_int(*r, model.back().first), "pop_frame yields another sentinel");
                model.pop_back();
            }
            break;
        }
        default:
            if (s.chance(80))
                break;
            note("clear");
            st.clear();
            model.assign(1, {});
        }
        for (int j = 0; j < key_count; ++j) {
            auto* e = st.find(keys + j);
            auto it = model.back().second.find(j);
            c.check(bool(e) == (it != model.back().second.end()),
                    "key " + std::to_string(j) + (e ? " is" : " is not") + " in the top frame");
            if (e)
                c.check(is_int(e->value, it->second), "key " + std::to_string(j) + " has another value");
        }
    }
    // unwind everything
    while (model.size() > 1) {
        auto r = st.pop_frame();
        c.check(r && is_int(*r, model.back().first), "pop_frame while unwinding");
        model.pop_back();
        for (auto& [k, v] : model.back().second) {
            auto* e = st.find(keys + k);
            c.check(e && is_int(e->value, v), "an outer frame was changed");
        }
    }
    c.check(!st.pop_frame(), "pop_frame of the bottom frame");
    if (max_depth > 2)
        c.nontrivial(log);
}

// ---- symbol tables ----

void symbol_tables(Src& s, Ctx& c)
{
    using bms::Symbol_Table;
    struct Node {
        int parent;
        std::map<std::string, int> own;
        std::unique_ptr<Symbol_Table> lib;
        int children = 0;
    };
    static std::byte objects[40];
    std::pmr::unsynchronized_pool_resource mem;
    std::vector<Node> nodes;
    nodes.push_back({ -1, {}, std::make_unique<Symbol_Table>(&mem) });
    // names live outside the tables
    static const std::vector<std::string> names { "a", "b", "aa", "assert", "x1", "x10", "_" };
    const auto as_node = [](int v) { return reinterpret_cast<bms::ast::Some_Node*>(objects + v); };
    const auto as_parameter = [](int v) { return reinterpret_cast<bms::Parameter*>(objects + v); };
    // 0..19: nodes, 20..38: parameters, 39: the built-in function
    const auto make = [&](int v) -> bms::Lookup_Result {
        if (v < 20)
            return as_node(v);
        if (v < 39)
            return as_parameter(v);
        return bms::Builtin_Function::assert;
    };
    const auto is = [&](const auto& r, int v) {
        if (v < 20) {
            auto* p = get_if<bms::ast::Some_Node*>(&r);
            return p && *p == as_node(v);
        }
        if (v < 39) {
            auto* p = get_if<bms::Parameter*>(&r);
            return p && *p == as_parameter(v);
        }
        auto* p = get_if<bms::Builtin_Function>(&r);
        return p && *p == bms::Builtin_Function::assert;
    };
    const auto lookup = [&](int t, const std::string& n) {
        for (; t >= 0; t = nodes[std::size_t(t)].parent)
            if (auto i = nodes[std::size_t(t)].own.find(n); i != nodes[std::size_t(t)].own.end())
                return i->second;
        return -1;
    };
    std::string log;
    auto note = [&](std::string t) {
        log += t + "; ";
        c.show(log);
    };
    int found = 0, conflicts = 0;
    const int steps = 1 + s.upto(50);
    for (int k = 0; k < steps; ++k) {
        const int t = s.chance(60) ? int(nodes.size()) - 1 : s.upto(int(nodes.size()) - 1);
        auto& node = nodes[std::size_t(t)];
        const auto T = std::to_string(t);
        switch (s.weighted({ 8, 3, 4, 1 })) {
        case 0: {
            const auto& n = s.pick(names);
            const int v = s.upto(39);
            const bool shadow = s.chance(25);
            note("t" + T + " emplace " + n + " " + std::to_string(v) + (shadow ? " shadowing" : ""));
            int old = -1;
            if (!shadow && node.parent >= 0)
                old = lookup(node.parent, n);
            if (old < 0)
                if (auto i = node.own.find(n); i != node.own.end())
                    old = i->second;
            const auto r = node.lib->emplace(n, make(v), shadow);
            if (old < 0) {
                node.own.emplace(n, v);
                c.check(r.index() == 0, "emplace of a new name fails");
                auto& it = get<0>(r);
                c.check(it->first == n && is(it->second, v), "emplace returns another entry");
            }
            else {
                ++conflicts;
                c.check(r.index() == 1, "emplace of an existing name succeeds");
                c.check(is(get<1>(r), old), "emplace returns another entry than the existing one");
            }
            break;
        }
        case 1:
            if (nodes.size() < 8) {
                note("t" + std::to_string(nodes.size()) + " in t" + T);
                ++node.children;
                auto child = s.flag()
                    ? std::make_unique<Symbol_Table>(Symbol_Table::From_Parent_Tag {}, *node.lib)
                    : std::make_unique<Symbol_Table>(Symbol_Table::From_Parent_Tag {}, *node.lib, &mem);
                nodes.push_back({ t, {}, std::move(child) });
            }
            break;
        case 2: {
            const auto& n = s.pick(names);
            note("t" + T + " find " + n);
            const int want = lookup(t, n);
            // looked up by content
            const std::string copy = n;
            const auto r = std::as_const(*node.lib).find(copy);
            c.check(bool(r) == (want >= 0), want >= 0 ? "name not found" : "name found");
            if (want >= 0) {
                ++found;
                c.check(is(r, want) && is(*r, want) && is(r.value(), want), "another entry found");
            }
            break;
        }
        default:
            if (node.children == 0) {
                note("t" + T + " moved");
                node.lib = std::make_unique<Symbol_Table>(std::move(*node.lib));
            }
            else if (nodes.back().children == 0) {
                note("last table dropped");
                --nodes[std::size_t(nodes.back().parent)].children;
                nodes.pop_back();
            }
        }
    }
    for (std::size_t t = 0; t < nodes.size(); ++t)
        for (auto& n : names) {
            const int want = lookup(int(t), n);
            const auto r = nodes[t].lib->find(n);
            c.check(bool(r) == (want >= 0) && (want < 0 || is(r, want)),
                    "at the end, t" + std::to_string(t) + " has another " + n);
        }
    if (nodes.size() > 1 && found && conflicts)
        c.nontrivial(log);
}

// ---- code strings ----

void code_strings(Src& s, Ctx& c)
{
    namespace bmd = bit_manipulation::bmd;
    struct Span {
        std::size_t begin, length;
        bmd::Code_Span_Type type;
    };
    std::pmr::unsynchronized_pool_resource mem;
    bmd::Code_String str(&mem);
    std::string text;
    std::vector<Span> spans;
    struct Mark {
        bmd::Code_String::Length lib;
        std::size_t text, spans;
    };
    std::vector<Mark> marks;
    std::string log;
    auto note = [&](std::string t) {
        log += t + "; ";
        c.show(log);
    };
    const auto type = [&] { return bmd::Code_Span_Type(s.upto(10)); };
    bool resized = false;
    const int steps = 1 + s.upto(40);
    for (int k = 0; k < steps; ++k) {
        switch (s.weighted({ 5, 3, 3, 6, 4, 3, 2, 3 })) {
        case 0: {
            std::string t;
            for (int n = s.upto(6); n > 0; --n)
                t += s.pick_char("ab \n");
            note("append " + pbt::quote(t));
            str.append(t);
            text += t;
            break;
        }
        case 1: {
            const char ch = s.pick_char("xy\n");
            note(std::string("append '") + ch + "'");
            str.append(ch);
            text += ch;
            break;
        }
        case 2: {
            const int n = s.chance(5) ? s.upto(600) : s.upto(9);
            note("append " + std::to_string(n) + " blanks");
            str.append(std::size_t(n), ' ');
            text.append(std::size_t(n), ' ');
            break;
        }
        case 3: {
            std::string t = "t";
            for (int n = s.upto(20); n > 0; --n)
                t += s.pick_char("abc");
            const auto ty = type();
            note("append " + t + " as " + std::to_string(int(ty)));
            str.append(t, ty);
            spans.push_back({ text.size(), t.size(), ty });
            text += t;
            break;
        }
        case 4: {
            const auto ty = type();
            note("append '+' as " + std::to_string(int(ty)));
            str.append('+', ty);
            spans.push_back({ text.size(), 1, ty });
            text += '+';
            break;
        }
        case 5:
            note("mark");
            marks.push_back({ str.get_length(), text.size(), spans.size() });
            break;
        case 6:
            if (!marks.empty()) {
                const auto m = marks.begin() + s.upto(int(marks.size()) - 1);
                note("back to mark " + std::to_string(m - marks.begin()));
                str.resize(m->lib);
                text.resize(m->text);
                spans.resize(m->spans);
                marks.erase(m + 1, marks.end());
                resized = true;
            }
            break;
        default: { // random access
            const auto n = std::ptrdiff_t(spans.size());
            const auto i = std::ptrdiff_t(s.upto(int(n))), j = std::ptrdiff_t(s.upto(int(n)));
            note("iterators at " + std::to_string(i) + ", " + std::to_string(j));
            const auto a = str.begin() + i, b = j + str.cbegin(), e = str.end();
            c.check(a - b == i - j && e - a == n - i && (a == b) == (i == j) && (a != b) == (i != j)
                        && (a < b) == (i < j) && (a >= b) == (i >= j) && e == str.cend(),
                    "iterator comparison");
            c.check(e - (n - i) == a, "iterator subtraction");
            auto x = a;
            if (i < n) {
                c.check((*a).begin == spans[std::size_t(i)].begin && str.begin()[i].begin == (*a).begin, "element access");
                auto y = x++;
                c.check(y == a && x - a == 1, "postincrement");
                c.check(x-- - a == 1 && x == a, "postdecrement");
                c.check(++x - a == 1 && --x == a, "preincrement");
            }
            x = a;
            (void)(x += j - i);
            c.check(x == b, "+=");
            (void)(x -= j - i);
            c.check(x == a, "-=");
        }
        }
        c.check(str.get_text() == text, "text is " + pbt::quote(str.get_text()) + ", expected " + pbt::quote(text));
        c.check(str.get_text_length() == text.size() && str.get_length().text_length == text.size()
                    && str.get_length().span_count == spans.size(),
                "wrong length");
        std::size_t k2 = 0;
        for (auto sp : str) {
            c.check(k2 < spans.size() && sp.begin == spans[k2].begin && sp.length == spans[k2].length
                        && sp.type == spans[k2].type,
                    "span " + std::to_string(k2) + " differs");
            ++k2;
        }
        c.check(k2 == spans.size(), "spans are missing");
    }
    if (spans.size() >= 3 && resized)
        c.nontrivial(log);
}

void tribool(Ctx& c)
{
    const Tribool v[3] { Tribool::fawse, Tribool::maybe, Tribool::twue }; // order: 0, 1/2, 1
    c.check(Tribool(true) == Tribool::twue && Tribool(false) == Tribool::fawse, "bool conversion");
    for (int i = 0; i < 3; ++i) {
        c.check(!v[i] == v[2 - i], "negation");
        for (int j = 0; j < 3; ++j) {
            c.show("operands " + std::to_string(i) + " " + std::to_string(j));
            c.check((v[i] == v[j]) == (i == j), "identity");
            c.check((v[i] && v[j]) == v[std::min(i, j)], "and");
            c.check((v[i] || v[j]) == v[std::max(i, j)], "or");
            const int eq = i == 1 || j == 1 ? 1 : i == j ? 2 : 0;
            c.check(equals(v[i], v[j]) == v[eq], "equals");
            c.check(not_equals(v[i], v[j]) == v[2 - eq], "not_equals");
        }
    }
    c.nontrivial("tribool");
}

template <int N>
using TT = Tracked<N>;
using V2 = Variant<TT<0>, Tracked<1, true>>;
using V4 = Variant<Plain<0>, TT<0>, TT<1>, Tracked<2, true>>;
using V7 = Variant<TT<0>, Plain<40>, TT<2>, Tracked<3, true>, TT<4>, Plain<1>, TT<6>>;
using V19 = Variant<TT<0>, TT<1>, TT<2>, Plain<3>, TT<4>, TT<5>, TT<6>, TT<7>, TT<8>, Plain<9>,
                    TT<10>, TT<11>, TT<12>, TT<13>, TT<14>, TT<15>, TT<16>, Tracked<17, true>, TT<18>>;
using V8 = Variant<TT<0>, TT<1>, Plain<2>, TT<3>, TT<4>, Tracked<5, true>, TT<6>, TT<7>>;
using V25 = Variant<Plain<0>, TT<1>, TT<2>, TT<3>, TT<4>, Plain<5>, TT<6>, TT<7>, TT<8>, TT<9>, TT<10>, TT<11>, TT<12>, TT<13>, TT<14>, TT<15>, TT<16>, TT<17>, TT<18>, TT<19>, TT<20>, Plain<21>, TT<22>, Tracked<23, true>, TT<24>>;
using VP = Variant<Plain<0>, Plain<1>, Plain<30>>;
using R1 = Result<TT<0>, TT<1>>;
using R2 = Result<Plain<0>, TT<1>>;
using R3 = Result<TT<0>, Plain<9>>;
using R4 = Result<void, TT<0>>;
using R5 = Result<TT<0>, TT<0>>;
using R6 = Result<void, Plain<0>>;

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C23";
    p.rule = "Histories of up to 40 operations (construction from values, default, copy and move "
             "construction, copy and move assignment including self-assignment, assignment of own "
             "alternative, failing copies, swap, in-place modification, destruction) on three "
             "variants or results compared after every operation with a model of alternative and "
             "value; every contained object is registered from creation to destruction. Histories "
             "on the frame stack against a vector of maps, on hierarchies of symbol tables "
             "against maps searched from the inside out, and on code strings (with marks to return "
             "to and random access iterators) against a string and a list. Tribool tables "
             "exhaustively. Non-trivial: at least four kinds of operations (frame stack: depth "
             "above two; symbol tables: nested, with a conflict and a name found; code strings: "
             "three spans and a return to a mark); distinct by history.";
    p.targets = { { "variant of 2", variant_history<V2>, 20000, 400000 },
                  { "variant of 4", variant_history<V4>, 20000, 400000 },
                  { "variant of 7", variant_history<V7>, 10000, 200000 },
                  { "variant of 19", variant_history<V19>, 5000, 100000 },
                  { "variant of 8", variant_history<V8>, 5000, 100000 },
                  { "variant of 25", variant_history<V25>, 5000, 100000 },
                  { "trivial variant", variant_history<VP>, 10000, 100000 },
                  { "result", result_history<R1>, 20000, 300000 },
                  { "result, plain value", result_history<R2>, 10000, 100000 },
                  { "result, plain error", result_history<R3>, 10000, 100000 },
                  { "result of void", result_history<R4>, 10000, 100000 },
                  { "result, same types", result_history<R5>, 10000, 100000 },
                  { "result of void, plain error", result_history<R6>, 5000, 50000 },
                  { "frame stack", map_stack, 30000, 500000 },
                  { "symbol tables", symbol_tables, 20000, 500000 },
                  { "code strings", code_strings, 20000, 500000 } };
    p.fixed = { { "tribool", tribool } };
    p.assumptions = { "alternatives are nothrow move constructible, as the variant requires" };
    return p;
}
