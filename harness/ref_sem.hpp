// Reference semantics of BMS programs: name lookup, typing, constant evaluation, bit-generic
// instantiation and execution, over the reference tree. Errors are collected, not fatal.
#ifndef VERIF_REF_SEM_HPP
#define VERIF_REF_SEM_HPP
#include <deque>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "ref_lex.hpp"
#include "ref_parse.hpp"
#include "ref_val.hpp"

namespace ref {

struct Sem_Error {
    std::string code;
    std::size_t tok; // the token of the construct at which the rule is broken
    std::optional<std::size_t> inner {}; // of an error inside a called function: where it happened
};
/// The program has no specified meaning within the bounds of the reference.
struct Unspecified {
    std::string why;
};
struct Run_Error {
    std::string code; // evaluation_error:<code> or execution_error:<code>
    std::size_t tok;
};

inline std::optional<Z> literal_value(const std::string& text)
{
    Z v = 0;
    int base = 10;
    std::size_t i = 0;
    if (text.size() > 1 && text[0] == '0') {
        base = text[1] == 'x' ? 16 : text[1] == 'b' ? 2 : 8;
        i = base == 8 ? 1 : 2;
    }
    for (; i < text.size(); ++i) {
        const char c = text[i];
        v = v * base + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
    }
    if (!int_fits(v))
        return {};
    return v;
}

inline std::optional<Op> op_of(const std::string& t)
{
    for (std::size_t i = 0; i < op_texts().size(); ++i)
        if (op_texts()[i] == t)
            return Op(i);
    return {};
}
/// "" if the operator applies
inline std::string binary_rule(Type a, Op o, Type b)
{
    if (a.k == 'V' || b.k == 'V')
        return "void_operation";
    if (a.k == 'U' && b.k == 'U' && a.w != b.w)
        return "incompatible_widths";
    const auto c = common(a, b);
    if (!c)
        return "incompatible_types";
    if (c->k == 'B')
        return is_arith(o) ? "bool_arithmetic"
            : is_bit(o)    ? "bool_bitwise"
            : is_rel(o)    ? "bool_relational_comparison"
                           : "";
    if (c->k == 'I')
        return is_bit(o) ? "int_bitwise" : is_log(o) ? "int_logical" : "";
    return is_log(o) ? "uint_logical" : "";
}
inline std::string unary_rule(char o, Type a)
{
    if (a.k == 'V')
        return "void_operation";
    if (a.k == 'B')
        return o == '!' ? "" : o == '~' ? "bool_bitwise" : "bool_arithmetic";
    if (a.k == 'I')
        return o == '~' ? "int_bitwise" : o == '!' ? "int_logical" : "";
    return o == '!' ? "uint_logical" : "";
}

class Semantics {
public:
    struct Entity {
        enum K { Const, Fn, Let, Param, Width, Builtin } k;
        const Node* decl = nullptr;
        std::string name;
        int index = 0;
    };
    struct Info {
        bool ok = false; // false: an error has been reported
        Type t {};
        std::optional<Val> v {};
    };
    struct Inst {
        std::map<const Node*, Info> infos; // what is known about expressions before they run
        Entity* fn = nullptr;
        std::vector<int> widths;
        std::map<const Entity*, int> width_of;
        int level = 0;
        bool requires_done = false;
        bool failed = false;
        std::map<const Node*, Type> types; // of type nodes and if-expressions
        std::map<const Entity*, Type> var_types;
        std::map<const Entity*, Val> const_vals;
        std::map<const Node*, Inst*> targets;
        std::set<const Node*> asserts_done;
        // of a function that is not an instance: whether it is generic
        bool generic = false;
        std::vector<Inst*> instances;
    };
    enum { none, shallow, full, constant_level };

    std::vector<Sem_Error> errors;
    bool names_ok = false;
    std::map<std::string, Val> constants;
    Z largest_int_constant = 0; // in absolute value, of any scope
    long budget = 20000;
    // statistics
    int const_calls = 0, instances_made = 0, steps = 0;
    std::set<std::string> used_constructs;
    std::set<int> widths_named;

    explicit Semantics(Ptr program)
        : root(std::move(program))
    {
        resolve_program();
        names_ok = errors.empty();
        if (names_ok)
            analyze_program();
    }
    bool ok() const { return errors.empty(); }
    const Inst* top_scope() const { return &global_scope; }
    Inst* top_scope() { return &global_scope; }
    /// What the name in an Id, Call or Assign refers to.
    const Entity* entity(const Node& use) const
    {
        auto it = uses.find(&use);
        return it == uses.end() ? nullptr : it->second;
    }
    bool introduces_width(const Node& id) const { return introduces.count(&id); }

    Inst* function(const std::string& name)
    {
        auto it = globals.find(name);
        if (it == globals.end() || it->second->k != Entity::Fn)
            return nullptr;
        return &fns.at(it->second);
    }
    std::vector<Inst*> functions()
    {
        std::vector<Inst*> r;
        for (auto& d : root->kids)
            if (d->kind == "Function")
                r.push_back(function(d->text));
        return r;
    }
    static std::vector<Ptr> params(const Inst* f)
    {
        const auto& p = f->fn->decl->kids[1];
        return p ? p->kids : std::vector<Ptr> {};
    }
    Type param_type(const Inst* f, std::size_t i)
    {
        return f->types.at(params(f).at(i)->kids[0].get());
    }
    Type return_type(const Inst* f) { return f->types.at(f->fn->decl->kids[2].get()); }

    /// Runs a fully analyzed function on arguments of its parameter types.
    std::function<void(const Node&, const Val&)> watch; // told about every value of an expression
    Val call(Inst* f, const std::vector<Val>& args)
    {
        struct Depth {
            int& d;
            ~Depth() { --d; }
        } depth { ++call_depth };
        if (call_depth > 60)
            throw Unspecified { "call depth" };
        Frame fr;
        fr.inst = f;
        const auto ps = params(f);
        for (std::size_t i = 0; i < ps.size(); ++i)
            fr.vars[params_of.at(ps[i].get())] = args.at(i);
        const auto r = exec(fr, f->fn->decl->kids[4].get());
        if (r == Flow::ret)
            return fr.result;
        if (return_type(f).k == 'V')
            return Val { VOID, 0 };
        throw Run_Error { "execution_error:missing_return", f->fn->decl->tok };
    }

private:
    Ptr root;
    std::deque<Entity> pool;
    std::map<std::string, Entity*> globals;
    std::map<const Node*, Entity*> uses;      // Id, Call, Assign
    std::map<const Node*, Entity*> decls;     // Let, Const
    std::map<const Node*, Entity*> params_of; // Param
    std::map<const Node*, Entity*> introduces; // width Id of a parameter type
    std::map<Entity*, Inst> fns;
    std::deque<Inst> inst_pool;
    Inst global_scope;
    std::vector<Inst*> stack;
    int call_depth = 0;

    Entity* make(Entity::K k, const Node* d, std::string name)
    {
        pool.push_back({ k, d, std::move(name), 0 });
        return &pool.back();
    }
    void error(std::string code, std::size_t tok) { errors.push_back({ std::move(code), tok, {} }); }

    // ---- names ----
    struct Scope {
        Scope* up = nullptr;
        std::map<std::string, Entity*> names;
        Entity* find(const std::string& n) const
        {
            for (auto* s = this; s; s = s->up)
                if (auto it = s->names.find(n); it != s->names.end())
                    return it->second;
            return nullptr;
        }
        bool define(const std::string& n, Entity* e)
        {
            if (find(n))
                return false;
            names[n] = e;
            return true;
        }
    };

    void resolve_program()
    {
        Scope builtin, global;
        builtin.names["assert"] = make(Entity::Builtin, nullptr, "assert");
        global.up = &builtin;
        for (auto& d : root->kids) {
            if (d->kind == "Const") {
                auto* e = make(Entity::Const, d.get(), d->text);
                if (global.define(d->text, e))
                    globals[d->text] = e;
                else
                    error("failed_to_define_global_const", d->tok);
                decls[d.get()] = e;
            }
            else if (d->kind == "Function") {
                auto* e = make(Entity::Fn, d.get(), d->text);
                if (global.define(d->text, e))
                    globals[d->text] = e;
                else
                    error("failed_to_define_function", d->tok);
                fns[e].fn = e;
                decls[d.get()] = e;
            }
        }
        for (auto& d : root->kids) {
            if (d->kind == "Const") {
                resolve(d->kids[1], global);
                resolve(d->kids[2], global);
            }
            else if (d->kind == "Static_Assert")
                resolve(d->kids[0], global);
            else
                resolve_function(*d, global);
        }
    }
    void resolve_function(const Node& f, Scope& global)
    {
        Scope s;
        s.up = &global;
        if (f.kids[1])
            for (auto& p : f.kids[1]->kids) {
                auto* e = make(Entity::Param, p.get(), p->text);
                params_of[p.get()] = e;
                if (!s.define(p->text, e))
                    error("failed_to_define_parameter", p->tok);
                const auto& w = p->kids[0]->kids[0];
                if (!w)
                    continue;
                if (w->kind == "Id" && !s.find(w->text)) {
                    auto* we = make(Entity::Width, w.get(), w->text);
                    s.define(w->text, we);
                    introduces[w.get()] = we;
                    uses[w.get()] = we;
                    fns[decls[&f]].generic = true;
                }
                else
                    resolve(w, s);
            }
        resolve(f.kids[2], s);
        resolve(f.kids[3], s);
        resolve(f.kids[4], s);
    }
    void resolve(const Ptr& p, Scope& s)
    {
        if (!p || p->kind == "Annots")
            return;
        const Node& n = *p;
        if (n.kind == "Block") {
            Scope inner;
            inner.up = &s;
            for (auto& k : n.kids)
                resolve(k, inner);
            return;
        }
        if (n.kind == "Const" || n.kind == "Let") {
            auto* e = make(n.kind == "Let" ? Entity::Let : Entity::Const, &n, n.text);
            decls[&n] = e;
            if (!s.define(n.text, e))
                error("failed_to_define_variable", n.tok);
        }
        else if (n.kind == "Assign" || n.kind == "Call" || n.kind == "Id") {
            auto* e = s.find(n.text);
            if (!e)
                error(n.kind == "Id"       ? "reference_to_undefined_variable"
                          : n.kind == "Call" ? "call_to_undefined_function"
                                             : "assignment_of_undefined_variable",
                      n.tok);
            uses[&n] = e;
        }
        for (auto& k : n.kids)
            resolve(k, s);
    }

    // ---- types and constants ----
    static Info of(Type t) { return { true, t, {} }; }
    static Info of(Val v) { return { true, v.t, v }; }
    Info fail(std::string code, const Node& n)
    {
        error(std::move(code), n.tok);
        return {};
    }

    void analyze_program()
    {
        for (auto& d : root->kids) {
            if (d->kind == "Const")
                const_decl(*d, &global_scope);
            else if (d->kind == "Static_Assert")
                static_assertion(*d, &global_scope);
            else
                top_function(&fns.at(decls.at(d.get())));
        }
        for (std::size_t before = ~std::size_t(0), now = count(); before != now; now = count()) {
            before = now;
            for (auto& d : root->kids)
                if (d->kind == "Function")
                    if (auto& f = fns.at(decls.at(d.get())); f.generic)
                        top_function(&f);
        }
    }
    std::size_t count() const
    {
        std::size_t n = 0;
        for (auto& [e, f] : fns)
            n += f.instances.size();
        return n;
    }
    void top_function(Inst* f)
    {
        if (f->generic)
            for (std::size_t i = 0; i < f->instances.size(); ++i)
                analyze_function(f->instances[i], full);
        else
            analyze_function(f, full);
    }

    bool analyze_function(Inst* f, int level)
    {
        if (f->failed)
            return false;
        if (f->level >= level)
            return true;
        const auto errors_before = errors.size();
        stack.push_back(f);
        const Node& d = *f->fn->decl;
        for (auto& p : params(f))
            type_node(p->kids[0], f);
        const auto rt = type_node(d.kids[2], f);
        if (d.kids[3] && !f->requires_done) {
            f->requires_done = true;
            const Info r = check(d.kids[3], f, true, constant_level);
            if (r.ok) {
                if (r.t != BOOL)
                    error("requires_clause_not_bool", d.kids[3]->tok);
                else if (r.v->v == 0)
                    error("requires_clause_not_satisfied", d.kids[3]->tok);
            }
        }
        if (f->level < shallow)
            f->level = shallow;
        if (errors.size() == errors_before && level >= full)
            statement(d.kids[4], f, level, false);
        stack.pop_back();
        f->level = std::max(f->level, level);
        f->failed = errors.size() != errors_before;
        return !f->failed;
    }

    std::optional<Type> type_node(const Ptr& p, Inst* in)
    {
        if (auto it = in->types.find(p.get()); it != in->types.end())
            return it->second;
        Type t;
        if (p->text == "Void")
            t = VOID;
        else if (p->text == "Bool")
            t = BOOL;
        else if (p->text == "Int")
            t = INT;
        else {
            const auto& w = p->kids[0];
            const Info i = check(w, in, true, constant_level);
            if (!i.ok)
                return {};
            if (i.t.k != 'I' && i.t.k != 'U') {
                error("width_not_integer", w->tok);
                return {};
            }
            if (i.v->v <= 0 || i.v->v > 128) {
                error("width_invalid", w->tok);
                return {};
            }
            t = UINT(int(i.v->v));
            widths_named.insert(t.w);
        }
        in->types[p.get()] = t;
        return t;
    }

    void const_decl(const Node& n, Inst* in)
    {
        const auto* e = decls.at(&n);
        if (in->const_vals.count(e))
            return;
        std::optional<Type> t;
        if (n.kids[1]) {
            t = type_node(n.kids[1], in);
            if (!t)
                return;
        }
        const Info i = check(n.kids[2], in, true, constant_level);
        if (!i.ok)
            return;
        Val v = *i.v;
        if (t) {
            if (!convertible(v.t, *t))
                return error("incompatible_types", n.tok);
            const Out o = convert(v, *t);
            if (!o.v)
                return error("evaluation_error:" + o.err, n.tok);
            v = *o.v;
        }
        in->const_vals[e] = v;
        if (v.t.k == 'I')
            largest_int_constant = std::max(largest_int_constant, Z(abs(v.v)));
        if (in == &global_scope)
            constants[n.text] = v;
    }
    void static_assertion(const Node& n, Inst* in)
    {
        if (!in->asserts_done.insert(&n).second)
            return;
        const Info i = check(n.kids[0], in, true, constant_level);
        if (!i.ok)
            return;
        if (i.t != BOOL)
            error("static_assert_expression_not_bool", n.tok);
        else if (i.v->v == 0)
            error("static_assertion_failed", n.tok);
    }

    void statement(const Ptr& p, Inst* in, int level, bool in_loop)
    {
        if (!p || p->kind == "Annots")
            return;
        const Node& n = *p;
        used_constructs.insert(n.kind);
        if (n.kind == "Block") {
            for (auto& k : n.kids)
                statement(k, in, level, in_loop);
        }
        else if (n.kind == "Const")
            const_decl(n, in);
        else if (n.kind == "Static_Assert")
            static_assertion(n, in);
        else if (n.kind == "Let") {
            const auto* e = decls.at(&n);
            std::optional<Type> t;
            if (n.kids[1]) {
                t = type_node(n.kids[1], in);
                if (!t)
                    return;
            }
            if (n.kids[2]) {
                const Info i = check(n.kids[2], in, false, level);
                if (!i.ok)
                    return;
                if (!t)
                    t = i.t;
                else if (!convertible(i.t, *t))
                    return error("incompatible_types", n.tok);
            }
            in->var_types[e] = *t;
        }
        else if (n.kind == "If" || n.kind == "While") {
            const Info c = check(n.kids[1], in, false, level);
            if (c.ok && c.t != BOOL)
                error("condition_not_bool", n.tok);
            statement(n.kids[2], in, level, in_loop || n.kind == "While");
            if (n.kind == "If")
                statement(n.kids[3], in, level, in_loop);
        }
        else if (n.kind == "Break" || n.kind == "Continue") {
            if (!in_loop)
                error(n.kind == "Break" ? "break_outside_loop" : "continue_outside_loop", n.tok);
        }
        else if (n.kind == "Return") {
            const auto rt = type_node(in->fn->decl->kids[2], in);
            if (!rt)
                return;
            if (!n.kids[0]) {
                if (rt->k != 'V')
                    error("empty_return_in_non_void_function", n.tok);
                return;
            }
            const Info i = check(n.kids[0], in, false, level);
            if (i.ok && !convertible(i.t, *rt))
                error("incompatible_types", n.tok);
        }
        else if (n.kind == "Assign") {
            const auto* e = uses.at(&n);
            if (e->k == Entity::Param)
                return error("assigning_parameter", n.tok);
            if (e->k == Entity::Fn || e->k == Entity::Builtin)
                return error("assigning_function", n.tok);
            if (e->k == Entity::Const || e->k == Entity::Width)
                return error("assigning_const", n.tok);
            const Info i = check(n.kids[1], in, false, level);
            const auto it = in->var_types.find(e);
            if (i.ok && it != in->var_types.end() && !convertible(i.t, it->second))
                error("incompatible_types", n.tok);
        }
        else if (n.kind == "Call")
            check(p, in, false, level);
        else
            throw std::logic_error("statement " + n.kind);
    }

    Info check(const Ptr& p, Inst* in, bool constant, int level)
    {
        const Info r = check_node(p, in, constant, level);
        if (r.ok)
            in->infos[p.get()] = r;
        return r;
    }
    Info check_node(const Ptr& p, Inst* in, bool constant, int level)
    {
        const Node& n = *p;
        used_constructs.insert(n.kind);
        if (n.kind == "Literal") {
            if (n.text == "true" || n.text == "false")
                return of(Val { BOOL, n.text == "true" });
            const auto v = literal_value(n.text);
            if (!v)
                return fail("invalid_integer_literal", n);
            return of(Val { INT, *v });
        }
        if (n.kind == "Id") {
            const auto* e = uses.at(&n);
            switch (e->k) {
            case Entity::Param: {
                if (constant)
                    return fail("parameter_in_constant_expression", n);
                const auto it = in->types.find(e->decl->kids[0].get());
                if (it == in->types.end())
                    return fail("use_of_undefined_variable", n);
                return of(it->second);
            }
            case Entity::Fn:
            case Entity::Builtin: return fail("function_in_expression", n);
            case Entity::Width: return of(Val { INT, in->width_of.at(e) });
            case Entity::Let: {
                if (constant)
                    return fail("let_variable_in_constant_expression", n);
                const auto it = in->var_types.find(e);
                if (it == in->var_types.end())
                    return fail("use_of_undefined_variable", n);
                return of(it->second);
            }
            case Entity::Const: {
                auto& vals = globals.count(n.text) && globals.at(n.text) == e ? global_scope : *in;
                const auto it = vals.const_vals.find(e);
                if (it == vals.const_vals.end())
                    return fail("use_of_undefined_constant", n);
                return of(it->second);
            }
            }
        }
        if (n.kind == "Prefix") {
            const Info a = check(n.kids[0], in, constant, level);
            if (!a.ok)
                return {};
            const char o = n.text[0];
            if (auto r = unary_rule(o, a.t); !r.empty())
                return fail(r, n);
            return folded(n, *type_unary(o, a.t), a.v ? std::optional(unary(o, *a.v)) : std::nullopt,
                          constant);
        }
        if (n.kind == "Binary") {
            const Op o = *op_of(n.text);
            const Info a = check(n.kids[0], in, constant, level);
            if (!a.ok) {
                // the rest may contain further errors, but their context is unknown
                if (!constant)
                    check(n.kids[1], in, false, level);
                return {};
            }
            bool right_constant = constant;
            if (constant && is_log(o)) {
                if (a.t != BOOL)
                    return fail("non_bool_logical", n);
                if ((a.v->v != 0) == (o == Op::lor))
                    right_constant = false;
            }
            const Info b = check(n.kids[1], in, right_constant, level);
            if (!b.ok)
                return {};
            if (auto r = binary_rule(a.t, o, b.t); !r.empty())
                return fail(r, n);
            const Type t = *type_binary(a.t, o, b.t);
            if (a.v && is_log(o) && (a.v->v != 0) == (o == Op::lor))
                return of(*a.v);
            return folded(n, t, a.v && b.v ? std::optional(binary(*a.v, o, *b.v)) : std::nullopt,
                          right_constant);
        }
        if (n.kind == "If_Expr") {
            const Info c = check(n.kids[1], in, constant, level);
            if (c.ok && c.t != BOOL)
                return fail("condition_not_bool", n);
            if (!c.ok && constant)
                return {};
            const bool lc = constant && c.v->v != 0, rc = constant && c.v->v == 0;
            const Info l = check(n.kids[0], in, lc, level);
            const Info r = check(n.kids[2], in, rc, level);
            if (!c.ok || !l.ok || !r.ok)
                return {};
            const auto t = common(l.t, r.t);
            if (!t)
                return fail(l.t.k == 'U' && r.t.k == 'U' ? "incompatible_widths" : "incompatible_types",
                            n);
            in->types[&n] = *t;
            if (!c.v)
                return of(*t);
            const auto& sel = c.v->v != 0 ? l : r;
            return folded(n, *t, sel.v ? std::optional(convert(*sel.v, *t)) : std::nullopt, constant);
        }
        if (n.kind == "Conv") {
            const Info a = check(n.kids[0], in, constant, level);
            const auto t = type_node(n.kids[1], in);
            if (!a.ok || !t)
                return {};
            if (!convertible(a.t, *t))
                return fail("incompatible_types", n);
            return folded(n, *t, a.v ? std::optional(convert(*a.v, *t)) : std::nullopt, constant);
        }
        if (n.kind == "Call")
            return check_call(n, in, constant, level);
        throw std::logic_error("expression " + n.kind);
    }
    Info folded(const Node& n, Type t, std::optional<Out> o, bool constant)
    {
        if (!o)
            return of(t);
        if (!o->v) {
            if (constant)
                return fail("evaluation_error:" + o->err, n);
            return of(t);
        }
        return of(*o->v);
    }

    Info check_call(const Node& n, Inst* in, bool constant, int level)
    {
        std::vector<Info> args;
        std::vector<const Node*> arg_nodes;
        bool args_ok = true;
        for (auto& k : n.kids)
            if (k && k->kind != "Annots") {
                args.push_back(check(k, in, constant, level));
                arg_nodes.push_back(k.get());
                args_ok &= args.back().ok;
            }
        auto* e = uses.at(&n);
        if (e->k == Entity::Builtin) {
            if (args.size() != 1)
                return fail("wrong_number_of_arguments", n);
            if (!args_ok)
                return {};
            if (args[0].t != BOOL)
                return fail("wrong_argument_type", n);
            if (!args[0].v)
                return of(VOID);
            if (args[0].v->v == 0)
                return fail("evaluation_error:assertion_fail", n);
            return of(Val { VOID, 0 });
        }
        if (e->k != Entity::Fn)
            return fail("call_non_function", n);
        Inst* f = &fns.at(e);
        const auto ps = params(f);
        if (ps.size() != args.size())
            return fail("wrong_number_of_arguments", n);
        if (!args_ok)
            return {};
        if (f->generic) {
            std::vector<int> widths;
            std::map<const Entity*, int> width_of;
            for (std::size_t i = 0; i < ps.size(); ++i) {
                const auto it = introduces.find(ps[i]->kids[0]->kids[0].get());
                if (it == introduces.end())
                    continue;
                if (args[i].t.k != 'U')
                    return fail("width_deduction_from_non_uint", *arg_nodes[i]);
                widths.push_back(args[i].t.w);
                width_of[it->second] = args[i].t.w;
            }
            Inst* found = nullptr;
            for (auto* x : f->instances)
                if (x->widths == widths)
                    found = x;
            if (!found) {
                inst_pool.emplace_back();
                found = &inst_pool.back();
                found->fn = f->fn;
                found->widths = widths;
                found->width_of = width_of;
                f->instances.push_back(found);
                ++instances_made;
            }
            f = found;
        }
        in->targets[&n] = f;
        const int inner = constant || level == constant_level ? constant_level : shallow;
        if (inner == constant_level)
            for (auto* s : stack)
                if (s == f)
                    return fail("codegen_call_to_unanalyzed", n);
        if (!analyze_function(f, inner))
            return {};
        const auto rt = type_node(f->fn->decl->kids[2], f);
        if (!rt)
            return {};
        std::vector<Val> values;
        for (std::size_t i = 0; i < ps.size(); ++i) {
            const auto pt = type_node(ps[i]->kids[0], f);
            if (!pt)
                return {};
            if (!convertible(args[i].t, *pt))
                return fail("incompatible_types", n);
            if (constant) {
                const Out o = convert(*args[i].v, *pt);
                if (!o.v)
                    return fail("evaluation_error:" + o.err, n);
                values.push_back(*o.v);
            }
        }
        if (!constant)
            return of(*rt);
        if (!errors.empty())
            return {}; // what runs may be ill-formed
        ++const_calls;
        try {
            return of(call(f, values));
        } catch (const Run_Error& r) {
            const auto result = fail(r.code, n);
            errors.back().inner = r.tok;
            return result;
        }
    }

    // ---- execution ----
    enum class Flow { next, brk, cont, ret };
    struct Frame {
        Inst* inst;
        std::map<const Entity*, Val> vars;
        std::set<const Entity*> stale; // declared again without a value after having had one
        Val result {};
    };
    void step()
    {
        ++steps;
        if (--budget < 0)
            throw Unspecified { "step budget" };
    }
    static Val need(const Out& o, const Node& n)
    {
        if (!o.v)
            throw Run_Error { "evaluation_error:" + o.err, n.tok };
        return *o.v;
    }
    Flow exec(Frame& f, const Node* p)
    {
        if (!p)
            return Flow::next;
        const Node& n = *p;
        step();
        if (n.kind == "Block") {
            for (auto& k : n.kids)
                if (const auto r = exec(f, k.get()); r != Flow::next)
                    return r;
            return Flow::next;
        }
        if (n.kind == "Const" || n.kind == "Static_Assert")
            return Flow::next;
        if (n.kind == "Let") {
            const auto* e = decls.at(&n);
            if (n.kids[2]) {
                f.vars[e] = need(convert(eval(f, n.kids[2]), f.inst->var_types.at(e)), n);
                f.stale.erase(e);
            }
            else if (f.vars.erase(e))
                f.stale.insert(e);
            return Flow::next;
        }
        if (n.kind == "Assign") {
            const auto* e = uses.at(&n);
            f.vars[e] = need(convert(eval(f, n.kids[1]), f.inst->var_types.at(e)), n);
            f.stale.erase(e);
            return Flow::next;
        }
        if (n.kind == "If") {
            if (eval(f, n.kids[1]).v != 0)
                return exec(f, n.kids[2].get());
            return exec(f, n.kids[3].get());
        }
        if (n.kind == "While") {
            while (eval(f, n.kids[1]).v != 0) {
                step();
                const auto r = exec(f, n.kids[2].get());
                if (r == Flow::brk)
                    break;
                if (r == Flow::ret)
                    return r;
            }
            return Flow::next;
        }
        if (n.kind == "Break")
            return Flow::brk;
        if (n.kind == "Continue")
            return Flow::cont;
        if (n.kind == "Return") {
            f.result = n.kids[0] ? need(convert(eval(f, n.kids[0]), return_type(f.inst)), n)
                                 : Val { VOID, 0 };
            return Flow::ret;
        }
        if (n.kind == "Call") {
            eval_node(f, n);
            return Flow::next;
        }
        throw std::logic_error("execute " + n.kind);
    }
    Val eval(Frame& f, const Ptr& p)
    {
        const Val v = eval_node(f, *p);
        if (watch)
            watch(*p, v);
        return v;
    }
    Val eval_node(Frame& f, const Node& n)
    {
        step();
        if (n.kind == "Literal")
            return n.text == "true" || n.text == "false" ? Val { BOOL, n.text == "true" }
                                                         : Val { INT, *literal_value(n.text) };
        if (n.kind == "Id") {
            const auto* e = uses.at(&n);
            if (e->k == Entity::Width)
                return Val { INT, f.inst->width_of.at(e) };
            if (e->k == Entity::Const) {
                const auto it = f.inst->const_vals.find(e);
                return it != f.inst->const_vals.end() ? it->second : global_scope.const_vals.at(e);
            }
            if (f.stale.count(e))
                throw Unspecified { "variable of an earlier iteration" };
            const auto it = f.vars.find(e);
            if (it == f.vars.end())
                throw Run_Error { "execution_error:load_uninitialized", n.tok };
            return it->second;
        }
        if (n.kind == "Prefix")
            return need(unary(n.text[0], eval(f, n.kids[0])), n);
        if (n.kind == "Binary") {
            const Op o = *op_of(n.text);
            const Val a = eval(f, n.kids[0]);
            if (is_log(o) && (a.v != 0) == (o == Op::lor))
                return a;
            const Val b = eval(f, n.kids[1]);
            return need(binary(a, o, b), n);
        }
        if (n.kind == "If_Expr") {
            const bool c = eval(f, n.kids[1]).v != 0;
            return need(convert(eval(f, n.kids[c ? 0 : 2]), f.inst->types.at(&n)), n);
        }
        if (n.kind == "Conv")
            return need(convert(eval(f, n.kids[0]), f.inst->types.at(n.kids[1].get())), n);
        if (n.kind == "Call") {
            auto* e = uses.at(&n);
            std::vector<Val> args;
            Inst* target = e->k == Entity::Builtin ? nullptr : f.inst->targets.at(&n);
            for (auto& k : n.kids)
                if (k && k->kind != "Annots") {
                    Val v = eval(f, k);
                    if (target)
                        v = need(convert(v, param_type(target, args.size())), n);
                    args.push_back(v);
                }
            if (!target) {
                if (args[0].v == 0)
                    throw Run_Error { "evaluation_error:assertion_fail", n.tok };
                return Val { VOID, 0 };
            }
            return call(target, args);
        }
        throw std::logic_error("evaluate " + n.kind);
    }
};

} // namespace ref
#endif
