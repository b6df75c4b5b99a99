// Random BMS programs, well typed by construction (mostly), and random single edits of them.
#ifndef VERIF_GEN_PROG_HPP
#define VERIF_GEN_PROG_HPP
#include <algorithm>
#include <map>
#include <set>

#include "gen_syntax.hpp"
#include "pbt.hpp"
#include "ref_parse.hpp"
#include "ref_val.hpp"
#include "unparse.hpp"

namespace gen {

using ref::Node;
using ref::Ptr;

struct Width {
    std::string base; // name of a width parameter, or "" if concrete
    int off = 0;
    bool operator==(const Width&) const = default;
};
struct GT {
    char k = 'V'; // V B I U
    Width w {};
    bool operator==(const GT&) const = default;
};

struct Prog_Options {
    int functions = 4, min_functions = 1;
    int constants = 5;
    bool generics = true;
    bool loops = true;
    bool uninitialized = true;
    bool runtime_errors = true; // division by unknown values, narrowing conversions, asserts
    bool const_calls = true;
    bool requires_ = true;
    bool recursion = true;
    bool forward = true; // functions may be declared after their uses
    bool if_expr_mixed = true;
    bool void_functions = true;
    bool static_asserts = true;
    bool local_consts = true;
    int size = 260;
    int max_width = 128;
    std::vector<int> widths;       // the only ones, if any are given
    int int_bits = 126;            // of literals of type Int
    int partial_percent = 0;       // of the variables without a value that get one on some paths
    int generic_percent = 35;      // of the functions with parameters
    int generic_call_percent = 0;  // of calls that prefer a bit-generic function
    int deep_percent = 0;          // of the programs that have a statement nested deeply
};

class Prog_Gen {
public:
    struct Fn {
        std::string name;
        std::vector<std::pair<std::string, GT>> params;
        GT ret;
        std::vector<std::string> widths;
        std::set<std::size_t> introducing;
        bool calls_ok = true;
        bool uses_runtime_error = false;
    };

    Prog_Gen(Src& src, Prog_Options opt)
        : s(src)
        , o(opt)
        , budget(opt.size)
    {
    }

    Ptr program()
    {
        std::vector<Ptr> consts, fns, late;
        const int nc = s.upto(o.constants);
        for (int i = 0; i < nc; ++i)
            consts.push_back(global_const());
        const int nf = s.range(std::min(o.min_functions, o.functions), o.functions);
        for (int i = 0; i < nf; ++i) {
            fns.push_back(s.chance(o.recursion ? 8 : 0) ? recursive_function() : function());
            if (o.const_calls && s.chance(40))
                late.push_back(s.chance(60) || !o.static_asserts ? global_const(true) : static_assertion());
        }
        if (s.chance(40) && o.static_asserts)
            late.push_back(static_assertion());
        if (fns.empty() && consts.empty())
            consts.push_back(global_const());
        // order: early constants, functions, late declarations; functions anywhere after
        std::vector<Ptr> r = consts;
        if (o.forward && s.chance(50)) {
            for (auto& f : fns)
                r.insert(r.begin() + long(consts.size() + s.draw32(std::uint32_t(r.size() - consts.size() + 1))), f);
            // late declarations keep their order relative to each other
            std::size_t at = consts.size();
            for (auto& l : late) {
                at += s.draw32(std::uint32_t(r.size() - at + 1));
                r.insert(r.begin() + long(at), l);
                ++at;
            }
        }
        else {
            r.insert(r.end(), fns.begin(), fns.end());
            r.insert(r.end(), late.begin(), late.end());
        }
        return ref::node("Program", "", std::move(r));
    }

    // ---- node helpers ----
    static Ptr lit(std::string t) { return ref::node("Literal", std::move(t)); }
    static Ptr id(std::string t) { return ref::node("Id", std::move(t)); }
    static Ptr bin(std::string op, Ptr l, Ptr r)
    {
        return ref::node("Binary", std::move(op), { std::move(l), std::move(r) });
    }
    static Ptr pre(std::string op, Ptr x) { return ref::node("Prefix", std::move(op), { std::move(x) }); }
    static Ptr ifx(Ptr l, Ptr c, Ptr r)
    {
        return ref::node("If_Expr", "", { std::move(l), std::move(c), std::move(r) });
    }
    static Ptr block(std::vector<Ptr> k) { return ref::node("Block", "", std::move(k)); }
    static std::string spell_int(Src& s, const ref::Z& v)
    {
        switch (s.weighted({ 8, 2, 1, 1 })) {
        case 0: return v.str();
        case 1: {
            std::ostringstream os;
            os << "0x" << std::hex << v;
            return os.str();
        }
        case 2: {
            std::string b;
            ref::Z x = v;
            do
                b.insert(b.begin(), bit_test(x, 0) ? '1' : '0');
            while ((x >>= 1) != 0);
            return "0b" + b;
        }
        default: {
            std::ostringstream os;
            os << "0" << std::oct << v;
            return os.str();
        }
        }
    }

    std::vector<Fn> functions;

private:
    struct Var {
        std::string name;
        GT t;
        char k; // l let, p parameter, c constant, w width
        std::optional<ref::Z> value {};
    };
    Src& s;
    Prog_Options o;
    int budget;
    std::vector<Var> globals;
    std::vector<Var> locals;
    std::vector<std::string> width_names; // of the current function
    std::set<std::string> protected_;     // loop counters
    GT ret {};
    int loops = 0;
    int next_const = 0, next_fn = 0;

    // ---- types ----
    int width_value()
    {
        static const std::vector<int> ws { 8, 4, 1, 2, 3, 7, 16, 31, 32, 33, 63, 64, 65, 127, 128 };
        if (!o.widths.empty())
            return s.pick(o.widths);
        for (int i = 0; i < 5; ++i) {
            const int w = s.chance(75) ? s.pick(ws) : 1 + s.upto(127);
            if (w <= o.max_width)
                return w;
        }
        return 8;
    }
    GT uint() { return { 'U', { "", width_value() } }; }
    GT any_type(bool with_void = false)
    {
        // prefer types that exist already
        if (s.chance(45)) {
            std::vector<GT> ts;
            for (auto* v : { &locals, &globals })
                for (auto& x : *v)
                    ts.push_back(x.t);
            if (!ts.empty())
                return s.pick(ts);
        }
        if (!width_names.empty() && s.chance(50))
            return { 'U', { s.pick(width_names), 0 } };
        switch (s.weighted({ 5, 3, 3, with_void ? 2 : 0 })) {
        case 0: return uint();
        case 1: return { 'I' };
        case 2: return { 'B' };
        default: return { 'V' };
        }
    }
    Ptr type_node(const GT& t)
    {
        if (t.k == 'V')
            return ref::node("Type", "Void", { nullptr });
        if (t.k == 'B')
            return ref::node("Type", "Bool", { nullptr });
        if (t.k == 'I')
            return ref::node("Type", "Int", { nullptr });
        return ref::node("Type", "Uint", { width_node(t.w) });
    }
    Ptr width_node(const Width& w)
    {
        if (!w.base.empty()) {
            if (w.off == 0)
                return id(w.base);
            return bin(w.off > 0 ? "+" : "-", id(w.base), lit(std::to_string(std::abs(w.off))));
        }
        if (s.chance(15))
            for (auto& g : globals)
                if (g.k == 'c' && (g.t.k == 'I' || g.t.k == 'U') && g.value && *g.value == w.off)
                    return id(g.name);
        if (s.chance(6))
            return bin("-", lit(std::to_string(w.off + 3)), lit("3"));
        return lit(spell_int(s, w.off));
    }

    // ---- expressions ----
    std::vector<const Var*> vars_of(const GT& t, bool constant) const
    {
        std::vector<const Var*> r;
        for (auto* v : { &locals, &globals })
            for (auto& x : *v)
                if (x.t == t && (!constant || x.k == 'c' || x.k == 'w'))
                    r.push_back(&x);
        return r;
    }
    ref::Z small_value(int w)
    {
        ref::Z v;
        switch (s.weighted({ 6, 2, 1, 1 })) {
        case 0: v = s.upto(9); break;
        case 1: v = s.upto(255); break;
        case 2: v = ref::pow2(w) - 1 - s.upto(2); break;
        default: v = ref::pow2(s.upto(w - 1)); break;
        }
        return v < 0 ? ref::Z(0) : ref::mod(v, std::min(w, 126));
    }
    int known_width(const GT& t) const { return t.w.base.empty() ? t.w.off : 1; }

    Ptr leaf(const GT& t, bool constant, bool strict)
    {
        --budget;
        const auto vs = vars_of(t, constant);
        if (!vs.empty() && s.chance(75))
            return id(s.pick(vs)->name);
        switch (t.k) {
        case 'B': return lit(s.flag() ? "true" : "false");
        case 'I': {
            ref::Z v;
            switch (s.weighted({ 8, 2, 1 })) {
            case 0: v = s.upto(9); break;
            case 1: v = s.upto(1000); break;
            default: v = ref::pow2(s.upto(o.int_bits)) - s.upto(1); break;
            }
            auto l = lit(spell_int(s, v));
            return s.chance(15) ? pre("-", l) : l;
        }
        case 'U': {
            auto l = lit(spell_int(s, small_value(known_width(t))));
            if (!strict && s.chance(70))
                return l;
            return ref::node("Conv", "", { l, type_node(t) });
        }
        default: {
            // a call of assert is the simplest Void expression
            auto c = ref::node("Call", "assert", { lit("true"), nullptr });
            return c;
        }
        }
    }

    Ptr expr(const GT& t, int depth, bool constant, bool strict = false)
    {
        if (depth <= 0 || budget <= 0)
            return leaf(t, constant, strict);
        --budget;
        switch (s.weighted({ 4, 6, 2, 2, 3, 1 })) {
        case 0: return leaf(t, constant, strict);
        case 1: return operation(t, depth, constant, strict);
        case 2: { // prefix
            if (t.k == 'V')
                return leaf(t, constant, strict);
            const std::string op = t.k == 'B' ? "!" : t.k == 'I' ? (s.flag() ? "-" : "+")
                                                                : std::string(s.pick({ "~", "-", "+" }));
            return pre(op, expr(t, depth - 1, constant, true));
        }
        case 3: { // if
            auto c = expr({ 'B' }, depth - 1, constant);
            GT a = t, b = t;
            if (t.k == 'U' && o.if_expr_mixed && s.chance(25))
                (s.flag() ? a : b) = { 'I' };
            Ptr l = a.k == 'I' && t.k == 'U' ? lit(std::to_string(s.upto(1)))
                                              : expr(a, depth - 1, constant, true);
            Ptr r = b.k == 'I' && t.k == 'U' ? lit(std::to_string(s.upto(1)))
                                              : expr(b, depth - 1, constant, true);
            return ifx(l, c, r);
        }
        case 4: {
            if (auto c = call_to(t, depth, constant))
                return c;
            return leaf(t, constant, strict);
        }
        default: { // conversion
            if (t.k == 'V')
                return leaf(t, constant, strict);
            if (t.k == 'U' && s.chance(70)) {
                if (o.runtime_errors && s.chance(30))
                    return ref::node("Conv", "", { expr({ 'I' }, depth - 1, constant, true), type_node(t) });
                return ref::node("Conv", "", { lit(spell_int(s, small_value(known_width(t)))), type_node(t) });
            }
            return ref::node("Conv", "", { expr(t, depth - 1, constant, true), type_node(t) });
        }
        }
    }
    Ptr divisor(const GT& t, int depth, bool constant)
    {
        if (o.runtime_errors && s.chance(25))
            return expr(t, depth - 1, constant);
        if (t.k == 'U' && known_width(t) < 3)
            return lit("1");
        return lit(std::to_string(1 + s.upto(6)));
    }
    Ptr operation(const GT& t, int depth, bool constant, bool strict)
    {
        // one operand of Uint operations may be an Int
        auto operands = [&](const GT& ty, Ptr& l, Ptr& r) {
            l = expr(ty, depth - 1, constant, true);
            r = expr(ty, depth - 1, constant, ty.k != 'U');
            if (s.chance(30))
                std::swap(l, r);
        };
        Ptr l, r;
        switch (t.k) {
        case 'B': {
            switch (s.weighted({ 5, 4, 2, 1 })) {
            case 0: { // comparison of numbers
                GT ty = any_type();
                if (ty.k == 'B')
                    ty = { 'I' };
                if (ty.k == 'V')
                    ty = { 'I' };
                operands(ty, l, r);
                return bin(std::string(s.pick({ "<", ">", "<=", ">=", "==", "!=" })), l, r);
            }
            case 1: {
                l = expr({ 'B' }, depth - 1, constant);
                r = expr({ 'B' }, depth - 1, constant);
                return bin(s.flag() ? "&&" : "||", l, r);
            }
            case 2:
                l = expr({ 'B' }, depth - 1, constant);
                r = expr({ 'B' }, depth - 1, constant);
                return bin(s.flag() ? "==" : "!=", l, r);
            default: // short circuit that guards something
                l = lit(s.flag() ? "true" : "false");
                return bin(l->text == "true" ? "||" : "&&", l, expr({ 'B' }, depth - 1, constant));
            }
        }
        case 'I':
            switch (s.weighted({ 5, 2 })) {
            case 0:
                operands(t, l, r);
                return bin(std::string(s.pick({ "+", "-", "*" })), l, r);
            default:
                l = expr(t, depth - 1, constant, true);
                return bin(s.flag() ? "/" : "%", l, divisor(t, depth, constant));
            }
        case 'U':
            switch (s.weighted({ 4, 4, 3, 2 })) {
            case 0:
                operands(t, l, r);
                return bin(std::string(s.pick({ "+", "-", "*" })), l, r);
            case 1:
                operands(t, l, r);
                return bin(std::string(s.pick({ "&", "|", "^" })), l, r);
            case 2: {
                l = expr(t, depth - 1, constant, true);
                if (o.runtime_errors && s.chance(15))
                    r = expr(t, depth - 1, constant);
                else
                    r = lit(std::to_string(s.upto(std::max(0, std::min(known_width(t), 8) - 1))));
                return bin(s.flag() ? "<<" : ">>", l, r);
            }
            default:
                l = expr(t, depth - 1, constant, true);
                return bin(s.flag() ? "/" : "%", l, divisor(t, depth, constant));
            }
        default: return leaf(t, constant, strict);
        }
    }

    // A call whose result has type t.
    Ptr call_to(const GT& t, int depth, bool constant)
    {
        if (constant && !o.const_calls)
            return nullptr;
        std::vector<std::pair<const Fn*, std::map<std::string, Width>>> cands;
        for (auto& f : functions) {
            if (!f.calls_ok)
                continue;
            std::map<std::string, Width> m;
            if (f.ret.k != t.k)
                continue;
            if (t.k == 'U') {
                if (f.ret.w.base.empty()) {
                    if (!(f.ret.w == t.w))
                        continue;
                }
                else {
                    const Width w { t.w.base, t.w.off - f.ret.w.off };
                    if (w.base.empty() ? w.off < 1 || w.off > 128 : w.off != 0)
                        continue;
                    m[f.ret.w.base] = w;
                }
            }
            cands.push_back({ &f, m });
        }
        if (cands.empty())
            return nullptr;
        if (s.chance(o.generic_call_percent)) {
            auto only = cands;
            std::erase_if(only, [](auto& x) { return x.first->widths.empty(); });
            if (!only.empty())
                cands = only;
        }
        auto [f, m] = s.pick(cands);
        return make_call(*f, m, depth, constant);
    }
    GT subst(const GT& t, const std::map<std::string, Width>& m)
    {
        if (t.k != 'U' || t.w.base.empty())
            return t;
        const auto& w = m.at(t.w.base);
        return { 'U', { w.base, w.off + t.w.off } };
    }
    Ptr make_call(const Fn& f, std::map<std::string, Width> m, int depth, bool constant)
    {
        for (auto& n : f.widths)
            if (!m.count(n)) {
                // of an existing variable, or a fresh one
                std::vector<Width> ws;
                for (auto* v : { &locals, &globals })
                    for (auto& x : *v)
                        if (x.t.k == 'U')
                            ws.push_back(x.t.w);
                m[n] = !ws.empty() && s.chance(60) ? s.pick(ws) : Width { "", width_value() };
            }
        std::vector<Ptr> args;
        for (std::size_t i = 0; i < f.params.size(); ++i) {
            const GT t = subst(f.params[i].second, m);
            args.push_back(expr(t, std::min(depth - 1, 2), constant, f.introducing.count(i) != 0));
        }
        args.push_back(nullptr);
        return ref::node("Call", f.name, std::move(args));
    }

    // A constant Bool expression that is true.
    Ptr truth(bool constant, int depth)
    {
        switch (s.weighted({ 3, 2, 2, 2 })) {
        case 0: {
            GT t = any_type();
            if (t.k == 'V')
                t = { 'I' };
            auto e = expr(t, depth, constant, true);
            return bin(std::string(t.k == 'B' ? "==" : s.pick({ "==", "<=", ">=" })), e, ref::clone(e));
        }
        case 1: return bin("||", expr({ 'B' }, depth, constant), lit("true"));
        case 2: return bin("||", lit("true"), expr({ 'B' }, depth, constant));
        default: {
            auto e = expr({ 'B' }, depth, constant);
            return bin("||", e, pre("!", ref::clone(e)));
        }
        }
    }

    // ---- declarations ----
    Ptr constant_node(const std::string& name, const GT& t, Ptr e, int typed_percent)
    {
        return ref::node("Const", name, { nullptr, s.chance(typed_percent) ? type_node(t) : nullptr, e });
    }
    Ptr global_const(bool calls = false)
    {
        const std::string name = "c" + std::to_string(next_const++);
        Var v { name, {}, 'c' };
        Ptr r;
        if (!calls && s.chance(40)) { // usable as a width
            const int w = width_value();
            v.t = s.chance(70) ? GT { 'I' } : GT { 'U', { "", 8 } };
            v.value = w;
            r = constant_node(name, v.t, lit(spell_int(s, w)), v.t.k == 'U' ? 100 : 30);
        }
        else {
            v.t = any_type();
            Ptr e = calls ? call_to(v.t, 3, true) : nullptr;
            if (!e && calls && !functions.empty() && s.chance(80)) {
                // any function with a value
                std::vector<const Fn*> fs;
                for (auto& f : functions)
                    if (f.ret.k != 'V' && f.calls_ok)
                        fs.push_back(&f);
                if (!fs.empty()) {
                    const Fn& f = *s.pick(fs);
                    std::map<std::string, Width> m;
                    for (auto& n : f.widths)
                        m[n] = { "", width_value() };
                    v.t = subst(f.ret, m);
                    e = make_call(f, m, 3, true);
                }
            }
            const bool typed = s.chance(50);
            if (!e)
                e = expr(v.t, 3, true, !typed);
            r = constant_node(name, v.t, e, typed ? 100 : 0);
        }
        globals.push_back(v);
        return r;
    }
    Ptr static_assertion() { return ref::node("Static_Assert", "", { truth(true, 3) }); }

    std::string fresh_local() { return "v" + std::to_string(locals.size()); }

    Ptr function()
    {
        Fn f;
        f.name = "f" + std::to_string(next_fn++);
        locals.clear();
        width_names.clear();
        std::vector<Ptr> ps;
        int np = s.weighted({ 3, 9, 9, 6, 2, 1 });
        if (s.draw32(60) == 59) // rarely, many
            np = 6 + s.upto(12);
        const bool generic = o.generics && np > 0 && s.chance(o.generic_percent);
        for (int i = 0; i < np; ++i) {
            const std::string n = "p" + std::to_string(i);
            GT t;
            Ptr tn;
            if (generic && (i == 0 || s.chance(40))) {
                if (width_names.size() < 4 && (width_names.empty() || s.chance(width_names.size() > 1 ? 75 : 40))) {
                    const std::string w(1, "NMKL"[width_names.size()]);
                    t = { 'U', { w, 0 } };
                    f.introducing.insert(std::size_t(i));
                    f.widths.push_back(w);
                    width_names.push_back(w);
                    locals.push_back({ w, { 'I' }, 'w' });
                }
                else
                    t = { 'U', { s.pick(width_names), s.chance(25) ? 1 : 0 } };
            }
            else {
                t = any_type();
                if (t.k == 'V')
                    t = { 'I' };
            }
            f.params.push_back({ n, t });
            ps.push_back(ref::node("Param", n, { type_node(t) }));
            locals.push_back({ n, t, 'p' });
        }
        ret = f.ret = any_type(o.void_functions);
        Ptr req;
        if (o.requires_ && s.chance(12))
            req = truth(true, 2);
        else if (o.requires_ && generic && s.chance(20))
            req = bin(std::string(s.pick({ ">=", "<=", "!=" })), id(s.pick(width_names)),
                      lit(std::to_string(s.pick(std::vector<int> { 1, 128, 7, 64 }))));
        protected_.clear();
        loops = 0;
        std::vector<Ptr> body;
        const std::size_t mark = locals.size();
        statements(body, 3);
        if (ret.k != 'V') {
            if (!(o.runtime_errors && s.chance(3)))
                body.push_back(ref::node("Return", "", { expr(ret, 3, false) }));
        }
        locals.resize(mark);
        auto r = ref::node("Function", f.name,
                           { nullptr, ps.empty() ? nullptr : ref::node("Params", "", ps), type_node(ret),
                             req, block(body) });
        functions.push_back(f);
        locals.clear();
        width_names.clear();
        return r;
    }
    // function f(n: T, ...) { if n <= K { return base; } ... f(n - 1) ... }
    Ptr recursive_function()
    {
        Fn f;
        f.name = "f" + std::to_string(next_fn++);
        locals.clear();
        width_names.clear();
        const GT nt = s.flag() ? GT { 'I' } : GT { 'U', { "", o.widths.empty() ? 4 + s.upto(4) : 8 } };
        ret = f.ret = any_type();
        if (ret.k == 'V')
            ret = f.ret = { 'I' };
        f.params.push_back({ "n", nt });
        locals.push_back({ "n", nt, 'p' });
        f.calls_ok = false; // in its own base case
        auto base = ref::node("If", "",
                              { nullptr, bin("<=", id("n"), lit(std::to_string(s.upto(2)))),
                                block({ ref::node("Return", "", { expr(ret, 2, false) }) }), nullptr });
        Ptr arg = s.flag() ? bin("-", id("n"), lit("1")) : bin("/", id("n"), lit("2"));
        auto rec = ref::node("Call", f.name, { arg, nullptr });
        Ptr e = rec;
        if (ret.k == 'I')
            e = bin("+", rec, expr(ret, 1, false, true));
        else if (ret.k == 'U')
            e = bin(std::string(s.pick({ "^", "+", "*" })), rec, expr(ret, 1, false));
        else if (ret.k == 'B')
            e = s.flag() ? pre("!", rec) : bin("&&", expr(ret, 1, false), rec);
        auto body = block({ base, ref::node("Return", "", { e }) });
        auto r = ref::node("Function", f.name,
                           { nullptr, ref::node("Params", "", { ref::node("Param", "n", { type_node(nt) }) }),
                             type_node(ret), nullptr, body });
        f.calls_ok = true;
        functions.push_back(f);
        locals.clear();
        return r;
    }

    void statements(std::vector<Ptr>& out, int depth)
    {
        const int n = s.weighted({ 1, 3, 3, 2, 2 });
        for (int i = 0; i < n && budget > 0; ++i)
            statement(out, depth);
    }
    Ptr inner_block(int depth)
    {
        const auto mark = locals.size();
        std::vector<Ptr> b;
        statements(b, depth);
        locals.resize(mark);
        return block(b);
    }
    void statement(std::vector<Ptr>& out, int depth)
    {
        --budget;
        switch (s.weighted({ 6, 5, depth > 0 ? 4 : 0, depth > 0 && o.loops ? 3 : 0, 2, 2, depth > 0 ? 1 : 0,
                             o.local_consts ? 2 : 0, o.static_asserts ? 1 : 0, loops > 0 ? 2 : 0 })) {
        case 0: { // let
            GT t = any_type();
            if (t.k == 'V')
                t = { 'B' };
            const std::string n = fresh_local();
            const int form = s.weighted({ 4, 4, o.uninitialized ? 2 : 0 });
            Ptr e = form < 2 ? expr(t, 3, false, form == 1) : nullptr;
            out.push_back(ref::node("Let", n, { nullptr, form == 1 ? nullptr : type_node(t), e }));
            locals.push_back({ n, t, 'l' });
            if (form == 2 && s.chance(o.partial_percent)) {
                std::vector<std::string> flags;
                for (auto& v : locals)
                    if (v.k == 'p' && v.t.k == 'B')
                        flags.push_back(v.name);
                Ptr c = !flags.empty() && s.chance(70) ? id(s.pick(flags)) : expr({ 'B' }, 1, false);
                auto a = block({ ref::node("Assign", n, { nullptr, expr(t, 2, false) }) });
                out.push_back(ref::node(s.chance(80) ? "If" : "While", "", { nullptr, c, a }));
                if (out.back()->kind == "If")
                    out.back()->kids.push_back(nullptr);
                else
                    a->kids.push_back(ref::node("Break", ""));
            }
            break;
        }
        case 1: { // assignment
            std::vector<const Var*> vs;
            for (auto& v : locals)
                if (v.k == 'l' && !protected_.count(v.name))
                    vs.push_back(&v);
            if (vs.empty())
                return;
            const Var v = *s.pick(vs);
            out.push_back(ref::node("Assign", v.name, { nullptr, expr(v.t, 3, false) }));
            break;
        }
        case 2: out.push_back(if_statement(depth)); break;
        case 3: {
            const std::string n = fresh_local();
            const GT t = s.chance(70) ? GT { 'U', { "", 8 } } : GT { 'I' };
            out.push_back(ref::node("Let", n, { nullptr, type_node(t), lit("0") }));
            locals.push_back({ n, t, 'l' });
            protected_.insert(n);
            const auto mark = locals.size();
            ++loops;
            std::vector<Ptr> b;
            b.push_back(ref::node("Assign", n, { nullptr, bin("+", id(n), lit("1")) }));
            statements(b, depth - 1);
            --loops;
            locals.resize(mark);
            Ptr c = bin("<", id(n), lit(std::to_string(s.upto(5))));
            if (s.chance(20))
                c = bin("&&", c, expr({ 'B' }, 2, false));
            out.push_back(ref::node("While", "", { nullptr, c, block(b) }));
            break;
        }
        case 4: { // return
            if (!s.chance(35))
                return;
            if (ret.k == 'V')
                out.push_back(ref::node("Return", "", { s.chance(80) ? nullptr : expr(ret, 1, false) }));
            else
                out.push_back(ref::node("Return", "", { expr(ret, 3, false) }));
            break;
        }
        case 5: { // call
            if (s.chance(40) || functions.empty()) {
                Ptr c = o.runtime_errors && s.chance(30) ? expr({ 'B' }, 2, false) : truth(false, 2);
                out.push_back(ref::node("Call", "assert", { c, nullptr }));
            }
            else {
                const Fn f = s.pick(functions);
                out.push_back(make_call(f, {}, 3, false));
            }
            out.back()->extra = "statement";
            break;
        }
        case 6: out.push_back(inner_block(depth - 1)); break;
        case 7: {
            GT t = any_type();
            if (t.k == 'V')
                t = { 'B' };
            const std::string n = fresh_local();
            const bool typed = s.chance(50);
            out.push_back(constant_node(n, t, expr(t, 2, true, !typed), typed ? 100 : 0));
            locals.push_back({ n, t, 'c' });
            break;
        }
        case 8: out.push_back(ref::node("Static_Assert", "", { truth(true, 2) })); break;
        default: {
            auto b = ref::node(s.flag() ? "Break" : "Continue", "");
            if (s.chance(70))
                b = ref::node("If", "", { nullptr, expr({ 'B' }, 2, false), block({ b }), nullptr });
            out.push_back(b);
        }
        }
    }
    Ptr if_statement(int depth)
    {
        auto c = expr({ 'B' }, 2, false);
        auto b = inner_block(depth - 1);
        Ptr e;
        switch (s.weighted({ 4, 4, 2 })) {
        case 0: break;
        case 1: e = inner_block(depth - 1); break;
        default: e = if_statement(depth - 1 > 0 ? depth - 1 : 0); break;
        }
        return ref::node("If", "", { nullptr, c, b, e });
    }
};

/// Nests some statement deeply into blocks and branches that are always taken.
inline void deepen(pbt::Src& s, const Ptr& tree)
{
    std::vector<std::pair<ref::Node*, std::size_t>> places;
    std::function<void(ref::Node&)> all = [&](ref::Node& n) {
        for (std::size_t i = 0; i < n.kids.size(); ++i)
            if (n.kids[i]) {
                if (n.kind == "Block" && n.kids[i]->kind != "Let" && n.kids[i]->kind != "Const")
                    places.push_back({ &n, i });
                all(*n.kids[i]);
            }
    };
    all(*tree);
    if (places.empty())
        return;
    const auto [block, at] = s.pick(places);
    Ptr& p = block->kids[at];
    for (int depth = 2 + s.upto(14); depth-- > 0;) {
        const auto lit = [](const char* t) { return ref::node("Literal", t); };
        const auto in = ref::node("Block", "", { p });
        switch (s.weighted({ 3, 3, 2 })) {
        case 0: p = in; break;
        case 1: p = ref::node("If", "", { nullptr, lit("true"), in, nullptr }); break;
        case 2:
            p = ref::node("If", "", { nullptr, lit("false"), ref::node("Block", ""), p->kind == "If" && s.flag() ? p : in });
            break;
        }
    }
}

// ---- edits ----
inline bool is_expr(const Ptr& p)
{
    static const std::set<std::string> k { "Literal", "Id", "Prefix", "Binary", "If_Expr", "Conv", "Call" };
    return p && k.count(p->kind) && p->extra.empty();
}
inline bool is_statement(const Ptr& p)
{
    static const std::set<std::string> k { "Const", "Let",    "Static_Assert", "If",    "While", "Break",
                                           "Continue", "Return", "Assign",      "Block" };
    return p && (k.count(p->kind) || (p->kind == "Call" && !p->extra.empty()));
}
struct Slot {
    Node* parent;
    std::size_t index;
    Ptr& get() const { return parent->kids[index]; }
};
inline void slots(const Ptr& p, std::vector<Slot>& out, const std::function<bool(const Ptr&)>& want)
{
    for (std::size_t i = 0; i < p->kids.size(); ++i) {
        if (!p->kids[i])
            continue;
        if (want(p->kids[i]))
            out.push_back({ p.get(), i });
        slots(p->kids[i], out, want);
    }
}

/// One random edit that keeps the program syntactically valid.
inline void edit_program(Src& s, const Ptr& prog)
{
    auto all = [&](const std::function<bool(const Ptr&)>& f) {
        std::vector<Slot> r;
        slots(prog, r, f);
        return r;
    };
    auto names = [&] {
        std::set<std::string> n;
        for (auto& x : all([](const Ptr& p) {
                 return p->kind == "Id" || p->kind == "Let" || p->kind == "Const" || p->kind == "Function"
                     || p->kind == "Param";
             }))
            n.insert(x.get()->text);
        std::vector<std::string> v(n.begin(), n.end());
        v.push_back("undefined_name");
        v.push_back("assert");
        return v;
    };
    auto one = [&](const std::function<bool(const Ptr&)>& f) -> std::optional<Slot> {
        const auto v = all(f);
        if (v.empty())
            return {};
        return v[s.draw32(std::uint32_t(v.size()))];
    };
    for (int attempt = 0; attempt < 8; ++attempt) {
        switch (s.upto(19)) {
        case 0: // replace a name
            if (auto x = one([](const Ptr& p) {
                    return p->kind == "Id" || p->kind == "Assign" || p->kind == "Call";
                })) {
                x->get()->text = s.pick(names());
                return;
            }
            break;
        case 1: // rename a declaration only
            if (auto x = one([](const Ptr& p) {
                    return p->kind == "Let" || p->kind == "Const" || p->kind == "Function" || p->kind == "Param";
                })) {
                x->get()->text = s.pick(names());
                return;
            }
            break;
        case 2: // operator
            if (auto x = one([](const Ptr& p) { return p->kind == "Binary"; })) {
                x->get()->text = s.pick(ref::op_texts());
                return;
            }
            break;
        case 3:
            if (auto x = one([](const Ptr& p) { return p->kind == "Prefix"; })) {
                x->get()->text = s.pick({ "+", "-", "~", "!" });
                return;
            }
            break;
        case 4: // literal
            if (auto x = one([](const Ptr& p) { return p->kind == "Literal"; })) {
                x->get()->text = s.pick({ "0", "1", "true", "false", "128", "129", "255", "256",
                                          "170141183460469231731687303715884105727",
                                          "170141183460469231731687303715884105728", "2", "0x10" });
                return;
            }
            break;
        case 5: // type
            if (auto x = one([](const Ptr& p) { return p->kind == "Type"; })) {
                const auto t = s.pick({ "Bool", "Int", "Void", "Uint" });
                x->get() = ref::node("Type", std::string(t),
                                     { t == "Uint" ? Prog_Gen::lit(std::string(s.pick(
                                           { "8", "1", "128", "129", "0", "true", "64" })))
                                                   : nullptr });
                return;
            }
            break;
        case 6: // drop a statement
            if (auto x = one(is_statement)) {
                auto& k = x->parent->kids;
                if (x->parent->kind != "Block" && x->parent->kind != "Program")
                    break;
                if (x->parent->kind == "Program" && k.size() < 2)
                    break;
                k.erase(k.begin() + long(x->index));
                return;
            }
            break;
        case 7: // copy a statement
            if (auto x = one(is_statement))
                if (auto y = one([](const Ptr& p) { return p->kind == "Block"; })) {
                    auto c = ref::clone(x->get());
                    if (c->kind == "Block" && s.chance(50))
                        break;
                    auto& k = y->get()->kids;
                    k.insert(k.begin() + long(s.draw32(std::uint32_t(k.size() + 1))), c);
                    return;
                }
            break;
        case 8: // swap statements or declarations
            if (auto x = one([](const Ptr& p) { return p->kind == "Block" && p->kids.size() > 1; });
                x || prog->kids.size() > 1) {
                auto& k = x && s.flag() ? x->get()->kids : prog->kids;
                if (k.size() < 2)
                    break;
                std::swap(k[s.draw32(std::uint32_t(k.size()))], k[s.draw32(std::uint32_t(k.size()))]);
                return;
            }
            break;
        case 9: // copy an expression over another one
            if (auto x = one(is_expr))
                if (auto y = one(is_expr)) {
                    x->get() = ref::clone(y->get());
                    return;
                }
            break;
        case 10: // argument count
            if (auto x = one([](const Ptr& p) { return p->kind == "Call"; })) {
                auto& k = x->get()->kids;
                if (s.flag() && k.size() > 1)
                    k.erase(k.begin());
                else
                    k.insert(k.begin(), Prog_Gen::lit("1"));
                return;
            }
            break;
        case 11: // let <-> const
            if (auto x = one([](const Ptr& p) { return p->kind == "Let" && p->kids[2]; })) {
                x->get()->kind = "Const";
                return;
            }
            break;
        case 12:
            if (auto x = one([](const Ptr& p) { return p->kind == "Return"; })) {
                auto& r = x->get()->kids[0];
                r = r ? nullptr : Prog_Gen::lit("1");
                return;
            }
            break;
        case 13: // add a break
            if (auto y = one([](const Ptr& p) { return p->kind == "Block"; })) {
                auto& k = y->get()->kids;
                k.insert(k.begin() + long(s.draw32(std::uint32_t(k.size() + 1))),
                         ref::node(s.flag() ? "Break" : "Continue", ""));
                return;
            }
            break;
        case 14: // drop the type of a declaration, or a let's initializer
            if (auto x = one([](const Ptr& p) { return p->kind == "Let" || p->kind == "Const"; })) {
                auto& k = x->get()->kids;
                if (k[1] && k[2]) {
                    if (x->get()->kind == "Let" && s.flag())
                        k[2] = nullptr;
                    else
                        k[1] = nullptr;
                    return;
                }
            }
            break;
        case 15: // unwrap
            if (auto x = one([](const Ptr& p) {
                    return p->kind == "Prefix" || p->kind == "Conv" || p->kind == "Binary" || p->kind == "If_Expr";
                })) {
                auto& p = x->get();
                p = p->kids[p->kind == "Binary" && s.flag() ? 1 : 0];
                return;
            }
            break;
        case 16: // wrap
            if (auto x = one(is_expr)) {
                auto& p = x->get();
                switch (s.upto(3)) {
                case 0: p = Prog_Gen::pre(std::string(s.pick({ "-", "~", "!" })), p); break;
                case 1:
                    p = ref::node("Conv", "",
                                  { p, ref::node("Type", "Uint", { Prog_Gen::lit(std::string(s.pick({ "8", "1", "64" }))) }) });
                    break;
                case 2: p = Prog_Gen::bin(s.pick(ref::op_texts()), p, Prog_Gen::lit(std::string(s.pick({ "0", "true", "1" })))); break;
                default: p = Prog_Gen::ifx(p, Prog_Gen::lit("true"), Prog_Gen::lit(std::string(s.pick({ "0", "false" })))); break;
                }
                return;
            }
            break;
        case 17: // requires
            if (auto x = one([](const Ptr& p) { return p->kind == "Function"; })) {
                auto& r = x->get()->kids[3];
                if (auto y = one(is_expr); y && s.flag())
                    r = ref::clone(y->get());
                else
                    r = Prog_Gen::lit(std::string(s.pick({ "true", "false", "1" })));
                return;
            }
            break;
        case 18: // static_assert of something
            if (auto y = one([](const Ptr& p) { return p->kind == "Block"; }))
                if (auto x = one(is_expr)) {
                    auto& k = y->get()->kids;
                    k.insert(k.begin() + long(s.draw32(std::uint32_t(k.size() + 1))),
                             ref::node("Static_Assert", "", { ref::clone(x->get()) }));
                    return;
                }
            break;
        default: // parameters
            if (auto x = one([](const Ptr& p) { return p->kind == "Params"; })) {
                auto& k = x->get()->kids;
                if (k.size() > 1 && s.flag())
                    std::swap(k[0], k[1]);
                else if (s.flag())
                    k.push_back(ref::node("Param", s.pick(names()), { ref::node("Type", "Int", { nullptr }) }));
                else if (k.size() > 1)
                    k.pop_back();
                else
                    break;
                return;
            }
        }
    }
}

} // namespace gen
#endif
