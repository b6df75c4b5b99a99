// C08: values and errors of constant evaluation against the reference semantics.
#include "pbt.hpp"
#include "prog.hpp"

using pbt::Ctx;
using pbt::Src;

namespace {

std::string literal(Src& s, const ref::Val& v)
{
    if (v.t.k == 'B')
        return v.v != 0 ? "true" : "false";
    if (v.v < 0) // the least Int has no literal of its own
        return v.v == -ref::pow2(127) ? "(-" + ref::Z(-(v.v + 1)).str() + " - 1)"
                                      : "-" + gen::Prog_Gen::spell_int(s, -v.v);
    if (v.v >= ref::pow2(127)) // beyond Int
        return "(~(" + ref::Z(ref::pow2(v.t.w) - 1 - v.v).str() + " as Uint(" + std::to_string(v.t.w) + ")))";
    return gen::Prog_Gen::spell_int(s, v.v);
}

void judge(Src& s, Ctx& c, const std::string& text)
{
    c.show(text);
    std::optional<prog::Meaning> m;
    try {
        m.emplace(text);
    } catch (const ref::Unspecified&) {
        c.discard();
    }
    front::Program p(text);
    const auto v = p.verdict();
    bool runtime = false;
    for (auto& e : m->sem->errors)
        runtime |= e.code.find(':') != std::string::npos || e.code == "static_assertion_failed"
            || e.code == "requires_clause_not_satisfied" || e.code == "width_invalid";
    if (!m->sem->ok()) {
        if (!runtime)
            c.discard();
        c.check(v != "ok", "a value is computed although evaluation breaks: " + m->codes());
        bool named = false;
        for (auto& e : m->sem->errors)
            named |= v == "analysis:" + e.code;
        c.check(named, "evaluation fails with " + v + ", expected: " + m->codes());
        c.label(m->sem->errors[0].code);
        c.nontrivial(prog::key(m->tree));
        return;
    }
    c.check(v == "ok", "evaluation fails with " + v + ", expected values");
    std::string names;
    for (auto& [name, val] : m->sem->constants) {
        const auto got = p.constant(name);
        c.check(got.has_value(), name + " has no value, expected " + val.str());
        const auto g = vals::ref_val(*got);
        c.check(g == val, name + " is " + g.str() + ", expected " + val.str());
    }
    if (m->sem->const_calls)
        c.label("with calls");
    c.label("values");
    if (m->sem->const_calls || m->toks.size() > 30)
        c.nontrivial(prog::key(m->tree));

    // the same values seen by the program itself
    if (!s.chance(25) || m->sem->constants.empty())
        return;
    std::string more;
    std::vector<std::string> comparable;
    for (auto& [name, val] : m->sem->constants)
        if (val.t.k != 'V') {
            more += "static_assert(" + name + " == " + literal(s, val) + ");\n";
            comparable.push_back(name);
        }
    if (comparable.empty())
        return;
    front::Program q(text + more);
    c.check(q.verdict() == "ok", "with these assertions added: " + q.verdict() + "\n" + more);
    const auto& name = s.pick(comparable);
    front::Program r(text + more + "static_assert(" + name + " != "
                     + literal(s, m->sem->constants.at(name)) + ");\n");
    c.check(r.verdict() == "analysis:static_assertion_failed",
            "false assertion about " + name + " is " + r.verdict());
    c.label("asserted");
}

// Constants whose initializers call the functions of a program at many arguments.
void with_calls(Src& s, Ctx& c, const gen::Prog_Options& o, int n)
{
    gen::Prog_Gen g(s, o);
    const auto t = g.program();
    std::string text = prog::plain(t);
    for (int i = 0; i < n; ++i) {
        const auto& f = s.pick(g.functions);
        std::map<std::string, int> widths;
        std::string call = f.name + "(";
        for (std::size_t k = 0; k < f.params.size(); ++k) {
            const auto& t2 = f.params[k].second;
            int w = t2.w.off;
            if (!t2.w.base.empty()) {
                auto [it, fresh] = widths.try_emplace(t2.w.base, 0);
                if (fresh)
                    it->second = s.flag() ? 8 : 1 + s.upto(127);
                w += it->second;
            }
            const ref::Type rt = t2.k == 'U' ? ref::UINT(std::min(w, 128)) : ref::Type { t2.k, 0 };
            const auto v = vals::gen_val(s, rt);
            std::string a = literal(s, v);
            if (rt.k == 'U' && a[0] != '(')
                a += " as Uint(" + std::to_string(rt.w) + ")";
            call += (k ? ", " : "") + a;
        }
        text += "const r" + std::to_string(i) + " = " + call + ");\n";
    }
    judge(s, c, text);
}
void calls(Src& s, Ctx& c)
{
    gen::Prog_Options o;
    o.runtime_errors = s.chance(25);
    o.size = 40 + s.upto(200);
    o.constants = s.upto(3);
    o.functions = 1 + s.upto(3);
    o.void_functions = s.chance(30);
    with_calls(s, c, o, 1 + s.upto(3));
}
// The same few functions again and again; what one evaluation leaves behind must not reach the next.
void histories(Src& s, Ctx& c)
{
    gen::Prog_Options o;
    o.runtime_errors = s.chance(10);
    o.size = 15 + s.upto(40);
    o.constants = 0;
    o.functions = 1 + s.upto(1);
    o.min_functions = 1;
    o.void_functions = false;
    o.generics = false;
    o.requires_ = false;
    o.static_asserts = false;
    o.partial_percent = 80;
    o.max_width = s.flag() ? 4 : 128;
    with_calls(s, c, o, 2 + s.upto(5));
}
void expressions(Src& s, Ctx& c)
{
    gen::Prog_Options o;
    o.runtime_errors = s.chance(40);
    o.functions = 0;
    o.constants = 8;
    o.size = 150;
    judge(s, c, prog::plain(prog::gen_tree(s, o, s.weighted({ 6, 1 }))));
}
void programs(Src& s, Ctx& c)
{
    gen::Prog_Options o;
    o.runtime_errors = s.chance(30);
    o.size = 60 + s.upto(250);
    judge(s, c, prog::plain(prog::gen_tree(s, o, s.weighted({ 6, 2 }))));
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C08";
    p.rule = "Generated programs of constants only, of constants that call functions at random "
             "arguments, and whole programs, some with one random edit. The value and type of every "
             "global constant, or the kind of evaluation error, must be what an interpreter over "
             "arbitrary-precision integers computes; the values are also asserted by static "
             "assertions added to the program, true ones and one false one. Non-trivial: an "
             "evaluation error, a constant-evaluated call, or more than 30 tokens; distinct by "
             "syntax tree.";
    p.targets = { { "calls", calls, 6000, 200000 },
                  { "histories", histories, 6000, 200000 },
                  { "expressions", expressions, 6000, 200000 },
                  { "programs", programs, 3000, 100000 } };
    p.assumptions = { "programs whose constant evaluation needs more than 20000 steps or a call depth of 60 are left out" };
    return p;
}
