// C07: acceptance and rejection by static analysis against the reference semantics.
#include "pbt.hpp"
#include "prog.hpp"

using pbt::Ctx;
using pbt::Src;

namespace {

void judge(Ctx& c, const std::string& text)
{
    c.show(text);
    std::optional<prog::Meaning> m;
    try {
        m.emplace(text);
    } catch (const ref::Unspecified&) {
        c.discard();
    }
    front::Program p(text);
    const auto v = p.verdict();
    if (m->sem->ok()) {
        c.label("well-formed");
        c.check(v == "ok", "well-formed program rejected: " + v + " at offset "
                    + (p.analysis_error ? std::to_string(p.analysis_error->fail_pos()->begin) : ""));
        if (m->toks.size() >= 20)
            c.nontrivial(prog::key(m->tree));
        return;
    }
    c.check(v != "ok", "program accepted although it breaks: " + m->codes());
    bool named = false;
    for (auto& e : m->sem->errors)
        named |= v == "analysis:" + e.code;
    c.check(named, "rejected with " + v + " at offset "
                + (p.analysis_error ? std::to_string(p.analysis_error->fail_pos()->begin) : "")
                + ", but the rules broken are: " + m->codes());
    c.label(m->sem->errors[0].code);
    if (m->toks.size() >= 20)
        c.nontrivial(prog::key(m->tree));
}

void well_formed(Src& s, Ctx& c)
{
    gen::Prog_Options o;
    o.runtime_errors = s.chance(30);
    o.size = 40 + s.upto(220);
    judge(c, prog::plain(prog::gen_tree(s, o, 0)));
}
void edited(Src& s, Ctx& c)
{
    gen::Prog_Options o;
    o.runtime_errors = s.chance(20);
    o.size = 20 + s.upto(100);
    o.functions = 1 + s.upto(2);
    o.constants = s.upto(3);
    judge(c, prog::plain(prog::gen_tree(s, o, 1 + s.weighted({ 5, 2, 1 }))));
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C07";
    p.rule = "Programs generated well typed by construction (global and local constants, static "
             "assertions, functions with loops, branches, recursion, bit-generic parameters, "
             "requires-clauses, in any declaration order), and the same after one to three random "
             "edits of the syntax tree (names, operators, literals, types, widths, arguments, "
             "statements, declarations, returns). The verdict of analysis must be acceptance exactly "
             "if an independent semantics of the language finds no broken rule, and otherwise name a "
             "rule it finds broken. Non-trivial: at least 20 tokens; distinct by syntax tree.";
    p.targets = { { "well_formed", well_formed, 6000, 200000 }, { "edited", edited, 14000, 400000 } };
    p.assumptions = { "programs whose constant evaluation needs more than 20000 steps or a call depth of 60 are left out" };
    return p;
}
