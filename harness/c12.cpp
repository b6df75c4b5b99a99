// C12: annotation analysis against a table of the annotations and their parameters.
#include "annot.hpp"

using pbt::Ctx;
using pbt::Src;
using annot::Broken;
using annot::judge_tree;

namespace {

void judge(Ctx& c, const std::string& text)
{
    c.show(text);
    std::optional<prog::Meaning> m;
    try {
        m.emplace(text);
    } catch (const ref::Unspecified&) {
        c.discard();
    }
    std::vector<Broken> broken;
    judge_tree(m->tree, broken, c);

    front::Program p(text);
    const auto v = p.verdict();
    std::string rules;
    for (auto& b : broken)
        rules += b.code + " at " + std::to_string(m->toks.at(b.tok).line + 1) + ":"
            + std::to_string(m->toks.at(b.tok).column + 1) + "; ";
    const std::string where
        = p.analysis_error && p.analysis_error->fail_pos() ? " at line " + std::to_string(p.analysis_error->fail_pos()->line + 1) : "";
    if (broken.empty() && m->sem->ok()) {
        c.check(v == "ok", "the annotations obey the rules, but the program is rejected: " + v + where);
        for (auto& [name, value] : m->sem->constants) {
            const auto got = p.constant(name);
            c.check(got && vals::ref_val(*got) == value, "annotations change the value of " + name);
        }
        c.label("accepted");
        if (text.find('@') != std::string::npos)
            c.nontrivial(text);
        return;
    }
    c.check(v != "ok", "accepted, although these rules are broken: " + rules + (m->sem->ok() ? "" : m->codes()));
    bool named = false, placed = false;
    for (auto& b : broken)
        if (v == "analysis:" + b.code) {
            named = true;
            const auto& t = m->toks.at(b.tok);
            placed |= p.analysis_error->fail_pos() && p.analysis_error->fail_pos()->begin == t.begin
                && p.analysis_error->fail_pos()->line == t.line;
        }
    const bool annotation_named = named;
    for (auto& e : m->sem->errors)
        if (v == "analysis:" + e.code)
            named = placed = true;
    c.check(named, "rejected with " + v + where + ", but the rules broken are: " + rules + (m->sem->ok() ? "" : m->codes()));
    c.check(placed, v + " is reported" + where + ", but the rules broken are: " + rules);
    c.label(annotation_named ? v.substr(9) : "other rule");
    if (!broken.empty())
        c.nontrivial(text);
}

void programs(Src& s, Ctx& c) { judge(c, annot::program(s)); }
void single(Src& s, Ctx& c) { judge(c, annot::single(s)); }

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C12";
    p.rule = "Generated programs with annotations put on any construct that can be annotated, and single "
             "annotations on each of 17 constructs. Annotation names are the documented ones and "
             "misspellings; argument lists start valid (positional, named, in any order, optional ones "
             "left out, integers in all bases) and get up to two faults (missing, surplus, duplicate, "
             "unknown name, other type, inadmissible value, huge literal, other order). Analysis must "
             "accept exactly if a table of the annotations finds no broken rule, otherwise name a rule "
             "that is broken and its position; values of constants must not change. Non-trivial: the "
             "program has an annotation and is valid, or breaks an annotation rule; distinct by text.";
    p.targets = { { "single", single, 12000, 400000 }, { "programs", programs, 8000, 250000 } };
    p.assumptions = { "the annotations, their parameters and where they apply are those of the table in the analyzer, "
                      "`inline` being spelled as in the wiki the code refers to" };
    return p;
}
