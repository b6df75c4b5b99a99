// C13: BMS text generated from a program is that program again.
#include "code.hpp"
#include "lib_tree.hpp"
#include "pbt.hpp"

using pbt::Ctx;
using pbt::Src;

namespace {

ref::Ptr without_annotations(const ref::Ptr& p)
{
    if (!p)
        return p;
    auto r = std::make_shared<ref::Node>(*p);
    for (auto& k : r->kids)
        k = k && k->kind == "Annots" ? nullptr : without_annotations(k);
    return r;
}

void judge(Src& s, Ctx& c, const std::string& text)
{
    c.show(text);
    try {
        prog::Meaning m(text); // constant evaluation ends
        if (!m.sem->ok())
            c.discard();
    } catch (const ref::Unspecified&) {
        c.discard();
    }
    front::Program p(text);
    if (!p.ok())
        c.discard(); // C07 decides that
    code::bmd::Code_Options o;
    code::gen_layout(s, o);
    o.always_parenthesize_subexpressions = s.chance(30);
    const auto first = code::generate(p, code::bmd::Code_Language::bms, o);
    const auto where = [&](const std::string& m) { return m + "\noptions: " + code::show(o) + "\ngenerated:\n" + first.text; };
    c.check(first.ok, where("no code was generated, error " + std::to_string(first.error)));
    front::Program q(first.text);
    c.check(q.ok(), where("the generated text is rejected: " + q.verdict()));

    const auto t1 = without_annotations(front::Tree_Builder(*p.parsed, p.tokens).build());
    const auto t2 = without_annotations(front::Tree_Builder(*q.parsed, q.tokens).build());
    const auto d1 = ref::dump(t1), d2 = ref::dump(t2);
    c.check(d1 == d2, where("the syntax tree changed\nbefore: " + d1 + "\nafter:  " + d2));

    // The reference parser must agree that both are the same program.
    const auto lex = ref::lex(first.text);
    c.check(lex.ok, where("the generated text does not tokenize"));
    ref::Parser rp(lex.tokens);
    try {
        const auto t3 = without_annotations(rp.program());
        c.check(ref::dump(t3) == d1, where("the syntax tree changed: " + ref::dump(t3)));
    } catch (const ref::Syntax_Error& e) {
        c.fail(where("the generated text is no program"));
    }
    const auto second = code::generate(q, code::bmd::Code_Language::bms, o);
    c.check(second.ok && second.text == first.text, where("generating again gives:\n" + second.text));
    // and what is generated does not depend on how the original was written
    if (d1.size() > 400)
        c.nontrivial(d1);
}

std::string layout(Src& s, const ref::Ptr& t)
{
    const int percent = s.pick(std::vector { 0, 0, 20, 60 });
    auto words = ref::unparse(t, [&] { return s.chance(percent); });
    std::string r;
    for (std::size_t i = 0; i < words.size(); ++i) {
        if (i)
            switch (s.weighted({ 80, 5, 5, 5 })) {
            case 0: r += ' '; break;
            case 1: r += "\n\t"; break;
            case 2: r += " /* c */ "; break;
            default: r += " // c\n"; break;
            }
        r += words[i];
    }
    return r;
}

void programs(Src& s, Ctx& c)
{
    gen::Prog_Options o;
    o.deep_percent = 4;
    o.size = 60 + s.upto(300);
    const auto t = prog::gen_tree(s, o, 0);
    judge(s, c, prog::named(s, s.flag() ? prog::plain(t) : layout(s, t)));
}
void small(Src& s, Ctx& c)
{
    gen::Prog_Options o;
    o.deep_percent = 4;
    o.size = 8 + s.upto(60);
    o.constants = s.upto(2);
    o.functions = 1 + s.upto(1);
    const auto t = prog::gen_tree(s, o, s.chance(30));
    judge(s, c, prog::named(s, layout(s, t)));
}

// One expression of a random shape over operands that make it well typed.
ref::Ptr expression(Src& s, int depth, char type)
{
    using G = gen::Prog_Gen;
    const auto sub = [&](char t) { return expression(s, depth - 1, t); };
    if (depth <= 0 || s.chance(15))
        return type == 'B' ? (s.chance(30) ? G::lit(s.flag() ? "true" : "false") : G::id(s.flag() ? "p" : "q"))
            : s.chance(30)
            ? ref::node("Call", "f", { G::id("x"), G::id("y"), G::id("p"), G::id("q") })
            : G::id(s.flag() ? "x" : "y");
    switch (s.weighted({ 60, 15, 12, type == 'U' ? 13 : 0 })) {
    case 0:
        if (type == 'U')
            return G::bin(std::string(s.pick({ "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>" })), sub('U'), sub('U'));
        if (s.flag())
            return G::bin(std::string(s.pick({ "&&", "||", "==", "!=" })), sub('B'), sub('B'));
        return G::bin(std::string(s.pick({ "<", ">", "<=", ">=", "==", "!=" })), sub('U'), sub('U'));
    case 1: {
        auto x = sub(type);
        return G::pre(std::string(type == 'U' ? s.pick({ "-", "~", "+" }) : s.pick({ "!" })), x);
    }
    case 2: {
        auto l = sub(type), m = sub('B'), r = sub(type);
        return G::ifx(l, m, r);
    }
    default: return ref::node("Conv", "", { sub('U'), ref::node("Type", "Uint", { G::lit("8") }) });
    }
}
void expressions(Src& s, Ctx& c)
{
    using G = gen::Prog_Gen;
    const int depth = 1 + s.upto(5);
    auto u8 = [] { return ref::node("Type", "Uint", { G::lit("8") }); };
    auto b = [] { return ref::node("Type", "Bool", { nullptr }); };
    auto param = [](const char* n, ref::Ptr t) { return ref::node("Param", n, { t }); };
    auto e = expression(s, depth, 'U');
    auto fn = ref::node("Function", "f",
                        { nullptr,
                          ref::node("Params", "", { param("x", u8()), param("y", u8()), param("p", b()), param("q", b()) }), u8(),
                          nullptr, G::block({ ref::node("Return", "", { e }) }) });
    judge(s, c, layout(s, ref::node("Program", "", { fn })));
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C13";
    p.rule = "Generated well-typed programs, whole and small, and single expressions of random shape "
             "over all operators, written with random redundant parentheses, comments and line breaks; "
             "BMS code is generated under random formatting options, analyzed again, and the syntax "
             "trees (without annotations) are compared by two independent parsers; generating from the "
             "generated text must reproduce it byte for byte. Non-trivial: a tree of at least 400 "
             "characters when printed; distinct by tree.";
    p.targets = { { "expressions", expressions, 12000, 400000 },
                  { "programs", programs, 4000, 150000 },
                  { "small", small, 8000, 300000 } };
    p.assumptions = { "annotations have no meaning beyond validation, so generated text may omit them" };
    return p;
}
