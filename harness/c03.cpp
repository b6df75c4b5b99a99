// C03: the parser against the grammar (Earley recognizer) and a reference tree.
#include "gen_syntax.hpp"
#include "lib_tree.hpp"
#include "pbt.hpp"

using pbt::Ctx;
using pbt::Src;

namespace {

void judge(Ctx& c, const std::string& text)
{
    c.show(text);
    const auto lex = ref::lex(text);
    if (!lex.ok)
        c.discard();
    ref::Parser rp(lex.tokens);
    std::vector<std::string> kinds;
    for (auto& t : rp.t)
        kinds.push_back(t.kind);
    const auto rec = ref::recognize(kinds);
    ref::Ptr tree;
    std::size_t rp_error = 0;
    try {
        tree = rp.program();
    } catch (const ref::Syntax_Error& e) {
        rp_error = e.at;
    }
    // the two references must agree, otherwise the harness is wrong
    if (rec.accepted != bool(tree) || (!tree && rp_error != rec.error_at))
        throw std::logic_error("reference parser and grammar disagree: " + text);

    front::Program p(text, front::Stage::parse);
    c.check(p.failed_at != front::Stage::tokenize, "does not tokenize");
    const bool ok = p.failed_at == front::Stage::done;
    if (rec.accepted)
        c.check(ok, "the grammar derives this program, the parser rejects it at token "
                    + (p.parse_error ? std::string(p.source.substr(p.parse_error->fail_token.pos.begin)) : ""));
    else
        c.check(!ok, "the grammar does not derive this program, the parser accepts it");
    if (tree) {
        c.label("accepted");
        front::Tree_Builder b(*p.parsed, p.tokens);
        const auto want = ref::dump(tree, true), got = ref::dump(b.build(), true);
        c.check(want == got, "tree is\n" + got + "\nexpected\n" + want);
        if (kinds.size() >= 8)
            c.nontrivial(ref::dump(tree));
    }
    else {
        c.label("rejected");
        if (rec.error_at >= 4) {
            std::string key;
            for (auto& k : kinds)
                key += k + " ";
            c.nontrivial(key);
        }
    }
}

void programs(Src& s, Ctx& c)
{
    auto k = gen::sentence(s, 6 + s.upto(14), 60);
    const int edits = s.weighted({ 5, 3, 2, 1 });
    for (int i = 0; i < edits; ++i)
        gen::edit(s, k);
    std::vector<std::string> w;
    for (auto& x : k)
        w.push_back(gen::spell(s, x));
    judge(c, gen::layout(s, w));
}

// Expressions only, with denser operators and parentheses.
void expressions(Src& s, Ctx& c)
{
    static const int expr = [] {
        const auto& g = ref::Grammar::get();
        for (std::size_t i = 0; i < g.nonterminals.size(); ++i)
            if (g.nonterminals[i] == "expr")
                return int(i);
        return 0;
    }();
    std::vector<std::string> k;
    gen::derive(s, expr, 4 + s.upto(14), k, 30);
    const int edits = s.weighted({ 5, 4, 1 });
    for (int i = 0; i < edits; ++i)
        gen::edit(s, k);
    const std::vector<std::vector<std::string>> contexts[] = {};
    std::vector<std::string> w;
    const auto pre = s.pick({ "const x =", "function f ( ) -> Int { return",
                              "function f ( ) -> Bool requires", "static_assert (",
                              "const x : Uint (", "function f ( ) -> Int { if", "const x = f ( 1 ,",
                              "function f ( ) -> Int { while" });
    const auto post = std::map<std::string_view, std::string_view> {
        { "const x =", ";" }, { "function f ( ) -> Int { return", "; }" },
        { "function f ( ) -> Bool requires", "{ }" }, { "static_assert (", ") ;" },
        { "const x : Uint (", ") = 1 ;" }, { "function f ( ) -> Int { if", "{ } }" },
        { "const x = f ( 1 ,", ", y == 2 ) ;" }, { "function f ( ) -> Int { while", "{ } }" }
    }.at(pre);
    auto words = [&](std::string_view t) {
        std::istringstream in { std::string(t) };
        std::string x;
        while (in >> x)
            w.push_back(x);
    };
    words(pre);
    for (auto& x : k)
        w.push_back(gen::spell(s, x));
    words(post);
    judge(c, gen::layout(s, w, 2));
}

void near_misses(Src& s, Ctx& c) { judge(c, gen::layout(s, gen::near_miss(s), 2)); }

void sequences(Src& s, Ctx& c)
{
    // tokens in any order: nearly always rejected early; grown greedily along viable tokens
    std::vector<std::string> k;
    const int n = s.upto(25);
    for (int i = 0; i < n; ++i) {
        const auto r = ref::recognize(k);
        if (s.chance(8) || r.viable.empty())
            k.push_back(s.pick(gen::all_kinds()));
        else {
            std::vector<std::string> v(r.viable.begin(), r.viable.end());
            k.push_back(s.pick(v));
        }
    }
    std::vector<std::string> w;
    for (auto& x : k)
        w.push_back(gen::spell(s, x));
    judge(c, gen::layout(s, w));
}

// Deep nesting must be parsed, and in reasonable time.
void nesting(Src& s, Ctx& c)
{
    const int n = 1 + s.upto(200);
    std::string t = "const x = ";
    std::string close;
    for (int i = 0; i < n; ++i) {
        switch (s.upto(4)) {
        case 0: t += "("; close = ")" + close; break;
        case 1: t += "-("; close = ")" + close; break;
        case 2: t += "f("; close = ")" + close; break;
        case 3: t += "(1 + "; close = ")" + close; break;
        default: t += "(x if true else "; close = ")" + close; break;
        }
    }
    t += "0" + close;
    if (s.chance(90))
        t += ";";
    judge(c, t);
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C03";
    p.rule = "Sentences derived at random from the documented grammar, with up to three random "
             "token edits, rendered with random layout and comments; derivations in which a construct is "
             "replaced by a similar one or loses, repeats or swaps parts; single expressions in eight "
             "contexts; token sequences grown along viable continuations; nesting up to 200. "
             "Acceptance is decided by an Earley recognizer of the grammar, the tree (structure, "
             "names, literals, and the token each node is positioned at) by a reference parser. "
             "Non-trivial: accepted programs of at least 8 tokens, or rejected ones whose error is "
             "at the fourth token or later; distinct by tree or token sequence.";
    p.targets = { { "programs", programs, 20000, 400000 },
                  { "expressions", expressions, 40000, 800000 },
                  { "near misses", near_misses, 40000, 800000 },
                  { "sequences", sequences, 5000, 100000 },
                  { "nesting", nesting, 1500, 10000 } };
    p.assumptions = { "const declarations end in a semicolon, which the grammar file leaves out" };
    return p;
}
