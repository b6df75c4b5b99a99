// Random sentences of the grammar, random token edits, and random layout.
#ifndef VERIF_GEN_SYNTAX_HPP
#define VERIF_GEN_SYNTAX_HPP
#include <algorithm>
#include <functional>

#include "pbt.hpp"
#include "ref_parse.hpp"

namespace gen {

using pbt::Src;

/// `annotations` is the percentage of places for annotations which have some.
inline void derive(Src& s, int sym, int depth, std::vector<std::string>& out, std::size_t limit, int annotations = 50)
{
    const auto& g = ref::Grammar::get();
    if (sym < 0) {
        out.push_back(g.terminals[-sym - 1]);
        return;
    }
    std::vector<int> options = g.by_lhs[sym];
    if (depth <= g.min_depth[sym] || out.size() > limit) {
        // cheapest only
        std::vector<int> cheap;
        for (int r : options)
            if (g.rule_depth[r] == g.min_depth[sym])
                cheap.push_back(r);
        options = cheap;
    }
    if (annotations != 50 && g.nonterminals[sym] == "oannots" && !s.chance(annotations))
        options.resize(1);
    const int r = options[s.draw32(std::uint32_t(options.size()))];
    for (int k : g.rules[r].rhs)
        derive(s, k, depth - 1, out, limit, annotations);
}

inline std::vector<std::string> sentence(Src& s, int depth, std::size_t limit, int annotations = 50)
{
    std::vector<std::string> out;
    derive(s, 0, depth, out, limit, annotations);
    return out;
}

/// A derivation, so that it can be broken at a place chosen by its structure.
struct Derived {
    int sym;
    std::vector<Derived> kids;
};
inline Derived derivation(Src& s, int sym, int depth, std::size_t limit, std::size_t& made)
{
    const auto& g = ref::Grammar::get();
    Derived r { sym, {} };
    ++made;
    if (sym < 0)
        return r;
    std::vector<int> options = g.by_lhs[sym];
    if (depth <= g.min_depth[sym] || made > limit)
        std::erase_if(options, [&](int k) { return g.rule_depth[k] != g.min_depth[sym]; });
    for (int k : g.rules[options[s.draw32(std::uint32_t(options.size()))]].rhs)
        r.kids.push_back(derivation(s, k, depth - 1, limit, made));
    return r;
}
inline void flatten(const Derived& d, std::vector<std::string>& out)
{
    if (d.sym < 0)
        out.push_back(ref::Grammar::get().terminals[-d.sym - 1]);
    for (auto& k : d.kids)
        flatten(k, out);
}
inline int nonterminal(std::string_view name)
{
    const auto& g = ref::Grammar::get();
    for (std::size_t i = 0; i < g.nonterminals.size(); ++i)
        if (g.nonterminals[i] == name)
            return int(i);
    throw std::logic_error("nonterminal");
}
/// Puts something where the grammar wants something similar, or drops, repeats or swaps parts of a construct.
inline void break_derivation(Src& s, Derived& root)
{
    static const std::vector<std::vector<std::string_view>> similar {
        { "expr", "ifexpr", "binary", "arith", "prefix", "postfix", "primary", "call", "paren", "intlit", "boollit", "lit", "type" },
        { "stmt", "if", "block", "stmts", "sassert", "decl", "oelse" },
        { "binop", "arithop", "cmpop", "unop" },
        { "oannots", "annots", "annot", "annotarg", "oannotargs", "annotargs" },
        { "oexprs", "exprs", "oparams", "params", "param", "annotargs" },
        { "otype", "init", "oreq", "type" },
    };
    std::vector<Derived*> inner;
    std::function<void(Derived&)> all = [&](Derived& d) {
        if (d.sym < 0)
            return;
        inner.push_back(&d);
        for (auto& k : d.kids)
            all(k);
    };
    all(root);
    Derived& at = *inner[s.draw32(std::uint32_t(inner.size()))];
    std::size_t made = 0;
    const auto draw = [&](std::size_t n) { return s.draw32(std::uint32_t(n)); };
    if (s.chance(60) || at.kids.empty()) {
        const auto& g = ref::Grammar::get();
        std::vector<std::string_view> names;
        for (auto& c : similar)
            if (std::find(c.begin(), c.end(), g.nonterminals[std::size_t(at.sym)]) != c.end())
                names.insert(names.end(), c.begin(), c.end());
        const int to = names.empty() || s.chance(10) ? int(draw(g.nonterminals.size())) : nonterminal(names[draw(names.size())]);
        at = derivation(s, to, 3 + s.upto(7), 20, made);
        return;
    }
    const auto i = draw(at.kids.size());
    switch (s.upto(3)) {
    case 0: at.kids.erase(at.kids.begin() + i); break;
    case 1: {
        auto copy = at.kids[i];
        at.kids.insert(at.kids.begin() + draw(at.kids.size() + 1), std::move(copy));
        break;
    }
    case 2: std::swap(at.kids[i], at.kids[draw(at.kids.size())]); break;
    case 3: at.kids[i] = derivation(s, int(draw(ref::Grammar::get().nonterminals.size())), 3 + s.upto(5), 15, made); break;
    }
}

inline const std::vector<std::string>& all_kinds()
{
    static const std::vector<std::string> k = [] {
        std::vector<std::string> r;
        for (auto& [t, n] : ref::punctuation())
            r.push_back(n);
        for (auto& [t, n] : ref::keywords())
            r.push_back(n);
        for (auto n : { "identifier", "decimal_literal", "hexadecimal_literal", "binary_literal",
                        "octal_literal", "string_literal" })
            r.push_back(n);
        return r;
    }();
    return k;
}

/// A few token-level edits.
inline void edit(Src& s, std::vector<std::string>& k)
{
    const auto& all = all_kinds();
    auto at = [&](std::size_t n) { return s.draw32(std::uint32_t(n)); };
    if (k.empty())
        return;
    switch (s.weighted({ 4, 4, 4, 2, 2, 2, 2 })) {
    case 0: k.erase(k.begin() + at(k.size())); break;
    case 1: k.insert(k.begin() + at(k.size() + 1), s.pick(all)); break;
    case 2: k[at(k.size())] = s.pick(all); break;
    case 3: std::swap(k[at(k.size())], k[at(k.size())]); break;
    case 4: k.resize(at(k.size())); break;
    case 5: { // duplicate a range
        const auto b = at(k.size()), n = 1 + at(4);
        std::vector<std::string> c(k.begin() + b, k.begin() + std::min<std::size_t>(k.size(), b + n));
        k.insert(k.begin() + at(k.size() + 1), c.begin(), c.end());
        break;
    }
    default: { // copy a token of the sentence elsewhere
        const std::string c = k[at(k.size())];
        k.insert(k.begin() + at(k.size() + 1), c);
    }
    }
}

inline std::string spell(Src& s, const std::string& kind)
{
    for (auto& [t, n] : ref::punctuation())
        if (n == kind)
            return t;
    for (auto& [t, n] : ref::keywords())
        if (n == kind)
            return t;
    if (kind == "identifier")
        return std::string(s.pick({ "x", "y", "f", "assert", "_a1", "unroll", "Name" }));
    if (kind == "decimal_literal")
        return std::string(s.pick({ "0", "1", "42", "1234567890" }));
    if (kind == "hexadecimal_literal")
        return std::string(s.pick({ "0x0", "0xfF", "0xDEAD" }));
    if (kind == "binary_literal")
        return std::string(s.pick({ "0b0", "0b101" }));
    if (kind == "octal_literal")
        return std::string(s.pick({ "00", "0755" }));
    if (kind == "string_literal")
        return std::string(s.pick({ "\"\"", "\"a b\"", "\"q\\\"//\"", "\"/*\"" }));
    return "?";
}

/// Words of derivations in which one construct is replaced by a similar one, or loses or repeats a part.
inline std::vector<std::string> near_miss(Src& s)
{
    static const std::vector<std::pair<std::string_view, std::string_view>> around {
        { "const x =", "expr" },
        { "function f ( ) -> Int {", "stmt" },
        { "function f ( ) -> Int { if x { }", "oelse" },
        { "function f ( ) -> Int { x =", "binary" },
        { "function f (", "oparams" },
        { "", "decl" },
    };
    const std::string_view post[] = { ";", "}", "}", "; }", ") -> Int { }", "" };
    const std::size_t k = std::size_t(s.weighted({ 4, 5, 2, 3, 1, 2 }));
    std::size_t made = 0;
    auto d = derivation(s, nonterminal(around[k].second), 4 + s.upto(12), 40, made);
    for (int n = s.weighted({ 1, 8, 3 }); n > 0; --n)
        break_derivation(s, d);
    std::vector<std::string> kinds, w;
    flatten(d, kinds);
    const auto words = [&](std::string_view t) {
        std::istringstream in { std::string(t) };
        for (std::string x; in >> x;)
            w.push_back(x);
    };
    words(around[k].first);
    for (auto& x : kinds)
        w.push_back(spell(s, x));
    words(post[k]);
    return w;
}

/// A comment of either kind, with anything in it that does not end it.
inline std::string comment(Src& s)
{
    const bool block = s.flag();
    std::string r = block ? "/*" : "//";
    const int n = s.weighted({ 2, 3, 2, 1 }) * 2;
    for (int i = 0; i < n; ++i)
        r += s.pick({ " c ", "; ) ", "else }", "\r", "\t", "\"", "\\", "*", "/", "//", "* /", "/*", "\r\r", "x = 1;", "\xc3\xa9",
                      "@", "'", "static_assert(false);", "" });
    if (!block)
        return r + "\n";
    r += s.pick({ "", "\n", "\r\n" });
    for (std::size_t k = r.find("*/", 2); k != std::string::npos; k = r.find("*/", 2))
        r.insert(k + 1, " ");
    if (r.size() > 2 && r.back() == '*')
        r += s.flag() ? "*" : "";
    return r + "*/";
}

/// White space and comments between tokens; at least something where tokens would merge.
inline std::string gap(Src& s, int comments_percent)
{
    std::string r;
    const int n = 1 + s.weighted({ 8, 2, 1 });
    for (int i = 0; i < n; ++i) {
        if (s.chance(comments_percent))
            r += comment(s);
        else
            r += s.pick({ " ", "\n", "\t", "  ", "\r\n" });
    }
    if (s.draw32(500) == 499) // rarely, a long way
        r += std::string(std::size_t(20 + s.upto(600)), s.pick_char(" \n\t"));
    return r;
}

inline bool may_touch(char a, char b)
{
    if (ref::ident_char(a) && ref::ident_char(b))
        return false;
    return !(ref::in(a, "=!<>&|-/*+\"") && ref::in(b, "=<>&|*/-\""));
}

inline std::string layout(Src& s, const std::vector<std::string>& words, int comments_percent = 5)
{
    std::string r;
    for (auto& w : words) {
        if (!r.empty() && (!may_touch(r.back(), w[0]) || !s.chance(40))) {
            const auto g = gap(s, comments_percent);
            if (r.back() == '/' && g[0] == '/')
                r += ' ';
            r += g;
        }
        else if (r.empty() && s.chance(10))
            r += gap(s, comments_percent);
        r += w;
    }
    if (s.chance(20))
        r += gap(s, comments_percent);
    return r;
}

} // namespace gen
#endif
