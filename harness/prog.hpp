// A generated program with its reference meaning, and its comparison with the library.
#ifndef VERIF_PROG_HPP
#define VERIF_PROG_HPP
#include "front.hpp"
#include "gen_prog.hpp"
#include "ref_sem.hpp"
#include "vals.hpp"

#include <map>
#include <set>

namespace prog {

using pbt::Ctx;
using pbt::Src;

/// Text to reference meaning. Throws Unspecified when the program is outside of the specified bounds.
struct Meaning {
    std::string text;
    std::vector<ref::Tok> toks; // without comments
    ref::Ptr tree;
    std::unique_ptr<ref::Semantics> sem;

    explicit Meaning(std::string t)
        : text(std::move(t))
    {
        const auto lex = ref::lex(text);
        if (!lex.ok)
            throw std::logic_error("generated text does not tokenize: " + text);
        ref::Parser p(lex.tokens);
        toks = p.t;
        try {
            tree = p.program();
        } catch (const ref::Syntax_Error& e) {
            throw std::logic_error("generated text does not parse at token " + std::to_string(e.at) + ": " + text);
        }
        sem = std::make_unique<ref::Semantics>(tree);
    }
    std::string codes() const
    {
        std::string r;
        for (auto& e : sem->errors) {
            const auto& p = toks.at(e.tok);
            r += e.code + " at " + std::to_string(p.line + 1) + ":" + std::to_string(p.column + 1) + "; ";
        }
        return r.empty() ? "ok" : r;
    }
};

inline ref::Ptr gen_tree(Src& s, const gen::Prog_Options& o, int edits)
{
    gen::Prog_Gen g(s, o);
    auto t = g.program();
    if (o.deep_percent && s.chance(o.deep_percent))
        gen::deepen(s, t);
    for (int i = 0; i < edits; ++i)
        gen::edit_program(s, t);
    return t;
}
inline std::string plain(const ref::Ptr& t) { return ref::pretty(ref::unparse(t)); }

/// The same program, in some cases with names of any form and length instead of the generator's short ones.
inline std::string named(Src& s, const std::string& text, int percent = 15)
{
    if (!s.chance(percent))
        return text;
    const std::size_t sizes[] { 0, 0, 0, 7, 15, 31, 63, 127, 255 };
    const std::size_t n = sizes[s.draw32(9)];
    const std::string stem = n == 0 ? "" : std::string(n - 1 + s.draw32(3), s.pick_char("vX_"));
    std::set<std::string> taken { "assert", "undefined_name" };
    for (auto& [w, k] : ref::keywords())
        taken.insert(std::string(w));
    std::map<std::string, std::string> to { { "assert", "assert" }, { "undefined_name", "undefined_name" } };
    const auto lexed = ref::lex(text);
    std::string r;
    std::size_t end = 0;
    for (auto& tok : lexed.tokens) {
        r += text.substr(end, tok.begin - end);
        end = tok.begin + tok.text.size();
        const std::string name(tok.text);
        if (tok.kind != "identifier") {
            r += name;
            continue;
        }
        auto [it, fresh] = to.try_emplace(name);
        if (fresh)
            do {
                it->second = stem + std::string(s.pick({ "x", "_", "If", "constant", "Uint8", "a1", "truex", "v", "Z", "as_", "main" }));
                const int k = s.upto(3);
                for (int i = 0; i < k; ++i)
                    it->second += s.pick_char("abcXYZ019_");
            } while (!taken.insert(it->second).second);
        r += it->second;
    }
    return r + text.substr(end);
}

/// A digest of the shape of a program, for the distinct count.
inline std::string key(const ref::Ptr& t) { return ref::dump(t); }

inline std::string without_prefix(const std::string& verdict)
{
    return verdict.starts_with("analysis:") ? verdict.substr(9) : verdict;
}

} // namespace prog
#endif
