// BMS-like code fragments for documents: mostly valid tokens with arbitrary layout.
#ifndef VERIF_GEN_CODE_HPP
#define VERIF_GEN_CODE_HPP
#include <string>

#include "pbt.hpp"
#include "ref_lex.hpp"

namespace gencode {
using pbt::Src;

struct Options {
    bool for_document = true; // keep the braces balanced
    int bad_percent = 4;      // pieces which are no tokens
};

inline std::string space(Src& s)
{
    std::string r;
    for (int n = s.weighted({ 3, 6, 3, 1 }); n > 0; --n)
        r += s.pick({ " ", "\n", "\t", "    ", "\r", "\n\n", "\r\n", "  " });
    if (s.draw32(600) == 599) // rarely, a long way
        r += std::string(std::size_t(10 + s.upto(500)), s.pick_char(" \n\t"));
    return r;
}

/// Rarely, something to make a token long.
inline std::string stretch(Src& s, std::string_view unit)
{
    std::string r;
    if (s.draw32(200) == 199)
        for (auto n = std::size_t(10 + s.upto(s.chance(20) ? 4000 : 400)); r.size() < n;)
            r += unit;
    return r;
}

inline std::string token(Src& s, const Options& o)
{
    if (s.chance(o.bad_percent))
        return std::string(s.pick({ "#", "$", "'", "0x", "?", "`", "\\", "\xc3\xa4", "0b", "\"" }));
    switch (s.weighted({ 6, 5, 4, 3, 3, 2 })) {
    case 0: {
        const auto& t = s.pick(ref::punctuation()).first;
        if (o.for_document && (t == "{" || t == "}"))
            return "+";
        return std::string(t);
    }
    case 1: return std::string(s.pick(ref::keywords()).first);
    case 2: return stretch(s, "a") + std::string(s.pick({ "x", "foo", "a1", "_", "If", "uint", "T", "popcount" }));
    case 3: return std::string(s.pick({ "0", "1", "42", "0b101", "017", "0xFf", "340282366920938463463374607431768211455" }));
    case 4: {
        std::string body = stretch(s, s.pick({ "c", "&", "TODO " }));
        for (int n = s.upto(3); n > 0; --n)
            body += s.pick({ "a", " ", "<b>", "&amp;", "{", "}", "\\", "\"", "/", "\t", "TODO" });
        if (s.flag())
            return "//" + body + "\n";
        body += s.pick({ "", "\n", "\n\t\n ", "\r\n", "*" });
        for (std::size_t i = 0; i + 1 < body.size(); ++i)
            if (body[i] == '*' && body[i + 1] == '/')
                body[i] = '+';
        return "/*" + body + (s.flag() ? "*/" : " */");
    }
    default: {
        std::string body = stretch(s, s.pick({ "c", "<", "s " }));
        for (int n = s.upto(3); n > 0; --n)
            body += s.pick({ "a", " ", "<", "&", "\\\"", "\\\\", "'", "\n", "x<y>" });
        return "\"" + body + "\"";
    }
    }
}

inline std::string code(Src& s, Options o, int depth = 0)
{
    std::string r = space(s);
    for (int n = s.weighted({ 1, 3, 4, 4, 3, 2, 2 }); n > 0; --n) {
        if (depth < 2 && s.chance(8))
            r += "{" + code(s, o, depth + 1) + "}";
        else
            r += token(s, o);
        r += space(s);
    }
    return r;
}

inline std::string for_document(Src& s) { return code(s, {}); }

} // namespace gencode
#endif
