#include <memory_resource>

#include "bms/tokenization/token.hpp"
#include "bms/tokenization/tokenize.hpp"
#include "bms/tokenization/tokenize_error.hpp"
#include "bms/tokenization/token_type.hpp"

#include "pbt.hpp"
#include "ref_lex.hpp"

using namespace bit_manipulation;
using pbt::Ctx;
using pbt::Src;

namespace {

std::string str(std::size_t n) { return std::to_string(n); }

void compare(std::string_view text, Ctx& c)
{
    c.show(pbt::quote(text));
    // The source lives in an exactly sized heap block so that any over-read is caught.
    std::vector<char> heap(text.begin(), text.end());
    heap.shrink_to_fit();
    std::string_view src(heap.data(), heap.size());
    const auto want = ref::lex(src);
    std::pmr::vector<bms::Token> got;
    const auto result = bms::tokenize(got, src);
    if (result.has_value() != want.ok) {
        c.fail("verdict: tokenizer " + std::string(result ? "accepts" : "rejects")
               + (result ? "" : " with " + std::string(name_of(result.error().code)))
               + ", the lexical rules say " + (want.ok ? "valid" : want.error));
    }
    if (!result) {
        const auto& e = result.error();
        c.check(name_of(e.code) == want.error,
                "error kind: " + std::string(name_of(e.code)) + " instead of " + want.error);
        c.check(e.pos.begin == want.error_at && e.pos.line == want.error_line
                    && e.pos.column == want.error_column,
                "error position: offset/line/column " + str(e.pos.begin) + "/" + str(e.pos.line)
                    + "/" + str(e.pos.column) + " instead of " + str(want.error_at) + "/"
                    + str(want.error_line) + "/" + str(want.error_column));
    }
    else
        c.check(got.size() == want.tokens.size(),
                "count: " + str(got.size()) + " tokens instead of " + str(want.tokens.size()));
    for (std::size_t i = 0; i < got.size() && i < want.tokens.size(); ++i) {
        const auto& g = got[i];
        const auto& w = want.tokens[i];
        c.check(bms::token_type_name(g.type) == w.kind,
                "kind: token " + str(i) + " is " + std::string(bms::token_type_name(g.type))
                    + " instead of " + w.kind);
        c.check(g.pos.begin == w.begin && g.pos.length == w.length,
                "extent: token " + str(i) + " covers [" + str(g.pos.begin) + ", +"
                    + str(g.pos.length) + ") instead of [" + str(w.begin) + ", +" + str(w.length)
                    + ")");
        c.check(g.pos.line == w.line && g.pos.column == w.column,
                "position: token " + str(i) + " at line/column " + str(g.pos.line) + "/"
                    + str(g.pos.column) + " instead of " + str(w.line) + "/" + str(w.column));
    }
    c.label(want.ok ? "accepted" : "rejected:" + want.error);
    if (want.tokens.size() >= 2 || !want.ok)
        c.nontrivial(text);
    if (!want.tokens.empty() && want.ok
        && want.tokens.back().begin + want.tokens.back().length == text.size())
        c.label("token at end of file: " + want.tokens.back().kind);
    for (auto& t : want.tokens)
        if (t.kind == "string_literal" && t.text.find('\n') != std::string::npos)
            c.label("string with newline");
}

std::string blank(Src& s, bool may_be_empty)
{
    std::string r;
    int n = s.weighted({ 4, 6, 2, 1 });
    if (n == 0 && !may_be_empty)
        n = 1;
    for (int i = 0; i < n; ++i)
        r += s.pick_char(" \n\t\r ");
    return r;
}

std::string piece(Src& s)
{
    switch (s.weighted({ 6, 5, 4, 5, 2, 2, 2, 2 })) {
    case 0: return s.pick(ref::punctuation()).first;
    case 1: return s.pick(ref::keywords()).first;
    case 2: {
        // identifiers, many next to keywords
        std::string r;
        if (s.flag()) {
            r = s.pick(ref::keywords()).first;
            switch (s.upto(3)) {
            case 0: r += s.pick_char("_0aZ"); break;
            case 1: r.pop_back(); break;
            case 2: r.insert(0, 1, s.pick_char("_aB")); break;
            default: r[0] ^= 0x20; break;
            }
        }
        else {
            r += s.pick_char("abcxyzABCXYZ_");
            for (int n = s.upto(5); n > 0; --n)
                r += s.pick_char("abcxyzABCXYZ_0123456789");
        }
        return r;
    }
    case 3: {
        std::string r { s.pick({ "0", "", "0x", "0b", "0", "00" }) };
        const auto set
            = s.pick({ "0123456789", "01", "01234567", "0123456789abcdefABCDEF", "9", "8", "xXbB" });
        for (int n = s.upto(6); n > 0; --n)
            r += s.pick_char(set);
        if (r.empty())
            r = "1";
        return r;
    }
    case 4: {
        std::string r = "//";
        for (int n = s.upto(5); n > 0; --n)
            r += s.pick_char("a/* \t\\\"\r(\xc3");
        if (s.chance(80))
            r += '\n';
        return r;
    }
    case 5: {
        std::string r = "/*";
        for (int n = s.upto(5); n > 0; --n)
            r += s.pick_char("a*/ \t\n\r\"'\xc3");
        if (s.chance(92))
            r += "*/";
        return r;
    }
    case 6: {
        std::string r = "\"";
        for (int n = s.upto(5); n > 0; --n)
            r += s.pick({ "a", "\\\\", "\\\"", "\\n", "\n", "\t", "\r", "//", "/*", " ", "'" });
        if (s.chance(92))
            r += '"';
        return r;
    }
    default: return std::string(1, char(s.upto(255)));
    }
}

void token_soup(Src& s, Ctx& c)
{
    std::string t;
    const int n = s.upto(s.chance(10) ? 40 : 9);
    if (s.flag())
        t += blank(s, true);
    for (int i = 0; i < n; ++i) {
        t += piece(s);
        if (s.chance(60))
            t += blank(s, true);
    }
    compare(t, c);
}

void bytes(Src& s, Ctx& c)
{
    std::string t;
    const auto set = s.pick({ "/*\n ", "\"\\a\n", "0x1b9_aF", "&|=<>!-+~^", "", "\r\n\t a0/" });
    for (int n = s.upto(14); n > 0; --n)
        t += set.empty() ? char(s.upto(255)) : s.pick_char(set);
    compare(t, c);
}

// Every pair of short pieces, directly adjacent and at the end of the file.
void adjacent(Src& s, Ctx& c)
{
    std::string t = piece(s) + piece(s);
    compare(t, c);
}

// Pieces of hundreds or thousands of characters.
void lengths(Src& s, Ctx& c)
{
    const auto repeat = [&](std::string_view set, std::size_t n) {
        std::string r;
        const auto unit = std::string(1, s.pick_char(set)) + (s.flag() ? std::string(1, s.pick_char(set)) : "");
        while (r.size() < n)
            r += unit;
        return r;
    };
    std::string t;
    for (int n = 1 + s.upto(3), big = s.upto(n - 1), i = 0; i < n; ++i) {
        if (i != big) {
            t += piece(s) + blank(s, true);
            continue;
        }
        const std::size_t around[] { 15, 31, 63, 127, 255, 511, 1023, 4095, 16383, 65535 };
        const auto length = around[s.weighted({ 6, 6, 6, 6, 8, 4, 4, 4, 1, 1 })] - 2 + s.draw32(6);
        switch (s.draw32(8)) {
        case 0: t += "a" + repeat("ab_Z09", length); break;
        case 1: t += std::string(s.pick({ "", "0x", "0b", "0" })) + repeat("01", length); break;
        case 2: t += "//" + repeat("a/* ", length) + (s.flag() ? "\n" : ""); break;
        case 3: t += "/*" + repeat("a/ \n\t\r", length) + (s.chance(90) ? "*/" : ""); break;
        case 4: t += '"' + repeat("a' \n", length) + (s.chance(90) ? "\"" : ""); break;
        case 5: t += '"' + repeat("\\", length) + '"'; break;
        case 6: t += repeat(" \t\n\r", length); break;
        default: t += repeat("+-&|<>=(;", length); break;
        }
        if (s.flag())
            t += blank(s, true);
    }
    compare(t, c);
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C01";
    p.rule = "Random texts made of token-like pieces (punctuation, keywords and near-keywords, "
             "numeric forms, comments, strings, raw bytes) with random whitespace, adjacent piece "
             "pairs, pieces of up to 65 thousand characters, and strings over small alphabets; compared token by token with an independent "
             "longest-match reference lexer. Non-trivial: at least two tokens, or a lexical error; "
             "distinct by text.";
    p.assumptions = { "columns count a tab as four and restart at carriage return, as in the "
                      "tokenizer's own convention" };
    p.targets = {
        { "token_soup", token_soup, 400000, 8000000 },
        { "bytes", bytes, 300000, 6000000 },
        { "adjacent", adjacent, 200000, 3000000 },
        { "lengths", lengths, 15000, 300000 },
    };
    for (std::string t : { "", " ", "/**/", "//", "// a", "\"\"", "\"a\nb\" c", "/*\n*/ x", "0x", "0b2",
                           "0", "00", "09", "1a", "\t@", "\r\n\ra", "=>", "= >", "a/**/", "\"\\" })
        p.fixed.push_back({ pbt::quote(t), [t](Ctx& c) { compare(t, c); } });
    // every two-byte text
    p.fixed.push_back({ "all two-byte texts", [](Ctx& c) {
                           for (int a = 0; a < 256; ++a)
                               for (int b = 0; b < 256; ++b) {
                                   const char t[2] = { char(a), char(b) };
                                   compare(std::string_view(t, 2), c);
                               }
                       } });
    return p;
}
