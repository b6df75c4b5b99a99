// Generators of BMD documents.
#ifndef VERIF_GEN_DOC_HPP
#define VERIF_GEN_DOC_HPP
#include <string>
#include <string_view>
#include <vector>

#include "pbt.hpp"
#include "ref_bmd.hpp"

namespace gendoc {
using pbt::Src;
using refbmd::Content;
using refbmd::Env;
using refbmd::Node;

struct Options {
    int max_depth = 4;
    /// replaces the choice of raw contents (code); must be brace-balanced
    std::string (*code)(Src&) = nullptr;
    bool numeric_args = true;
    bool html_args = false; // argument names which conversion gives a meaning to
    bool exotic = true;     // carriage returns, tabs, bytes outside of ASCII
};

/// Renders documents while recording their intended structure (without positions).
class Writer {
    Src& s;
    Options o;

public:
    std::string out;

    Writer(Src& src, Options options)
        : s(src)
        , o(options)
    {
    }

    /// At most two things in a document are unusually long.
    int long_things = 0;
    bool rarely() { return long_things < 2 && s.draw32(400) == 399 && ++long_things != 0; }
    int many(int n) { return rarely() ? n + 8 + s.upto(30) : n; }
    std::string stretch(std::string_view unit)
    {
        std::string r;
        for (auto n = std::size_t(20 + s.upto(s.chance(20) ? 4000 : 400)); r.size() < n;)
            r += unit;
        return r;
    }

    // ---- layout -------------------------------------------------------------------------------
    std::string white()
    {
        if (rarely())
            return stretch(" ");
        switch (s.weighted({ 8, o.exotic ? 2 : 0, o.exotic ? 1 : 0, 2 })) {
        case 1: return "\t";
        case 2: return "\r";
        case 3: return "  ";
        default: return " ";
        }
    }
    std::string comment()
    {
        std::string body;
        for (int n = s.upto(3); n > 0; --n)
            body += s.pick({ "a", "{", "}", "\\b", "\\", "/", "//", "\n\n", "*", " ", "[", "\"" });
        if (rarely())
            body += stretch("a");
        if (s.flag()) {
            std::string r = "//";
            for (char c : body)
                r += c == '\n' ? ' ' : c;
            return r + "\n";
        }
        std::string r = "/*";
        for (char c : body)
            r += c == '*' ? '+' : c;
        if (r.size() > 2 && r.back() == '/' && s.flag())
            return r + "**/";
        return r + (s.flag() ? "*/" : "**/");
    }
    bool behind_line_break() const
    {
        for (auto i = out.size(); i-- > 0 && refbmd::space(out[i]);)
            if (out[i] == '\n')
                return true;
        return false;
    }
    /// Blank space which contains no empty line.
    void gap(bool may_be_empty)
    {
        bool line = behind_line_break(); // since the last comment
        int n = s.weighted({ 4, 8, 3, 1, 1 });
        if (n == 0 && !may_be_empty)
            n = 1;
        for (; n > 0; --n) {
            switch (s.weighted({ 6, 3, 2 })) {
            case 1:
                if (!line) {
                    out += "\n";
                    line = true;
                    break;
                }
                [[fallthrough]];
            case 0: out += white(); break;
            default: line = comment_gap();
            }
        }
    }
    /// A comment which does not join with what is before; returns whether it ends a line.
    bool comment_gap()
    {
        if (!out.empty() && out.back() == '/')
            out += " ";
        out += comment();
        return out.back() == '\n';
    }
    void break_()
    {
        gap(true);
        out += "\n";
        while (s.chance(30))
            out += white();
        out += "\n";
        for (int n = s.weighted({ 5, 2, 1 }); n > 0; --n) {
            if (s.flag())
                out += "\n";
            else
                gap(true);
        }
    }
    void any_blank()
    {
        if (s.chance(20))
            break_();
        else
            gap(true);
    }

    // ---- content ------------------------------------------------------------------------------
    std::string word()
    {
        std::string r;
        for (int n = 1 + s.weighted({ 6, 3, 1 }); n > 0; --n) {
            switch (s.weighted({ 10, 3, 4, 3, 1 })) {
            case 1:
                r += s.pick({ "\\\\", "\\{", "\\}", "\\{\\}", "\\\\\\\\" });
                break;
            case 2:
                r += s.pick({ "<", ">", "&", "\"", "'", "&lt;", "&amp;", "<b>", "</p>", "<!--", "-->",
                              "=", "&#60;", "]]>" });
                break;
            case 3:
                r += s.pick({ "[x=1]", "[", "]", "*", ":", "-", ",", "*/", "=0", "0x1", "#", "@", "`" });
                break;
            case 4:
                r += o.exotic ? s.pick({ "\xc3\xa4", "\x01", "\x7f", "\xff", "\xe2\x82\xac" })
                              : std::string_view("z");
                break;
            default: r += s.pick({ "a", "Lorem", "x1", "b", "item", "END", "q" });
            }
        }
        if (rarely())
            r += stretch(s.pick({ "Lorem", "x", "&", "\\{", "a<" }));
        if (s.chance(5))
            r += "/.";
        for (std::size_t i = 0; i + 1 < r.size(); ++i)
            if (r[i] == '/' && (r[i + 1] == '/' || r[i + 1] == '*'))
                r.insert(i + 1, ".");
        return r;
    }

    /// A run of words; returns the raw text.
    std::string words(bool multi_line)
    {
        std::string r = word();
        for (int n = many(s.weighted({ 4, 4, 3, 1 })); n > 0; --n) {
            bool line = false;
            for (int k = s.weighted({ 0, 8, 1 }); k > 0; --k) {
                if (multi_line && !line && s.chance(20)) {
                    r += "\n";
                    line = true;
                }
                else
                    r += white();
            }
            r += word();
        }
        return r;
    }

    std::string raw(int depth = 0)
    {
        std::string r;
        if (rarely())
            r += stretch(s.pick({ "x ", " ", "0", "<a", "\n" }));
        for (int n = many(s.weighted({ 1, 4, 4, 3, 2 })); n > 0; --n) {
            switch (s.weighted({ 8, 2, 2, 2, 2, 2, 1 })) {
            case 1: r += depth < 3 ? "{" + raw(depth + 1) + "}" : "{}"; break;
            case 2: r += s.pick({ "\\{", "\\}", "\\\\", "\\b", "\\ " }); break;
            case 3: r += comment(); break;
            case 4: r += s.pick({ "\n", "\n\n", " ", "\t", "  ", "\r\n" }); break;
            case 5: r += s.pick({ "<", ">", "&", "\"", "&gt;", "</pre>", "</code>", "'" }); break;
            case 6: r += s.pick({ "\xc3\xa4", "\x01", "\xff" }); break;
            default:
                r += s.pick({ "let", "x", "0x1F", "=", "Uint", "(", ")", ";", "10", "true", " ", "->" });
            }
        }
        return r;
    }

    void arguments(Node& d)
    {
        out += "[";
        int n = many(s.weighted({ 1, 5, 3, 1 }));
        gap(true);
        for (int i = 0; i < n; ++i) {
            std::string name { s.pick({ "x", "class", "id", "A_1", "_", "width", "b", "href", "Z9" }) };
            std::string value;
            if (o.html_args && s.chance(60)) {
                if (d.id == "c" || d.id == "codeblock") {
                    name = "lang";
                    value = s.pick({ "bms", "c", "cpp", "cxx", "plain", "plaintext", "text", "raw", "rust", "bmd", "BMS", "java" });
                }
                if (d.id == "instruction") {
                    name = s.pick({ "arch", "ext" });
                    value = s.pick({ "x86", "x86_64", "arm", "risc_v", "power", "power_pc", "sparc", "mips", "ibm_z", "X86", "BMI2" });
                    if (name == "ext")
                        value = s.pick({ "BMI2", "SSE4_2", "x86" });
                }
            }
            if (rarely())
                name += stretch("n");
            while (d.args.contains(name))
                name += s.pick_char("abc_0");
            out += name;
            gap(true);
            out += "=";
            gap(true);
            refbmd::Arg a;
            if (o.numeric_args && s.chance(value.empty() ? 40 : 5)) {
                a.is_number = true;
                std::uint64_t v = s.chance(30) ? (s.draw64() >> 1) >> s.upto(62) : s.upto(20);
                if (s.chance(5))
                    v = INT64_MAX;
                a.number = v;
                switch (s.weighted({ 5, 2, 2, 2 })) {
                case 1: a.base = "bin"; break;
                case 2: a.base = v ? "oct" : "dec"; break;
                case 3: a.base = "hex"; break;
                default: a.base = "dec";
                }
                out += number(v, a.base);
            }
            else {
                a.id = !value.empty() ? std::string_view(value) : s.pick({ "y", "abc", "_", "B2", "bms", "centered", "x0", "true" });
                out += a.id;
            }
            d.args.emplace(name, a);
            const bool comma = s.chance(60);
            if (comma) {
                gap(true);
                out += ",";
                gap(true);
            }
            else
                gap(i + 1 == n);
        }
        out += "]";
    }

    std::string number(std::uint64_t v, std::string_view base)
    {
        if (base == "dec")
            return std::to_string(v);
        std::string digits;
        const unsigned b = base == "bin" ? 2 : base == "oct" ? 8 : 16;
        const std::string_view alphabet = s.pick({ "0123456789abcdef", "0123456789ABCDEF" });
        do
            digits.insert(0, 1, alphabet[v % b]);
        while ((v /= b) != 0);
        if (s.chance(20))
            digits.insert(0, std::size_t(s.upto(2)), '0');
        return (base == "bin" ? "0b" : base == "oct" ? "0" : "0x") + digits;
    }

    Node directive(Env env, int depth, const std::vector<std::string>* only = nullptr)
    {
        std::vector<std::string> ids;
        for (auto& [id, info] : refbmd::directives())
            if (info.env == env && id != "meta")
                ids.push_back(id);
        return directive(s.pick(only ? *only : ids), depth);
    }

    Node directive(const std::string& id, int depth)
    {
        Node d { Node::directive };
        d.id = id;
        out += "\\" + id;
        if (s.chance(25))
            arguments(d);
        const auto content = refbmd::directives().find(id)->second.content;
        if (content == Content::nothing) {
            if (s.chance(10)) {
                d.has_block = true;
                out += "{";
                any_blank();
                out += "}";
            }
            return d;
        }
        if (s.chance(8))
            return d;
        d.has_block = true;
        out += "{";
        switch (content) {
        case Content::raw: {
            const auto r = o.code ? o.code(s) : raw();
            if (!r.empty()) {
                Node t { Node::text };
                t.str = r;
                d.children.push_back(t);
            }
            out += r;
            break;
        }
        case Content::text_span: {
            gap(true);
            std::string joined;
            for (int n = many(s.weighted({ 1, 8, 2 })); n > 0; --n) {
                const auto w = words(true);
                joined += (joined.empty() ? "" : " ") + w;
                out += w;
                if (n > 1) {
                    out += white();
                    comment_gap();
                    gap(true);
                }
            }
            gap(true);
            if (!joined.empty()) {
                Node t { Node::text };
                t.str = joined;
                d.children.push_back(t);
            }
            break;
        }
        case Content::span:
            gap(true);
            d.children = elements(depth - 1);
            gap(true);
            break;
        case Content::list:
        case Content::meta:
            any_blank();
            for (int n = many(s.weighted({ 1, 4, 3, 2 })); n > 0; --n) {
                d.children.push_back(
                    directive(content == Content::list ? Env::list : Env::meta, depth - 1));
                any_blank();
            }
            break;
        default: d.children = content_(depth - 1); break;
        }
        out += "}";
        return d;
    }

    /// Elements of a paragraph; the last one written is not followed by blank space.
    std::vector<Node> elements(int depth)
    {
        std::vector<Node> r;
        int n = many(s.weighted({ 0, 6, 4, 3, 1 }));
        if (depth <= 0)
            n = 1;
        if (n > 8)
            depth = std::min(depth, 1);
        for (int i = 0; i < n; ++i) {
            const bool last_was_text = !r.empty() && r.back().kind == Node::text;
            if (i != 0) {
                if (last_was_text && s.chance(30)) {
                    // a comment keeps texts apart
                    out += white();
                    comment_gap();
                    gap(true);
                    text_here(r);
                    continue;
                }
                gap(true);
            }
            if (depth > 0 && (last_was_text || s.chance(45)))
                r.push_back(directive(Env::paragraph, depth));
            else
                text_here(r);
        }
        return r;
    }
    void text_here(std::vector<Node>& r)
    {
        Node t { Node::text };
        t.str = words(true);
        // directly behind a directive, these would continue it
        if (!r.empty() && r.back().kind == Node::directive) {
            const char c = t.str[0];
            const char before = out.back();
            if (refbmd::letter(c) || refbmd::digit(c) || c == '[' || c == '{')
                if (!refbmd::space(before) && before != '/')
                    t.str.insert(0, ".");
        }
        out += t.str;
        r.push_back(t);
    }

    std::vector<Node> content_(int depth)
    {
        std::vector<Node> r;
        any_blank();
        int n = many(s.weighted({ 1, 5, 4, 2, 1 }));
        if (n > 8)
            depth = std::min(depth, 1);
        for (; n > 0; --n) {
            if (depth > 0 && s.chance(35)) {
                r.push_back(directive(Env::content, depth));
                any_blank();
                // behind a directive without arguments or block, text would continue it
            }
            else {
                if (!out.empty() && out.back() != '{' && !refbmd::space(out.back()))
                    out += " ";
                Node p { Node::paragraph };
                p.children = elements(depth);
                r.push_back(std::move(p));
                if (n > 1)
                    break_();
                else
                    any_blank();
            }
        }
        return r;
    }
};

/// Text made of pieces which matter to the grammar.
inline std::string soup(Src& s, int max_pieces)
{
    std::string t;
    for (int n = s.upto(max_pieces); n > 0; --n) {
        switch (s.weighted({ 6, 6, 4, 4, 4, 3, 2, 2, 2 })) {
        case 0: t += s.pick({ "a", "b", "word", "x y", ".", "0" }); break;
        case 1: {
            auto it = refbmd::directives().begin();
            std::advance(it, s.upto(int(refbmd::directives().size()) - 1));
            t += "\\" + it->first;
            break;
        }
        case 2: t += "{"; break;
        case 3: t += "}"; break;
        case 4: t += s.pick({ " ", "\n", "\n\n", "\t", "\r", "\n \n" }); break;
        case 5:
            t += s.pick({ "[", "]", "[]", "[x=1]", "[x=y]", "=", ",", "x=1", "[a=0x1F, b=q]", "[lang=c]",
                          "[arch=arm]", "[ext=y]", "[ext=1]" });
            break;
        case 6:
            t += s.pick({ "//", "/*", "*/", "/* c */", "// c\n", "/", "*", "/**/", "/*}*/", "//{\n" });
            break;
        case 7: t += s.pick({ "\\", "\\\\", "\\{", "\\}", "\\x", "\\1", "\\[", "\\zz" }); break;
        default:
            t += s.pick({ "0b1", "0b", "0x", "017", "08", "9223372036854775807", "9223372036854775808",
                          "1a", "_", "<", "&", "\"", "\xff", "\xc3\xa4" });
        }
    }
    return t;
}

/// Small edits of a text.
inline std::string mutate(Src& s, std::string t)
{
    for (int n = 1 + s.weighted({ 5, 2, 1 }); n > 0; --n) {
        if (t.empty())
            return soup(s, 3);
        const std::size_t at = s.draw32(std::uint32_t(t.size()));
        switch (s.weighted({ 4, 4, 2, 2 })) {
        case 0: t.erase(at, 1 + s.weighted({ 5, 1, 1 })); break;
        case 1: t.insert(at, soup(s, 2)); break;
        case 2: t[at] = s.pick_char("{}[]\\/*\n =,a1"); break;
        default: {
            const auto from = s.draw32(std::uint32_t(t.size()));
            t.insert(at, t.substr(from, s.draw32(12)));
        }
        }
    }
    return t;
}

} // namespace gendoc
#endif
