// A strict reader of HTML text, and the HTML a document stands for.
#ifndef VERIF_HTML_HPP
#define VERIF_HTML_HPP
#include <map>
#include <memory_resource>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <vector>

#include "bmd/fwd.hpp"
#include "bmd/html/doc_to_html.hpp"
#include "bmd/html/html_writer.hpp"
#include "bmd/html/token_consumer.hpp"
#include "bmd/parsing/ast.hpp"
#include "bmd/parsing/parse.hpp"

#include "ref_bmd.hpp"
#include "ref_lex.hpp"

namespace html {

struct Item {
    enum Kind { open, text, close } kind;
    std::string name; // tag
    std::map<std::string, std::string> attributes;
    std::string str; // text, decoded
    bool words = false; // text whose white space is not significant, wherever it is
};

struct Malformed {
    std::string why;
    std::size_t at;
};

inline bool is_void(std::string_view tag)
{
    return tag == "br" || tag == "hr" || tag == "link" || tag == "img" || tag == "meta";
}

/// Reads HTML, insisting on proper nesting, closed elements and escaped text.
class Reader {
    std::string_view s;
    std::size_t at = 0;

    [[noreturn]] void bad(std::string why) const { throw Malformed { std::move(why), at }; }
    static bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
    static bool name_char(char c)
    {
        return letter(c) || (c >= '0' && c <= '9') || c == '-' || c == '_';
    }
    static bool space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f'; }
    char peek() const { return at < s.size() ? s[at] : '\0'; }

    std::string reference()
    {
        const auto semi = s.find(';', at);
        if (semi == s.npos)
            bad("unescaped &");
        const auto name = s.substr(at + 1, semi - at - 1);
        const std::pair<std::string_view, const char*> known[] {
            { "amp", "&" },  { "lt", "<" },   { "gt", ">" },   { "quot", "\"" }, { "apos", "'" },
            { "#39", "'" },  { "#34", "\"" }, { "#38", "&" },  { "#60", "<" },   { "#62", ">" },
            { "#x27", "'" }, { "#x22", "\"" }, { "#x26", "&" }, { "#x3C", "<" },  { "#x3E", ">" },
            { "#x3c", "<" }, { "#x3e", ">" }
        };
        for (auto& [n, c] : known)
            if (n == name) {
                at = semi + 1;
                return c;
            }
        bad("unescaped & or unknown reference");
    }

    std::string name()
    {
        std::string r;
        if (!letter(peek()) && peek() != '_')
            bad("name expected");
        while (at < s.size() && name_char(s[at]))
            r += s[at++];
        return r;
    }

public:
    std::vector<Item> items;

    explicit Reader(std::string_view text, bool document = true)
        : s(text)
    {
        if (document) {
            const std::string_view doctype = "<!DOCTYPE html>";
            if (!s.starts_with(doctype))
                bad("no doctype");
            at = doctype.size();
        }
        std::vector<std::string> stack;
        while (at < s.size()) {
            if (s[at] != '<') {
                if (items.empty() || items.back().kind != Item::text)
                    items.push_back({ Item::text });
                if (s[at] == '&')
                    items.back().str += reference();
                else
                    items.back().str += s[at++];
                continue;
            }
            ++at;
            if (peek() == '/') {
                ++at;
                const auto n = name();
                if (peek() != '>')
                    bad("malformed closing tag");
                ++at;
                if (stack.empty() || stack.back() != n)
                    bad("closing tag " + n + " does not match " + (stack.empty() ? "anything" : stack.back()));
                stack.pop_back();
                items.push_back({ Item::close, n });
                continue;
            }
            Item tag { Item::open };
            tag.name = name();
            bool self_closing = false;
            while (true) {
                bool any_space = false;
                while (space(peek()))
                    ++at, any_space = true;
                if (peek() == '>') {
                    ++at;
                    break;
                }
                if (peek() == '/') {
                    ++at;
                    if (peek() != '>')
                        bad("stray slash in tag");
                    ++at;
                    self_closing = true;
                    break;
                }
                if (!any_space)
                    bad("space expected between attributes");
                const auto key = name();
                std::string value;
                if (peek() == '=') {
                    ++at;
                    if (peek() == '"' || peek() == '\'') {
                        const char q = s[at++];
                        while (at < s.size() && s[at] != q) {
                            if (s[at] == '&')
                                value += reference();
                            else
                                value += s[at++];
                        }
                        if (at >= s.size())
                            bad("unterminated attribute");
                        ++at;
                    }
                    else {
                        while (at < s.size() && !space(s[at]) && s[at] != '>') {
                            if (std::string_view("\"'`=<").find(s[at]) != std::string_view::npos)
                                bad("unquoted attribute value contains a special character");
                            if (s[at] == '&')
                                value += reference();
                            else
                                value += s[at++];
                        }
                        if (value.empty())
                            bad("empty unquoted value");
                    }
                }
                if (!tag.attributes.emplace(key, value).second)
                    bad("duplicate attribute");
            }
            if (self_closing && !is_void(tag.name))
                bad("element " + tag.name + " cannot be self-closing");
            items.push_back(tag);
            if (is_void(tag.name))
                items.push_back({ Item::close, tag.name });
            else
                stack.push_back(tag.name);
        }
        if (!stack.empty())
            bad("element " + stack.back() + " is not closed");
    }
};

inline bool blank_char(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }

inline std::string trim(std::string_view t)
{
    while (!t.empty() && blank_char(t.front()))
        t.remove_prefix(1);
    while (!t.empty() && blank_char(t.back()))
        t.remove_suffix(1);
    return std::string(t);
}

inline bool is_block(std::string_view tag)
{
    static const std::set<std::string, std::less<>> names { "html", "head", "body", "p",  "ul", "ol", "li",
                                                            "div",  "pre",  "h1",   "h2", "h3", "h4", "h5",
                                                            "h6",   "hr",   "link", "title" };
    return names.contains(tag);
}

inline std::string collapse(std::string_view t)
{
    std::string r;
    for (char c : t)
        if (!blank_char(c))
            r += c;
        else if (r.empty() || r.back() != ' ')
            r += ' ';
    return r;
}

/// One line per tag or text: runs of white space collapse to one space, and vanish next to the tags
/// of block elements; within code, only the surrounding white space is ignored. Highlighting is dropped.
inline std::vector<std::string> normal_form(const std::vector<Item>& items)
{
    struct Out {
        std::string line;
        bool is_text;
        bool block = false;
    };
    std::vector<Out> out;
    std::string text;
    int verbatim = 0;
    bool words = false;
    const auto flush = [&](bool block_follows) {
        std::string t = text;
        text.clear();
        if (verbatim != 0)
            t = trim(t);
        else {
            t = collapse(t);
            if ((out.empty() || (!out.back().is_text && out.back().block)) && !t.empty() && t.front() == ' ')
                t.erase(0, 1);
            if (block_follows && !t.empty() && t.back() == ' ')
                t.pop_back();
        }
        if (!t.empty())
            out.push_back({ (words ? "words [" : "text [") + (words ? collapse(t) : t) + "]", true });
        words = false;
    };
    for (auto& i : items) {
        if (i.kind == Item::text) {
            text += i.str;
            words |= i.words;
            continue;
        }
        if (i.name.starts_with("c-"))
            continue;
        flush(is_block(i.name));
        std::string line = (i.kind == Item::open ? "<" : "</") + i.name;
        for (auto& [k, v] : i.attributes)
            line += " " + k + "=[" + v + "]";
        out.push_back({ line, false, is_block(i.name) });
        if (i.name == "pre" || i.name == "code")
            verbatim += i.kind == Item::open ? 1 : -1;
    }
    flush(true);
    std::vector<std::string> r;
    for (auto& o : out)
        r.push_back(o.line);
    return r;
}

/// Whether the found normal form is the expected one.
inline bool same(const std::vector<std::string>& expected, const std::vector<std::string>& found)
{
    if (expected.size() != found.size())
        return false;
    for (std::size_t i = 0; i < found.size(); ++i)
        if (found[i] != expected[i]
            && !(expected[i].starts_with("words [") && found[i].starts_with("text [")
                 && expected[i].substr(5) == collapse(found[i].substr(4))))
            return false;
    return true;
}

inline std::string join(const std::vector<std::string>& lines)
{
    std::string r;
    for (auto& l : lines)
        r += l + "\n";
    return r;
}

// ---- what a document stands for -------------------------------------------------------------------

struct Fails {
    std::string why;
    std::size_t begin, end; // of the directive, argument or code at fault
};

class Meaning {
    std::string_view src;
    bool at_start = true;
    std::vector<Item> out;

    void open(std::string tag, std::map<std::string, std::string> attributes = {})
    {
        out.push_back({ Item::open, std::move(tag), std::move(attributes) });
    }
    void close(std::string tag) { out.push_back({ Item::close, std::move(tag) }); }
    void text(std::string t, bool words = false)
    {
        Item i { Item::text };
        i.str = std::move(t);
        i.words = words;
        out.push_back(i);
    }

    static std::map<std::string, std::string> attributes(const refbmd::Node& d)
    {
        std::map<std::string, std::string> r;
        for (auto& [k, a] : d.args)
            r[k] = a.is_number ? std::to_string(a.number) : a.id;
        return r;
    }

    static std::string tag_of(const std::string& id)
    {
        return id == "item" ? "li" : id == "note" ? "div" : id;
    }

    void directive(const refbmd::Node& d)
    {
        const bool was_at_start = at_start;
        at_start = false;
        const std::string body = d.children.empty() ? "" : d.children[0].str;
        if (d.id == "meta") {
            if (!was_at_start)
                throw Fails { "meta_not_at_start_of_file", d.begin, d.end };
            std::set<std::string> seen;
            const refbmd::Node* title = nullptr;
            for (auto& entry : d.children) {
                if (!seen.insert(entry.id).second)
                    throw Fails { "duplicate_meta_entry", entry.begin, entry.end };
                if (entry.id == "title")
                    title = &entry;
            }
            if (title) {
                open("h1", attributes(*title));
                if (!title->children.empty())
                    text(refbmd::unescape(title->children[0].str));
                close("h1");
            }
        }
        else if (d.id == "c" || d.id == "codeblock") {
            std::string lang = "bms";
            std::size_t lang_end = d.end;
            if (auto a = d.args.find("lang"); a != d.args.end()) {
                if (a->second.is_number)
                    throw Fails { "number_attribute_not_allowed", d.begin, a->second.begin };
                lang = a->second.id;
                lang_end = a->second.begin;
            }
            static const std::set<std::string> known { "bms", "bmd",   "c",         "cxx",  "cpp",
                                                       "rust", "plain", "plaintext", "text", "raw" };
            if (!known.contains(lang))
                throw Fails { "invalid_language", d.begin, lang_end };
            if (lang == "bms" && !ref::lex(body).ok)
                throw Fails { "code_tokenization_failure", d.begin, d.end };
            const std::string tag = d.id == "c" ? "code" : "pre";
            open(tag);
            text(body);
            close(tag);
        }
        else if (d.id == "instruction") {
            bool link = true;
            if (auto a = d.args.find("arch"); a != d.args.end()) {
                if (a->second.is_number)
                    throw Fails { "number_attribute_not_allowed", d.begin, a->second.begin };
                static const std::map<std::string, bool> known {
                    { "x86", true },    { "x86_64", true },    { "arm", false },   { "risc_v", false },
                    { "power", false }, { "power_pc", false }, { "sparc", false }, { "mips", false },
                    { "ibm_z", false }
                };
                const auto k = known.find(a->second.id);
                if (k == known.end())
                    throw Fails { "invalid_architecture", d.begin, a->second.begin };
                link = k->second;
            }
            std::string extension;
            if (auto a = d.args.find("ext"); a != d.args.end()) {
                if (a->second.is_number)
                    throw Fails { "number_attribute_not_allowed", d.begin, a->second.begin };
                extension = a->second.id;
            }
            const auto name = refbmd::unescape(body);
            if (link)
                open("a", { { "href", "https://www.felixcloutier.com/x86/" + name } });
            open("code");
            text(name, true);
            close("code");
            if (link)
                close("a");
            if (!extension.empty()) {
                open("sup");
                text(extension);
                close("sup");
            }
        }
        else {
            const auto tag = tag_of(d.id);
            open(tag, attributes(d));
            if (d.id == "note")
                content(d.children);
            else
                elements(d.children);
            close(tag);
        }
    }

    void elements(const std::vector<refbmd::Node>& nodes)
    {
        for (std::size_t i = 0; i < nodes.size(); ++i) {
            if (i != 0 && nodes[i - 1].end != nodes[i].begin)
                text(" ");
            if (nodes[i].kind == refbmd::Node::text) {
                at_start = false;
                text(refbmd::unescape(nodes[i].str));
            }
            else
                directive(nodes[i]);
        }
    }

    void content(const std::vector<refbmd::Node>& nodes)
    {
        for (auto& n : nodes) {
            if (n.kind == refbmd::Node::directive) {
                directive(n);
                continue;
            }
            open("p");
            elements(n.children);
            close("p");
        }
    }

public:
    explicit Meaning(std::string_view source)
        : src(source)
    {
    }
    std::vector<Item> document(const std::vector<refbmd::Node>& nodes, const std::vector<std::string>& sheets)
    {
        open("html");
        open("head");
        for (auto& sheet : sheets) {
            open("link", { { "rel", "stylesheet" }, { "href", sheet } });
            close("link");
        }
        close("head");
        open("body");
        content(nodes);
        close("body");
        close("html");
        return out;
    }
};

// ---- running the converter ------------------------------------------------------------------------

struct Token {
    bit_manipulation::bmd::HTML_Token_Type type;
    std::string text;
};

struct Collect final : bit_manipulation::bmd::HTML_Token_Consumer {
    std::string text;
    std::vector<Token> tokens;
    bool put(std::string_view s, bit_manipulation::bmd::HTML_Token_Type t)
    {
        text += s;
        tokens.push_back({ t, std::string(s) });
        return true;
    }
    bool write(char c, bit_manipulation::bmd::HTML_Token_Type t) override { return put({ &c, 1 }, t); }
    bool write(char c, bit_manipulation::Size n, bit_manipulation::bmd::HTML_Token_Type t) override
    {
        return put(std::string(n, c), t);
    }
    bool write(std::string_view s, bit_manipulation::bmd::HTML_Token_Type t) override { return put(s, t); }
};

inline std::string error_name(bit_manipulation::bmd::Document_Error_Code c)
{
    using enum bit_manipulation::bmd::Document_Error_Code;
    switch (c) {
    case directive_not_allowed: return "directive_not_allowed";
    case meta_not_at_start_of_file: return "meta_not_at_start_of_file";
    case writer_misuse: return "writer_misuse";
    case duplicate_meta_entry: return "duplicate_meta_entry";
    case invalid_language: return "invalid_language";
    case invalid_architecture: return "invalid_architecture";
    case number_attribute_not_allowed: return "number_attribute_not_allowed";
    case code_tokenization_failure: return "code_tokenization_failure";
    }
    return "?";
}

struct Conversion {
    bool parsed = false;
    bool ok = false;
    std::string error;
    bit_manipulation::Local_Source_Position error_pos {};
    std::string text;
    std::vector<Token> tokens;
};

inline Conversion convert(std::string_view source, std::size_t indent, const std::vector<std::string>& sheets)
{
    namespace bmd = bit_manipulation::bmd;
    Conversion r;
    std::vector<char> heap(source.begin(), source.end());
    heap.shrink_to_fit();
    std::pmr::monotonic_buffer_resource memory;
    auto doc = bmd::parse({ heap.data(), heap.size() }, &memory);
    if (!doc) {
        r.error = "parse error";
        r.error_pos = doc.error().pos;
        return r;
    }
    r.parsed = true;
    const std::vector<std::string_view> views(sheets.begin(), sheets.end());
    Collect out;
    auto result = bmd::doc_to_html(out, *doc, { indent, views }, &memory);
    r.ok = result.has_value();
    if (!result) {
        r.error = error_name(result.error().code);
        r.error_pos = result.error().pos;
    }
    r.text = std::move(out.text);
    r.tokens = std::move(out.tokens);
    return r;
}

} // namespace html
#endif
