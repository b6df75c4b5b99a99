// Reference reading of BMD documents: written from grammar.ebnf and the documented content and
// environment rules of directives (directive_type.hpp), working on offsets of the whole text.
#ifndef VERIF_REF_BMD_HPP
#define VERIF_REF_BMD_HPP
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <vector>

namespace refbmd {

struct Arg {
    bool is_number = false;
    std::uint64_t number = 0;
    std::string base; // "bin", "oct", "dec", "hex"
    std::string id;
    std::size_t begin = 0, length = 0; // of the value
};

struct Node {
    enum Kind { paragraph, directive, text } kind;
    std::size_t begin = 0, end = 0;
    std::string id;                  // directive
    std::map<std::string, Arg> args; // directive
    bool has_block = false;
    std::vector<Node> children; // paragraph; block of a directive (empty block == no children)
    std::string str;            // text
};

enum class Content { nothing, text_span, span, block, meta, list, raw };
enum class Env { paragraph, content, meta, list };

struct Kind_Info {
    Content content;
    Env env;
};

inline const std::map<std::string, Kind_Info, std::less<>>& directives()
{
    static const std::map<std::string, Kind_Info, std::less<>> table {
        { "b", { Content::span, Env::paragraph } },
        { "bmsfun", { Content::text_span, Env::meta } },
        { "br", { Content::nothing, Env::paragraph } },
        { "c", { Content::raw, Env::paragraph } },
        { "cequiv", { Content::text_span, Env::meta } },
        { "codeblock", { Content::raw, Env::content } },
        { "del", { Content::span, Env::paragraph } },
        { "h1", { Content::span, Env::content } },
        { "h2", { Content::span, Env::content } },
        { "h3", { Content::span, Env::content } },
        { "h4", { Content::span, Env::content } },
        { "h5", { Content::span, Env::content } },
        { "h6", { Content::span, Env::content } },
        { "hr", { Content::nothing, Env::content } },
        { "i", { Content::span, Env::paragraph } },
        { "instruction", { Content::text_span, Env::paragraph } },
        { "item", { Content::span, Env::list } },
        { "kbd", { Content::span, Env::paragraph } },
        { "meta", { Content::meta, Env::content } },
        { "note", { Content::block, Env::content } },
        { "ol", { Content::list, Env::content } },
        { "q", { Content::span, Env::paragraph } },
        { "s", { Content::span, Env::paragraph } },
        { "sub", { Content::span, Env::paragraph } },
        { "sup", { Content::span, Env::paragraph } },
        { "title", { Content::text_span, Env::meta } },
        { "tt", { Content::span, Env::paragraph } },
        { "u", { Content::span, Env::paragraph } },
        { "ul", { Content::list, Env::content } },
    };
    return table;
}

inline bool allowed(Content c, Env e)
{
    switch (c) {
    case Content::span: return e == Env::paragraph;
    case Content::block: return e == Env::paragraph || e == Env::content;
    case Content::meta: return e == Env::meta;
    case Content::list: return e == Env::list;
    default: return false;
    }
}

/// Why a text is no document: the rule that is broken, the codes which name that rule, and the part
/// of the text which breaks it.
struct Reject {
    std::string why;
    std::size_t at = 0, end = 0;
    std::set<std::string> codes {};
};

inline bool space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
inline bool digit(char c) { return c >= '0' && c <= '9'; }
inline bool letter(char c)
{
    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
}
inline bool brace_or_backslash(char c) { return c == '\\' || c == '{' || c == '}'; }

class Reader {
    std::string_view s;

    [[noreturn]] void reject(std::string why, std::size_t at, std::size_t end, std::set<std::string> codes) const
    {
        throw Reject { std::move(why), at, end, std::move(codes) };
    }
    /// Something else than what has to follow is at `at`.
    [[noreturn]] void unexpected(std::string why, std::size_t at, std::size_t end) const
    {
        reject(std::move(why), at, at,
               at == s.size() ? std::set<std::string> { "unexpected_eof" }
                   : at >= end ? std::set<std::string> { "unexpected_eof", "unexpected_character" }
                               : std::set<std::string> { "unexpected_character" });
    }
    bool starts(std::size_t at, std::size_t end, std::string_view what) const
    {
        return s.substr(at, end - at).starts_with(what);
    }

    /// End of the comment starting at `at`, or `at` if there is none.
    std::size_t after_comment(std::size_t at, std::size_t end) const
    {
        if (starts(at, end, "//")) {
            const auto nl = s.find('\n', at);
            return nl == s.npos || nl >= end ? end : nl + 1;
        }
        if (starts(at, end, "/*")) {
            const auto close = s.find("*/", at + 2);
            if (close == s.npos || close + 2 > end)
                reject("unterminated comment", at, end, { "unterminated_comment" });
            return close + 2;
        }
        return at;
    }

    struct Blank {
        std::size_t end;
        bool breaks = false; // contains an empty line
    };
    /// The longest sequence of white space and comments.
    Blank blank(std::size_t at, std::size_t end) const
    {
        Blank r { at };
        // a line break followed by only white space up to the next line break is an empty line
        bool line_empty = false;
        while (r.end < end) {
            const auto next = after_comment(r.end, end);
            if (next != r.end) {
                line_empty = s[r.end + 1] == '/' && s[next - 1] == '\n';
                r.end = next;
            }
            else if (space(s[r.end])) {
                if (s[r.end] == '\n') {
                    r.breaks |= line_empty;
                    line_empty = true;
                }
                ++r.end;
            }
            else
                break;
        }
        return r;
    }

    bool directive_at(std::size_t at, std::size_t end) const
    {
        return at < end && s[at] == '\\' && !(at + 1 < end && brace_or_backslash(s[at + 1]));
    }

    /// Text up to a directive, comment, empty line or the end, without trailing white space.
    std::size_t text_end(std::size_t at, std::size_t end) const
    {
        std::size_t last = at;
        while (at < end) {
            if (space(s[at])) {
                std::size_t lines = 0;
                while (at < end && space(s[at]))
                    lines += s[at++] == '\n';
                if (lines > 1)
                    break;
                continue;
            }
            if (directive_at(at, end) || starts(at, end, "//") || starts(at, end, "/*"))
                break;
            at += s[at] == '\\' ? 2 : 1;
            last = at;
        }
        return last;
    }

    Node text(std::size_t& at, std::size_t end) const
    {
        Node t { Node::text };
        t.begin = at;
        t.end = at = text_end(at, end);
        t.str = s.substr(t.begin, t.end - t.begin);
        return t;
    }

    /// `at` is behind the opening brace; yields the offset of the closing one.
    std::size_t closing_brace(std::size_t at, std::size_t end) const
    {
        const auto inner = at;
        int depth = 0;
        while (at < end) {
            if (s[at] == '\\' && at + 1 < end && brace_or_backslash(s[at + 1])) {
                at += 2;
                continue;
            }
            const auto next = after_comment(at, end);
            if (next != at) {
                if (s[at + 1] == '/' && s[next - 1] != '\n')
                    reject("comment swallows the end of the block", at, end, { "unterminated_comment" });
                at = next;
                continue;
            }
            if (s[at] == '{')
                ++depth;
            if (s[at] == '}' && depth-- == 0)
                return at;
            ++at;
        }
        reject("no closing brace", inner - 1, end, { "unexpected_eof" });
    }

    std::size_t identifier(std::size_t at, std::size_t end) const
    {
        if (at >= end || !letter(s[at]))
            unexpected("identifier expected", at, end);
        while (at < end && (letter(s[at]) || digit(s[at])))
            ++at;
        return at;
    }

    std::size_t word_break(std::size_t at, std::size_t end) const
    {
        const auto b = blank(at, end);
        if (b.breaks)
            reject("empty line in arguments", at, b.end, { "unexpected_character", "unexpected_eof" });
        return b.end;
    }

    Arg value(std::size_t& at, std::size_t end) const
    {
        Arg a;
        a.begin = at;
        if (at < end && digit(s[at])) {
            std::size_t stop = at;
            while (stop < end && (letter(s[stop]) || digit(s[stop])))
                ++stop;
            const std::string_view word = s.substr(at, stop - at);
            std::string_view digits = word;
            unsigned base = 10;
            a.base = "dec";
            if (word.starts_with("0b"))
                base = 2, a.base = "bin", digits.remove_prefix(2);
            else if (word.starts_with("0x"))
                base = 16, a.base = "hex", digits.remove_prefix(2);
            else if (word[0] == '0' && word.size() > 1)
                base = 8, a.base = "oct";
            const auto malformed = [&](std::string why, std::set<std::string> codes) { reject(std::move(why), at, stop, std::move(codes)); };
            if (digits.empty())
                malformed("no digits", { "invalid_integer_literal" });
            unsigned __int128 v = 0;
            bool too_large = false;
            for (char ch : digits) {
                const unsigned d = digit(ch) ? unsigned(ch - '0')
                    : ch >= 'a' && ch <= 'f' ? unsigned(ch - 'a' + 10)
                    : ch >= 'A' && ch <= 'F' ? unsigned(ch - 'A' + 10)
                                             : 99;
                if (d >= base)
                    malformed("malformed integer", base == 10 ? std::set<std::string> { "integer_suffix" } : std::set<std::string> { "integer_suffix", "invalid_integer_literal" });
                v = too_large ? 0 : v * base + d;
                if (v > INT64_MAX)
                    too_large = true;
            }
            if (too_large)
                malformed("integer too large", { "invalid_integer_literal" });
            a.is_number = true;
            a.number = std::uint64_t(v);
            at = stop;
        }
        else {
            const auto stop = identifier(at, end);
            a.id = s.substr(at, stop - at);
            at = stop;
        }
        a.length = at - a.begin;
        return a;
    }

    Node directive(std::size_t& at, std::size_t end, Content context) const
    {
        Node d { Node::directive };
        d.begin = at;
        const auto id_end = identifier(at + 1, end);
        d.id = s.substr(at + 1, id_end - at - 1);
        const auto info = directives().find(d.id);
        if (info == directives().end())
            reject("unknown directive " + d.id, at, id_end, { "invalid_directive" });
        if (!allowed(context, info->second.env))
            reject("directive not allowed here: " + d.id, at, id_end, { "directive_not_allowed" });
        at = id_end;
        if (at < end && s[at] == '[') {
            ++at;
            while (true) {
                at = word_break(at, end);
                if (at < end && s[at] == ']')
                    break;
                const auto name_end = identifier(at, end);
                const std::string name { s.substr(at, name_end - at) };
                at = word_break(name_end, end);
                if (at >= end || s[at] != '=')
                    unexpected("= expected", at, end);
                at = word_break(at + 1, end);
                if (!d.args.emplace(name, value(at, end)).second)
                    reject("duplicate argument", name_end - name.size(), at, { "duplicate_argument" });
                at = word_break(at, end);
                if (at < end && s[at] == ',')
                    ++at;
            }
            ++at;
        }
        if (at < end && s[at] == '{') {
            const auto inner = at + 1;
            if (info->second.content == Content::nothing) {
                const auto b = blank(inner, end);
                if (b.end < end && s[b.end] != '}')
                    reject("must be empty", inner, b.end, { "directive_must_be_empty" });
                if (b.end >= end)
                    reject("no closing brace", inner - 1, b.end, { "directive_must_be_empty", "unexpected_eof" });
            }
            const auto close = closing_brace(inner, end);
            d.has_block = true;
            d.children = block(inner, close, info->second.content);
            at = close + 1;
        }
        d.end = at;
        return d;
    }

    std::vector<Node> block(std::size_t at, std::size_t end, Content content) const
    {
        std::vector<Node> r;
        switch (content) {
        case Content::raw:
            if (at != end) {
                Node t { Node::text };
                t.begin = at;
                t.end = end;
                t.str = s.substr(at, end - at);
                r.push_back(t);
            }
            return r;
        case Content::nothing:
            if (blank(at, end).end != end)
                reject("must be empty", at, end, { "directive_must_be_empty" });
            return r;
        case Content::meta:
        case Content::list:
            while ((at = blank(at, end).end) < end) {
                if (!directive_at(at, end))
                    reject("text between directives", at, at, { "text_in_directive_list" });
                r.push_back(directive(at, end, content));
            }
            return r;
        case Content::span:
        case Content::text_span: {
            Node joined { Node::text };
            while (true) {
                const auto b = blank(at, end);
                if (b.breaks)
                    reject("empty line within a span", at, b.end, { "paragraph_break_in_span" });
                if ((at = b.end) == end)
                    break;
                if (directive_at(at, end)) {
                    if (content == Content::text_span)
                        reject("directive in text", at, at, { "directive_in_text_span" });
                    r.push_back(directive(at, end, content));
                }
                else
                    r.push_back(text(at, end));
            }
            if (content == Content::text_span && !r.empty()) {
                joined.begin = r.front().begin;
                joined.end = r.back().end;
                for (auto& t : r)
                    joined.str += (joined.str.empty() ? "" : " ") + t.str;
                r = { joined };
            }
            return r;
        }
        case Content::block: return this->content(at, end);
        }
        return r;
    }

    std::vector<Node> content(std::size_t at, std::size_t end) const
    {
        std::vector<Node> r;
        Node par { Node::paragraph };
        const auto finish = [&] {
            if (par.children.empty())
                return;
            par.begin = par.children.front().begin;
            par.end = par.children.back().end;
            r.push_back(std::move(par));
            par = { Node::paragraph };
        };
        at = blank(at, end).end;
        while (at < end) {
            if (directive_at(at, end)) {
                auto d = directive(at, end, Content::block);
                if (directives().find(d.id)->second.env == Env::content) {
                    finish();
                    r.push_back(std::move(d));
                }
                else
                    par.children.push_back(std::move(d));
            }
            else
                par.children.push_back(text(at, end));
            const auto b = blank(at, end);
            if (b.breaks)
                finish();
            at = b.end;
        }
        finish();
        return r;
    }

public:
    explicit Reader(std::string_view text)
        : s(text)
    {
    }
    std::vector<Node> document() const { return content(0, s.size()); }
};

struct Result {
    bool ok = false;
    std::vector<Node> content;
    std::string error;
    std::size_t error_at = 0;
    Reject reject {};
};

inline Result read(std::string_view text)
{
    try {
        return { true, Reader(text).document(), {}, 0 };
    } catch (const Reject& r) {
        return { false, {}, r.why, r.at, r };
    }
}

/// Text with escape sequences replaced.
inline std::string unescape(std::string_view t)
{
    std::string r;
    for (std::size_t i = 0; i < t.size(); ++i) {
        if (t[i] == '\\' && i + 1 < t.size() && brace_or_backslash(t[i + 1]))
            ++i;
        r += t[i];
    }
    return r;
}

struct Position {
    std::size_t line = 0, column = 0;
};

inline Position position(std::string_view s, std::size_t offset)
{
    Position p;
    for (std::size_t i = 0; i < offset; ++i) {
        if (s[i] == '\n')
            ++p.line, p.column = 0;
        else if (s[i] == '\r')
            p.column = 0;
        else
            p.column += s[i] == '\t' ? 4 : 1;
    }
    return p;
}

} // namespace refbmd
#endif
