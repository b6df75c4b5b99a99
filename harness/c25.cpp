#include <optional>

#include "common/assert.hpp"
#include "html.hpp"
#include "pbt.hpp"

using pbt::Ctx;
using pbt::Src;
namespace bmd = bit_manipulation::bmd;
using Style = bmd::Formatting_Style;
using Type = bmd::HTML_Token_Type;

namespace {

// What the documentation of Formatting_Style and HTML_Writer says about the text.
struct Model {
    std::size_t width;
    std::vector<html::Token> tokens;
    std::string text;
    bool line_start = false;
    bool in_attributes = false;
    bool preamble = false;
    std::size_t indentation = 0;
    struct Open {
        std::string id;
        Style style;
    };
    std::vector<Open> open;
    bool slash_would_join = false;

    void put(Type t, std::string s)
    {
        if (s.empty())
            return;
        text += s;
        if (!tokens.empty() && tokens.back().type == t)
            tokens.back().text += s;
        else
            tokens.push_back({ t, std::move(s) });
    }
    void new_line()
    {
        put(Type::whitespace, "\n");
        line_start = true;
    }
    static bool own_line(Style st) { return st == Style::flat || st == Style::block; }
    void before(Style st)
    {
        if (own_line(st) && !line_start)
            new_line();
        if (line_start && st != Style::pre)
            put(Type::whitespace, std::string(indentation * width, ' '));
        line_start = false;
    }
    void after(Style st)
    {
        line_start = false;
        if (own_line(st))
            new_line();
    }
    void escaped(std::string_view s, Type t, bool attribute)
    {
        for (char ch : s) {
            std::string r(1, ch);
            if (ch == '&')
                r = "&amp;";
            else if (!attribute && ch == '<')
                r = "&lt;";
            else if (!attribute && ch == '>')
                r = "&gt;";
            else if (attribute && ch == '"')
                r = "&quot;";
            put(t, r);
        }
    }
    void start(std::string_view id, Style st)
    {
        before(st);
        put(Type::tag_bracket, "<");
        put(Type::tag_identifier, std::string(id));
    }
    void opened(const Open& o)
    {
        after(o.style);
        if (o.style == Style::block)
            ++indentation;
        open.push_back(o);
    }
    void close()
    {
        const auto o = open.back();
        open.pop_back();
        if (o.style == Style::block)
            --indentation;
        before(o.style);
        put(Type::tag_bracket, "</");
        put(Type::tag_identifier, o.id);
        put(Type::tag_bracket, ">");
        after(o.style);
    }
};

Style any_style(Src& s)
{
    return std::vector<Style> { Style::in_line, Style::block, Style::flat, Style::pre }[s.weighted({ 4, 4, 2, 2 })];
}

const char* style_name(Style s)
{
    switch (s) {
    case Style::pre: return "pre";
    case Style::in_line: return "in_line";
    case Style::flat: return "flat";
    case Style::block: return "block";
    }
    return "?";
}

std::string identifier(Src& s)
{
    if (s.chance(70))
        return std::string(s.pick({ "p", "div", "b", "ul", "h-block", "code", "x1", "_y", "A", "my-long-tag" }));
    std::string r(1, s.pick_char("abzAZ_"));
    for (int n = s.upto(5); n-- > 0;)
        r += s.pick_char("abzAZ_019-");
    return r;
}

// The only elements which HTML allows to be empty tags.
std::string empty_identifier(Src& s)
{
    return std::string(s.pick({ "br", "hr", "img", "link", "meta" }));
}

std::string bad_identifier(Src& s)
{
    std::string r = identifier(s);
    const int at = s.upto(int(r.size()));
    switch (s.upto(2)) {
    case 0: return "";
    case 1: return std::string(1, s.pick_char("0123456789")) + r;
    default: r.insert(std::size_t(at), 1, s.pick_char(" <>/=\"'&.:\n\t!\x80\0"
                                                      "\x7f@[`{+"));
    }
    return r;
}

std::string any_text(Src& s, std::string_view chars, int most)
{
    std::string r;
    for (int n = s.upto(most); n-- > 0;)
        r += s.chance(1) ? char(s.upto(255)) : s.pick_char(chars);
    if (chars.find('&') != chars.npos && s.draw32(100) >= 96) // what looks like markup already
        r.insert(std::size_t(s.upto(int(r.size()))),
                 std::string(s.pick({ "&lt;", "&gt;", "&amp;", "&quot;", "&#38;", "<b>", "</b>", "<!--", "-->", "<br/>" })));
    if (s.draw32(100) == 99) { // rarely, a long text
        const std::string unit { s.pick_char(chars), s.pick_char(chars) };
        for (auto n = std::size_t(20 + s.upto(s.chance(20) ? 4000 : 400)); r.size() < n;)
            r += unit;
        r += s.pick_char(chars);
    }
    return r;
}

constexpr std::string_view text_chars = "abc <>&\"'=/;-!?.\t#x0";

void history(Src& s, Ctx& c)
{
    html::Collect out;
    const std::size_t width = std::size_t(s.pick(std::vector<int> { 4, 0, 1, 2, 3, 8 }));
    bmd::HTML_Writer w(out, width);
    Model m { width };
    std::string log = "indentation width " + std::to_string(width) + "\n";
    unsigned kinds = 0;
    auto note = [&](std::string what) {
        log += what + "\n";
        c.show(log);
    };
    auto compare = [&] {
        c.check(out.text == m.text, "the text is\n" + out.text + "\n---- expected:\n" + m.text);
        std::vector<html::Token> merged;
        for (auto& t : out.tokens) {
            if (t.text.empty())
                continue;
            if (!merged.empty() && merged.back().type == t.type)
                merged.back().text += t.text;
            else
                merged.push_back(t);
        }
        c.check(merged.size() == m.tokens.size(), "the kinds of the written tokens differ");
        for (std::size_t i = 0; i < merged.size(); ++i)
            c.check(merged[i].type == m.tokens[i].type && merged[i].text == m.tokens[i].text,
                    "'" + merged[i].text + "' is written as token type " + std::to_string(int(merged[i].type))
                        + ", not '" + m.tokens[i].text + "' as " + std::to_string(int(m.tokens[i].type)));
        if (w.is_done())
            c.check(m.preamble && m.open.empty() && !m.in_attributes,
                    "an incomplete document is reported as done");
    };
    auto refused = [&](const char* what, auto&& f) {
        bool thrown = false;
        try {
            f();
        } catch (const bit_manipulation::Assertion_Error&) {
            thrown = true;
        }
        note(std::string("misuse: ") + what);
        c.label("misuse");
        c.check(thrown, std::string("misuse is not reported: ") + what);
        compare();
    };
    compare();
    c.check(out.text.empty(), "the constructor writes");

    if (s.chance(4)) {
        const auto id = identifier(s);
        const auto st = any_style(s);
        switch (s.upto(5)) {
        case 0: return refused("tag before the preamble", [&] { w.begin_tag({ id, st }); });
        case 1: return refused("text before the preamble", [&] { w.write_inner_text("x", st); });
        case 2: return refused("end tag before the preamble", [&] { w.end_tag({ id, st }); });
        case 3: return refused("empty tag before the preamble", [&] { w.write_empty_tag({ id, st }); });
        case 4: return refused("white space before the preamble", [&] { w.write_whitespace(' ', 1); });
        case 5:
            return refused("tag with attributes before the preamble", [&] {
                auto a = w.begin_tag_with_attributes({ id, st });
                a.end();
            });
        }
    }
    note("preamble");
    c.check(&w.write_preamble() == &w, "the writer does not return itself");
    m.put(Type::tag_bracket, "<!");
    m.put(Type::preamble, "DOCTYPE html");
    m.put(Type::tag_bracket, ">");
    m.new_line();
    m.preamble = true;
    compare();

    int steps = s.upto(c.thorough ? 40 : 25);
    bool comments = false;
    int deep = s.chance(6) ? 6 + s.upto(14) : 0; // blocks in blocks at first
    for (; steps-- > 0 || deep > 0;) {
        const bool deeper = deep-- > 0;
        const int kind = deeper ? 0 : s.weighted({ 5, 5, 6, 3, 6, 3, 2, 2, 1 });
        kinds |= 1u << kind;
        const auto st = deeper ? Style::block : any_style(s);
        const std::string sn = style_name(st);
        switch (kind) {
        case 0: {
            const auto id = identifier(s);
            note("begin " + id + " " + sn);
            w.begin_tag({ id, st });
            m.start(id, st);
            m.put(Type::tag_bracket, ">");
            m.opened({ id, st });
            break;
        }
        case 1: {
            const bool empty = s.chance(35);
            const auto id = empty ? empty_identifier(s) : identifier(s);
            note("begin with attributes " + id + " " + sn);
            auto a = w.begin_tag_with_attributes({ id, st });
            m.start(id, st);
            m.in_attributes = true;
            m.slash_would_join = false;
            compare();
            // Attributes with the same name are for the user to avoid.
            std::set<std::string> used;
            for (int n = s.upto(3); n-- > 0;) {
                const auto key = identifier(s);
                if (!used.insert(key).second)
                    continue;
                const auto value = s.chance(25) ? std::string()
                    : s.chance(30)              ? identifier(s)
                                                : any_text(s, "abc <>&\"'=/;`\t\n\r\f.?-#", 6);
                note("  attribute " + key + " [" + value + "]");
                a.write_attribute(key, value);
                m.put(Type::whitespace, " ");
                m.put(Type::attribute_key, key);
                m.slash_would_join = false;
                if (!value.empty()) {
                    m.put(Type::attribute_equal, "=");
                    if (value.find_first_of("\"/'`=<>& \t\n\r\f") != value.npos) {
                        m.put(Type::attribute_quote, "\"");
                        m.escaped(value, Type::attribute_value, true);
                        m.put(Type::attribute_quote, "\"");
                    }
                    else {
                        m.put(Type::attribute_value, value);
                        m.slash_would_join = true;
                    }
                }
                compare();
            }
            if (s.chance(6)) {
                const auto id2 = identifier(s);
                // Every refusal leaves the tag open.
                switch (s.upto(7)) {
                case 0: refused("tag inside of a tag", [&] { w.begin_tag({ id2, st }); }); break;
                case 1: refused("text inside of a tag", [&] { w.write_inner_text("x", st); }); break;
                case 2: refused("end inside of a tag", [&] { w.end_tag({ id2, st }); }); break;
                case 3: refused("empty tag inside of a tag", [&] { w.write_empty_tag({ id2, st }); }); break;
                case 4: refused("white space inside of a tag", [&] { w.write_whitespace(' ', 1); }); break;
                case 5: refused("comment inside of a tag", [&] { w.write_comment_tag("x", st); }); break;
                case 6: refused("preamble inside of a tag", [&] { w.write_preamble(); }); break;
                case 7: {
                    const auto bad = bad_identifier(s);
                    refused("bad attribute key", [&] { a.write_attribute(bad, "x"); });
                    break;
                }
                }
            }
            if (empty) {
                note("  end empty");
                a.end_empty();
                if (m.slash_would_join)
                    m.put(Type::whitespace, " ");
                m.put(Type::tag_bracket, "/>");
                m.after(st);
            }
            else {
                note("  end attributes");
                a.end();
                m.put(Type::tag_bracket, ">");
                m.opened({ id, st });
            }
            m.in_attributes = false;
            break;
        }
        case 2:
            if (m.open.empty())
                continue;
            note("end " + m.open.back().id);
            {
                const auto o = m.open.back();
                w.end_tag({ o.id, o.style });
            }
            m.close();
            break;
        case 3: {
            const auto id = empty_identifier(s);
            note("empty " + id + " " + sn);
            w.write_empty_tag({ id, st });
            m.start(id, st);
            m.put(Type::tag_bracket, "/>");
            m.after(st);
            break;
        }
        case 4: {
            std::string text = any_text(s, text_chars, 10);
            if (st == Style::pre) {
                for (int n = s.upto(2); n-- > 0;)
                    text += "\n" + any_text(s, text_chars, 5);
                // Left open: whether such text ends a line.
                text += 'e';
                note("text pre [" + text + "]");
                const auto lines = w.write_inner_text(text, st);
                m.escaped(text, Type::inner_text, false);
                m.line_start = false;
                c.check(lines == 1, "pre text: the line count is " + std::to_string(lines));
                break;
            }
            for (int n = s.upto(2); n-- > 0;)
                text += "\n" + any_text(s, text_chars, 5);
            note("text " + sn + " [" + text + "]");
            const auto lines = w.write_inner_text(text, st);
            std::size_t expected = 0;
            for (std::size_t i = 0; i < text.size(); ++expected) {
                const auto nl = std::min(text.find('\n', i), text.size());
                m.before(st);
                m.escaped(std::string_view(text).substr(i, nl - i), Type::inner_text, false);
                if (nl < text.size())
                    m.new_line();
                i = nl + 1;
            }
            c.check(lines == expected,
                    "the line count is " + std::to_string(lines) + ", not " + std::to_string(expected));
            break;
        }
        case 5: {
            std::string comment = any_text(s, "abc <>&\"'-=\n ", 8);
            // HTML has no such comments.
            if (comment.starts_with('>') || comment.starts_with("->") || comment.find("--") != comment.npos
                || comment.ends_with('-'))
                comment = " " + std::string(1, char('a' + s.upto(5)));
            note("comment " + sn + " [" + comment + "]");
            w.write_comment_tag(comment, st);
            comments = true;
            m.before(st);
            m.put(Type::tag_bracket, "<!--");
            m.put(Type::comment, comment);
            m.put(Type::tag_bracket, "-->");
            m.after(st);
            break;
        }
        case 6: {
            const char ch = s.pick_char("  \t");
            const auto n = std::size_t(s.range(1, 4));
            note("white space");
            w.write_whitespace(ch, n);
            m.put(Type::whitespace, std::string(n, ch));
            m.line_start = false;
            break;
        }
        case 7: {
            if (m.line_start)
                continue;
            const bit_manipulation::Size gap = bit_manipulation::Size(s.upto(2));
            const bit_manipulation::Size begin = bit_manipulation::Size(s.upto(50));
            const bit_manipulation::Size len = bit_manipulation::Size(s.upto(9));
            note("source gap of " + std::to_string(gap));
            w.write_source_gap({ { 1, begin, begin }, len }, { { 1, begin + len + gap, begin + len + gap }, 3 });
            if (gap)
                m.put(Type::whitespace, " ");
            break;
        }
        case 8: {
            const auto bad = bad_identifier(s);
            switch (s.upto(8)) {
            case 0: refused("bad tag", [&] { w.begin_tag({ bad, st }); }); break;
            case 1: refused("bad empty tag", [&] { w.write_empty_tag({ bad, st }); }); break;
            case 2:
                refused("bad tag with attributes", [&] {
                    auto a = w.begin_tag_with_attributes({ bad, st });
                    a.end();
                });
                break;
            case 3:
                if (!m.open.empty())
                    refused("bad end tag", [&] { w.end_tag({ bad, m.open.back().style }); });
                else
                    refused("end tag without a tag", [&] { w.end_tag({ "p", st }); });
                break;
            case 4: refused("second preamble", [&] { w.write_preamble(); }); break;
            case 5: refused("comment that ends itself", [&] { w.write_comment_tag("a-->b", st); }); break;
            case 6: refused("white space that is not white", [&] { w.write_whitespace('x', 1); }); break;
            case 7: refused("negative source gap", [&] { w.write_source_gap({ { 1, 5, 5 }, 3 }, { { 1, 7, 7 }, 1 }); }); break;
            case 8: {
                // The writer of the attributes must be told about the end of the tag.
                bool thrown = false;
                try {
                    auto a = w.begin_tag_with_attributes({ "p", st });
                } catch (const bit_manipulation::Assertion_Error&) {
                    thrown = true;
                }
                note("misuse: tag without end");
                c.check(thrown, "a tag whose attributes are never ended is not reported");
                return;
            }
            }
            break;
        }
        }
        compare();
    }
    note("end the rest");
    while (!m.open.empty()) {
        const auto o = m.open.back();
        w.end_tag({ o.id, o.style });
        m.close();
        compare();
    }
    if (!comments) {
        try {
            html::Reader r(out.text);
        } catch (const html::Malformed& e) {
            c.fail("not well-formed: " + e.why + " at " + std::to_string(e.at) + ":\n" + out.text);
        }
    }
    if (__builtin_popcount(kinds & 0xff) >= 4)
        c.nontrivial(log);
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C25";
    p.rule = "Random histories of HTML_Writer operations (tags of every style, tags with attributes, empty "
             "tags, comments, text, white space, gaps; up to 25 steps, 40 when thorough; every indentation "
             "width) against a model of the documented layout: after every step, the text and the kinds of "
             "the tokens are compared, and the writer must not report an incomplete document as done; "
             "misuse (bad names, wrong order, a preamble too many or too few) must be reported and write "
             "nothing; the closed document is read by a strict reader. Non-trivial: at least four kinds of "
             "operation; distinct by history.";
    p.assumptions = { "closing tags match the opening tags; comments are ones HTML can express",
                      "left open: pre-formatted text that ends a line, gaps at the start of a line, comments before the preamble" };
    p.targets = { { "histories", history, 60000, 3000000 } };
    return p;
}
