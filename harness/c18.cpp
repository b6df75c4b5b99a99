// C18: syntax highlighting never alters the code shown.
#include "bmd/html/bms_to_html.hpp"

#include "gen_code.hpp"
#include "gen_doc.hpp"
#include "html.hpp"
#include "pbt.hpp"
#include "prog.hpp"

namespace bm = bit_manipulation;
namespace bmd = bit_manipulation::bmd;
using pbt::Ctx;
using pbt::Src;

namespace {

/// The tag documented for each kind of token.
std::string tag_of(const std::string& kind)
{
    if (kind == "identifier")
        return "c-idn";
    if (kind.ends_with("_parenthesis") || kind.ends_with("_brace"))
        return "c-bra";
    if (kind == "string_literal")
        return "c-str";
    if (kind.ends_with("_literal"))
        return "c-int";
    if (kind.ends_with("_comment"))
        return "c-com";
    if (kind == "keyword_true" || kind == "keyword_false")
        return "c-bol";
    if (kind == "keyword_uint" || kind == "keyword_int" || kind == "keyword_bool" || kind == "keyword_void")
        return "c-typ";
    if (kind.starts_with("keyword_"))
        return "c-key";
    if (kind == "at" || kind == "dot" || kind == "colon" || kind == "comma" || kind == "semicolon"
        || kind == "right_arrow")
        return "c-pun";
    if (kind == "double_right_arrow")
        return "c-err";
    return "c-opr";
}

struct Part {
    std::string tag, text;
    bool operator==(const Part&) const = default;
};

std::string show(const std::vector<Part>& parts)
{
    std::string r;
    for (auto& p : parts)
        r += "  " + (p.tag.empty() ? "-" : p.tag) + " [" + pbt::quote(p.text) + "]\n";
    return r;
}

/// Tokens with their tags and the gaps between them, from the first token to the last.
std::vector<Part> expected_parts(std::string_view code)
{
    const auto lex = ref::lex(code);
    std::vector<Part> r;
    std::size_t at = 0;
    for (auto& t : lex.tokens) {
        if (at != t.begin && !r.empty())
            r.push_back({ "", std::string(code.substr(at, t.begin - at)) });
        r.push_back({ tag_of(t.kind), std::string(code.substr(t.begin, t.length)) });
        at = t.begin + t.length;
    }
    return r;
}

/// The highlighted parts between item `from` and item `to`, without the surrounding blank space.
std::vector<Part> found_parts(const std::vector<html::Item>& items, std::size_t from, std::size_t to, Ctx& c)
{
    std::vector<Part> r;
    std::string tag;
    for (std::size_t i = from; i < to; ++i) {
        const auto& x = items[i];
        if (x.kind == html::Item::open) {
            c.check(tag.empty() && x.name.starts_with("c-"), "tag " + x.name + " within code");
            tag = x.name;
            r.push_back({ tag, "" });
        }
        else if (x.kind == html::Item::close)
            tag.clear();
        else if (!tag.empty())
            r.back().text += x.str;
        else
            r.push_back({ "", x.str });
    }
    if (!r.empty() && r.front().tag.empty()) {
        c.check(html::trim(r.front().text).empty(), "text in front of the first token");
        r.erase(r.begin());
    }
    if (!r.empty() && r.back().tag.empty()) {
        c.check(html::trim(r.back().text).empty(), "text behind the last token");
        r.pop_back();
    }
    return r;
}

/// The code as the library highlights it on its own.
void inline_code(std::string_view code, Ctx& c)
{
    c.show(pbt::quote(code));
    const auto lex = ref::lex(code);
    html::Collect out;
    std::vector<char> heap(code.begin(), code.end());
    heap.shrink_to_fit();
    std::pmr::monotonic_buffer_resource memory;
    bmd::HTML_Writer writer(out, 2);
    writer.write_preamble();
    const auto begin = out.text.size();
    const auto r = bmd::bms_inline_code_to_html(writer, { heap.data(), heap.size() }, &memory);
    const auto text = out.text.substr(begin);
    const bool tokenize_error = !r && r.error().is_tokenize_error();
    c.check(tokenize_error == !lex.ok, tokenize_error ? "a tokenize error is reported for code without one"
                                                      : "code with a lexical error (" + lex.error + ") is not reported");
    c.label(!r ? tokenize_error ? "tokenize error" : "parse error" : "parsed");
    std::vector<html::Item> items;
    try {
        items = html::Reader(text, false).items;
    } catch (const html::Malformed& m) {
        c.fail("malformed HTML: " + m.why + " at " + std::to_string(m.at) + " of " + pbt::quote(text));
    }
    if (!lex.ok) {
        std::string shown;
        for (auto& i : items) {
            c.check(i.kind == html::Item::text, "markup in code which cannot be highlighted");
            shown += i.str;
        }
        c.check(shown == code || shown + "\n" == code, "the code is shown as [" + pbt::quote(shown) + "]");
        c.nontrivial(code);
        return;
    }
    const auto want = expected_parts(code), got = found_parts(items, 0, items.size(), c);
    c.check(want == got, "highlighted as:\n" + show(got) + "instead of:\n" + show(want));
    if (want.size() >= 3)
        c.nontrivial(code);
    for (auto& p : want) {
        if (!p.tag.empty())
            c.label(p.tag);
        if (p.tag == "c-com" && p.text.find('\n') < p.text.size() - 1)
            c.label("comment of several lines");
        if (p.tag.empty() && p.text.find('\t') != p.text.npos)
            c.label("tab between tokens");
    }
}

/// The code within a document.
void in_document(const std::string& code, bool block, std::string_view lang, std::string_view before,
                 std::string_view after, std::size_t indent, Ctx& c)
{
    std::string doc(before);
    doc += block ? "\\codeblock" : "\\c";
    if (!lang.empty())
        doc += "[lang = " + std::string(lang) + "]";
    doc += "{" + code + "}";
    doc += after;
    c.show(pbt::quote(doc));
    const auto tree = refbmd::read(doc);
    // the code has to be what the document says it is
    if (!tree.ok)
        c.discard();
    std::vector<const refbmd::Node*> found, todo;
    for (auto& n : tree.content)
        todo.push_back(&n);
    while (!todo.empty()) {
        auto* n = todo.back();
        todo.pop_back();
        if (n->id == "c" || n->id == "codeblock")
            found.push_back(n);
        else
            for (auto& k : n->children)
                todo.push_back(&k);
    }
    const bool is_bms = lang.empty() || lang == "bms";
    if (found.size() != 1 || (found[0]->children.empty() ? "" : found[0]->children[0].str) != code)
        c.discard();
    const auto r = html::convert(doc, indent, {});
    c.check(r.parsed, "the document is not parsed");
    const bool bad = is_bms && !ref::lex(code).ok;
    c.check(r.ok == !bad, bad ? "code which does not tokenize is accepted" : "conversion fails with " + r.error);
    c.label(bad ? "fails" : std::string(block ? "block" : "inline") + (is_bms ? " bms" : " other"));
    if (bad) {
        c.check(r.error == "code_tokenization_failure", "error " + r.error);
        c.check(r.error_pos.begin >= found[0]->children[0].begin && r.error_pos.begin <= found[0]->children[0].end,
                "the error does not point into the code");
        c.nontrivial(doc);
        return;
    }
    std::vector<html::Item> items;
    try {
        items = html::Reader(r.text).items;
    } catch (const html::Malformed& m) {
        c.fail("malformed HTML: " + m.why + " at " + std::to_string(m.at) + " of " + pbt::quote(r.text));
    }
    const std::string tag = block ? "pre" : "code";
    std::size_t from = items.size(), to = items.size();
    for (std::size_t i = 0; i < items.size(); ++i)
        if (items[i].name == tag)
            (items[i].kind == html::Item::open ? from : to) = i;
    c.check(to != items.size() && from < to, "no element for the code: " + pbt::quote(r.text));
    if (is_bms) {
        const auto want = expected_parts(code), got = found_parts(items, from + 1, to, c);
        c.check(want == got, "highlighted as:\n" + show(got) + "instead of:\n" + show(want));
        if (want.size() >= 3)
            c.nontrivial(doc);
    }
    else {
        std::string text;
        for (std::size_t i = from + 1; i < to; ++i)
            text += items[i].str;
        c.check(html::trim(text) == html::trim(code), "the code is shown as [" + pbt::quote(text) + "]");
        c.nontrivial(doc);
    }
}

void tokens(Src& s, Ctx& c) { inline_code(gencode::code(s, { false, 3 }), c); }

void bytes(Src& s, Ctx& c)
{
    const auto set = s.pick({ "/*\n ", "\"\\a\n&<", "a =>-<>&\t", "\r\n\t a0/", "" });
    std::string t;
    for (int n = s.upto(12); n > 0; --n)
        t += set.empty() ? char(s.upto(255)) : s.pick_char(set);
    inline_code(t, c);
}

std::string with_layout(Src& s, const std::vector<std::string>& words)
{
    std::string r;
    for (auto& w : words) {
        const char last = r.empty() ? ' ' : r.back();
        const bool keep_apart = true;
        std::string gap = gencode::space(s);
        if (s.chance(10))
            gap += s.pick({ "/* a */", "/* <\n   & */", "// b\n", "/**/" });
        if (gap.empty() && keep_apart && !ref::ws(last))
            gap = " ";
        if (last == '/' && gap.starts_with("/"))
            gap.insert(0, " ");
        r += gap + w;
    }
    return r;
}

void programs(Src& s, Ctx& c)
{
    gen::Prog_Options o;
    o.functions = 2;
    o.size = 60;
    const auto words = ref::unparse(prog::gen_tree(s, o, 0));
    inline_code(with_layout(s, words), c);
}

void documents(Src& s, Ctx& c)
{
    const auto code = gencode::code(s, { true, 2 });
    const bool block = s.flag();
    const auto lang = s.pick({ "", "", "bms", "c", "cpp", "plain", "rust", "raw" });
    const auto before = s.pick({ "", "\\note{", "\n\n", "a ", "a\n\n", "\\h1{Title}", "\\note{\\note{a\n\n" });
    std::string after;
    for (int n = before == "\\note{" ? 1 : before.starts_with("\\note{\\note") ? 2 : 0; n > 0; --n)
        after += "}";
    in_document(code, block, lang, before, after, std::size_t(s.upto(4)), c);
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C18";
    p.rule = "Token sequences with arbitrary layout, comments of several lines and special characters, strings "
             "over small alphabets, generated programs with random layout, and code inside of documents at "
             "several nestings, highlighted and read back by a strict HTML reader: the parts must be exactly the "
             "tokens an independent lexer finds, each in its tag, with exactly the gaps between them. "
             "Non-trivial: at least two tokens, or code with a lexical error; distinct by text.";
    p.targets = {
        { "tokens", tokens, 60000, 1500000 },
        { "bytes", bytes, 60000, 1500000 },
        { "programs", programs, 1500, 40000 },
        { "documents", documents, 60000, 1500000 },
    };
    for (std::string t : { "", " ", "a", "a\tb", "a\n\tb", "/* a\n b */ c", "// a\nb", "a\r\nb", "\"a\nb\" c" })
        p.fixed.push_back({ pbt::quote(t), [t](Ctx& c) { inline_code(t, c); } });
    return p;
}
