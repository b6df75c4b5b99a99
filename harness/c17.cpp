// C17: HTML output is well formed and preserves the document text.
#include "gen_code.hpp"
#include "gen_doc.hpp"
#include "html.hpp"
#include "pbt.hpp"

using pbt::Ctx;
using pbt::Src;

namespace {

struct Settings {
    std::size_t indent = 0;
    std::vector<std::string> sheets;
};

Settings settings(Src& s)
{
    Settings r;
    r.indent = std::size_t(s.weighted({ 3, 1, 4, 1, 2, 0, 0, 0, 1 }));
    for (int n = s.weighted({ 5, 3, 1 }); n > 0; --n) {
        std::string sheet;
        for (int k = s.upto(4); k > 0; --k)
            sheet += s.pick({ "main", ".css", "/", "css/", "&", "\"", "'", "<", ">", " ", "=", "?x=1&amp;y", "\t", "`" });
        r.sheets.push_back(sheet);
    }
    return r;
}

void compare(std::string_view doc, const Settings& o, Ctx& c)
{
    c.show(pbt::quote(doc));
    const auto tree = refbmd::read(doc);
    if (!tree.ok)
        c.discard(); // parsing is the subject of C16
    std::vector<std::string> expected;
    std::string failure;
    try {
        expected = html::normal_form(html::Meaning(doc).document(tree.content, o.sheets));
    } catch (const html::Fails& f) {
        failure = f.why;
    }
    const auto got = html::convert(doc, o.indent, o.sheets);
    c.check(got.parsed, "the document is not parsed");
    if (got.ok != failure.empty())
        c.fail(got.ok ? "converted, although " + failure : "conversion fails with " + got.error
                       + (failure.empty() ? " although nothing is wrong" : ""));
    c.label(failure.empty() ? "converted" : "fails: " + failure);
    if (!got.ok) {
        c.check(got.error == failure, "conversion fails with " + got.error + " instead of " + failure);
        c.nontrivial(doc);
        return;
    }
    std::vector<std::string> found;
    try {
        found = html::normal_form(html::Reader(got.text).items);
    } catch (const html::Malformed& m) {
        c.fail("malformed HTML: " + m.why + " at " + std::to_string(m.at) + " of " + pbt::quote(got.text));
    }
    c.check(html::same(expected, found), "HTML is:\n" + pbt::quote(got.text) + "\nwhich reads as:\n" + html::join(found)
                + "\ninstead of:\n" + html::join(expected));
    const auto all = html::join(found);
    if (all.find("text") != all.npos)
        c.nontrivial(std::string(doc) + char(o.indent) + char(o.sheets.size()));
    for (std::string_view tag : { "<p", "<b", "<li", "<div", "<pre", "<code", "<a ", "<sup", "<h1", "<hr", "<br", "<link" })
        if (all.find(tag) != all.npos)
            c.label("element " + std::string(tag));
    if (doc.find_first_of("<&\"") != doc.npos)
        c.label("with special characters");
}

gendoc::Options options()
{
    gendoc::Options o;
    o.html_args = true;
    o.code = gencode::for_document;
    return o;
}

void structured(Src& s, Ctx& c)
{
    const auto o = settings(s);
    gendoc::Writer w(s, options());
    if (s.chance(15)) {
        w.any_blank();
        w.directive("meta", 3);
        w.any_blank();
    }
    w.content_(4);
    compare(w.out, o, c);
}

void mutated(Src& s, Ctx& c)
{
    const auto o = settings(s);
    gendoc::Writer w(s, options());
    w.content_(3);
    compare(gendoc::mutate(s, w.out), o, c);
}

void soup(Src& s, Ctx& c)
{
    const auto o = settings(s);
    compare(gendoc::soup(s, 10), o, c);
}

// One directive of each kind with special characters in and around it.
void single(Src& s, Ctx& c)
{
    const auto o = settings(s);
    gendoc::Writer w(s, options());
    std::vector<std::string> ids;
    for (auto& [id, info] : refbmd::directives())
        if (info.env != refbmd::Env::list && info.env != refbmd::Env::meta)
            ids.push_back(id);
    if (s.flag())
        w.out += w.words(true);
    if (s.flag())
        w.gap(false);
    w.directive(s.pick(ids), 2);
    if (s.flag())
        w.gap(false);
    if (s.flag())
        w.out += "." + w.words(true);
    compare(w.out, o, c);
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C17";
    p.rule = "Documents written from random structures (every directive, arguments, escapes, comments, special "
             "characters, code in several languages), mutations of them, soups and single directives, converted "
             "with random indentation and stylesheets. The output is read by a strict HTML reader and compared, "
             "element by element, attribute by attribute and text by text, with what an independent reading of "
             "the document says; failing conversions must fail for the documented reason. Non-trivial: output "
             "with text, or a failing conversion; distinct by document and options.";
    p.assumptions = { "white space between words is not significant, other than within code" };
    p.targets = {
        { "structured", structured, 30000, 500000 },
        { "mutated", mutated, 30000, 500000 },
        { "soup", soup, 60000, 1000000 },
        { "single", single, 40000, 600000 },
    };
    return p;
}
