// C19: document processing never fails internally on any input.
#include <filesystem>
#include <fstream>

#include "cli.hpp"
#include "gen_code.hpp"
#include "gen_doc.hpp"
#include "html.hpp"
#include "pbt.hpp"

using pbt::Ctx;
using pbt::Src;

namespace {

// The engine reports crashes, sanitizer findings, escaping exceptions and endless loops.
void process(std::string_view doc, std::size_t indent, const std::vector<std::string>& sheets, Ctx& c)
{
    c.show(pbt::quote(doc));
    const auto r = html::convert(doc, indent, sheets);
    c.label(!r.parsed ? "parse error" : r.ok ? "converted" : "document error: " + r.error);
    c.check(r.error != "writer_misuse", "the converter reports an internal error");
    if (!r.ok) {
        const auto& p = r.error_pos;
        c.check(p.begin <= doc.size(), "error position " + std::to_string(p.begin) + " outside of the source");
        const auto q = refbmd::position(doc, p.begin);
        c.check(q.line == p.line && q.column == p.column,
                "line " + std::to_string(p.line) + " and column " + std::to_string(p.column)
                    + " of the error do not belong to its offset " + std::to_string(p.begin));
    }
    if (doc.size() >= 3)
        c.nontrivial(doc);
}

void options(Src& s, std::size_t& indent, std::vector<std::string>& sheets)
{
    indent = std::size_t(s.weighted({ 3, 1, 3, 1, 1 }));
    if (s.chance(10))
        indent = std::size_t(s.upto(300));
    for (int n = s.weighted({ 6, 2, 1 }); n > 0; --n)
        sheets.push_back(std::string(s.pick({ "", "a.css", "/x y", "\"", "&<>", "\n", "\xff" })));
}

void bytes(Src& s, Ctx& c)
{
    const auto set = s.pick({ "", "\\b{} \n", "/*\n a\\{}", "\\i[]=,x1 ", "a\n \t\r/", "\\c{}\"/*0x\n ", "\\ol{}item \\" });
    std::string t;
    for (int n = s.upto(20); n > 0; --n)
        t += set.empty() ? char(s.upto(255)) : s.pick_char(set);
    std::size_t indent;
    std::vector<std::string> sheets;
    options(s, indent, sheets);
    process(t, indent, sheets, c);
}

void soup(Src& s, Ctx& c)
{
    std::size_t indent;
    std::vector<std::string> sheets;
    options(s, indent, sheets);
    process(gendoc::soup(s, 24), indent, sheets, c);
}

/// Well-bracketed nonsense: any directive in any other, with any arguments.
std::string nonsense(Src& s, int depth)
{
    std::string r;
    for (int n = s.weighted({ 1, 5, 4, 2 }); n > 0; --n) {
        switch (s.weighted({ 6, 3, 3, 1 })) {
        case 0: {
            auto it = refbmd::directives().begin();
            std::advance(it, s.upto(int(refbmd::directives().size()) - 1));
            r += "\\" + (s.chance(3) ? std::string(s.pick({ "zzz", "a", "bb", "z", "_", "H1" })) : it->first);
            for (int k = s.weighted({ 6, 3, 1 }); k > 0; --k)
                r += s.pick({ "[]", "[x=y]", "[x=0x10]", "[lang=c]", "[lang=1]", "[lang=bms]", "[arch=arm]",
                              "[arch=3]", "[ext=E]", "[ext=7]", "[a=b, c=d,]", "[x=99999999999999999999]", "[ ]" });
            if (s.chance(80))
                r += "{" + (depth > 0 ? nonsense(s, depth - 1) : "") + "}";
            break;
        }
        case 1: r += s.pick({ " ", "\n", "\n\n", "\t", "\r\n", " \r", "\r\r" }); break;
        case 2: r += s.pick({ "text", "a b", "\\\\", "\\}", "<", "/* c */", "// c\n", "/**/", "\"", "0x" }); break;
        default: r += s.pick({ "\\", "{}", "{a}", "/", "[", "//", "*/", "\xe4" }); break;
        }
    }
    return r;
}

void nested(Src& s, Ctx& c)
{
    std::size_t indent;
    std::vector<std::string> sheets;
    options(s, indent, sheets);
    process(nonsense(s, 4), indent, sheets, c);
}

void mutated(Src& s, Ctx& c)
{
    std::size_t indent;
    std::vector<std::string> sheets;
    options(s, indent, sheets);
    gendoc::Options o;
    o.html_args = true;
    o.code = gencode::for_document;
    gendoc::Writer w(s, o);
    if (s.chance(20))
        w.directive("meta", 3);
    w.content_(3);
    process(s.chance(80) ? gendoc::mutate(s, w.out) : w.out, indent, sheets, c);
}

/// Long repetitions of one piece.
void deep(Src& s, Ctx& c)
{
    const auto open = s.pick({ "\\b{", "\\note{", "\\ul{\\item{", "{", "\\b[x=y]{", "/*", "\\note{\\note{", "\\i", "a\n\n",
                               "\\br", "[", "\\c{", "\\\\", "// c\n", "\t" });
    const auto close = s.pick({ "}", "", "}}", "*/" });
    const int n = s.upto(s.chance(20) ? 400 : 40);
    std::string t;
    for (int i = 0; i < n; ++i)
        t += open;
    t += s.pick({ "", "x", "\\hr", " " });
    for (int i = 0; i < n; ++i)
        t += close;
    process(t, std::size_t(s.upto(4)), {}, c);
}

/// The command line tool on the same inputs.
void tool(Src& s, Ctx& c)
{
    std::string doc;
    switch (s.upto(3)) {
    case 0: doc = nonsense(s, 3); break;
    case 1: doc = gendoc::soup(s, 20); break;
    default: {
        gendoc::Options o;
        o.html_args = true;
        o.code = gencode::for_document;
        gendoc::Writer w(s, o);
        w.content_(3);
        doc = s.flag() ? w.out : gendoc::mutate(s, w.out);
    }
    }
    c.show(pbt::quote(doc));
    cli::Scratch dir;
    dir.write("doc.bmd", doc);
    const auto r = cli::run(dir, { "html", "doc.bmd" });
    const auto lib = html::convert(doc, 2, {});
    c.check(r.irregular().empty(), "bm-cli html: " + r.irregular());
    c.check(r.status == (lib.ok ? 0 : 1),
            "bm-cli html exits with " + std::to_string(r.status) + ", the library "
                + (lib.ok ? "converts the document" : "reports " + lib.error) + "\n" + r.out + r.err);
    c.label(lib.ok ? "bm-cli succeeds" : "bm-cli fails");
    c.nontrivial(doc);
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C19";
    p.rule = "Random bytes, soups of grammar pieces, arbitrarily nested directives with arbitrary arguments, "
             "well-formed documents and mutations of them, long repetitions, under random options; every run "
             "must end with success or a parse or document error whose position lies in the source and is "
             "consistent. A share of the inputs goes through bm-cli html, whose exit status must match. "
             "Non-trivial: at least three bytes; distinct by text.";
    p.assumptions = { "nesting up to 800 levels: both the parser and the converter use the stack" };
    p.targets = {
        { "bytes", bytes, 150000, 4000000 },
        { "soup", soup, 100000, 3000000 },
        { "nested", nested, 100000, 3000000 },
        { "mutated", mutated, 30000, 800000 },
        { "deep", deep, 3000, 60000 },
        { "tool", tool, 1000, 20000 },
    };
    for (std::string t : { "", "\\", "/", "//", "\\b", "\\c", "\\hr", "\\zzz", "\\ul[x=y]{}", "\\title", "\\item{}",
                           "\\meta", "\\meta{\\title}", "\\instruction", "\\instruction[ext=1]{a}", "\\note[x=1]{}" })
        p.fixed.push_back({ pbt::quote(t), [t](Ctx& c) { process(t, 2, { "a" }, c); } });
    return p;
}
