// C16: the BMD parser structures documents by the documented rules.
#include <algorithm>
#include <memory_resource>

#include "bmd/directive_type.hpp"
#include "bmd/parsing/ast.hpp"
#include "bmd/parsing/grammar.hpp"
#include "bmd/parsing/parse.hpp"

#include "gen_doc.hpp"
#include "pbt.hpp"
#include "ref_bmd.hpp"

namespace bm = bit_manipulation;
namespace bmd = bit_manipulation::bmd;
namespace ast = bit_manipulation::bmd::ast;
using pbt::Ctx;
using pbt::Src;
using refbmd::Node;

namespace {

std::string str(std::size_t n) { return std::to_string(n); }

/// Describes a span; line and column are those the parser states, or the true ones.
std::string at(const bm::Local_Source_Span& p)
{
    return "@" + str(p.begin) + "+" + str(p.length) + ":" + str(p.line) + ":" + str(p.column);
}
std::string at(std::string_view src, std::size_t begin, std::size_t length)
{
    const auto p = refbmd::position(src, begin);
    return "@" + str(begin) + "+" + str(length) + ":" + str(p.line) + ":" + str(p.column);
}

std::string quoted(std::string_view s) { return pbt::quote(s, 100000); }

struct Want {
    std::string_view src;
    bool positions;

    std::string pos(std::size_t b, std::size_t n) const { return positions ? at(src, b, n) : ""; }

    std::string dump(const std::vector<Node>& nodes, int depth = 0) const
    {
        std::string r;
        const std::string in(std::size_t(depth) * 2, ' ');
        for (const auto& n : nodes) {
            r += in;
            switch (n.kind) {
            case Node::paragraph:
                r += "paragraph" + pos(n.begin, n.end - n.begin) + "\n" + dump(n.children, depth + 1);
                break;
            case Node::text: r += "text" + pos(n.begin, n.end - n.begin) + " " + quoted(n.str) + "\n"; break;
            case Node::directive:
                r += "directive " + n.id + pos(n.begin, n.end - n.begin) + "\n";
                for (auto& [k, a] : n.args)
                    r += in + " ." + k + pos(a.begin, a.length) + " "
                        + (a.is_number ? a.base + " " + std::to_string(a.number) : "id " + a.id) + "\n";
                r += dump(n.children, depth + 1);
                break;
            }
        }
        return r;
    }
};

std::string dump_got(const ast::Some_Node* n, int depth, bool content, bool positions);

std::string dump_children(std::span<ast::Some_Node* const> children, int depth, bool content,
                          bool positions)
{
    std::string r;
    for (auto* c : children)
        r += dump_got(c, depth, content, positions);
    return r;
}

/// `content`: lists at this level are paragraphs.
std::string dump_got(const ast::Some_Node* n, int depth, bool content, bool positions)
{
    const std::string in(std::size_t(depth) * 2, ' ');
    if (!n)
        return in + "NULL\n";
    const auto pos = [&](const bm::Local_Source_Span& p) { return positions ? at(p) : ""; };
    if (auto* l = bm::get_if<ast::List>(n))
        return in + (content ? "paragraph" : "LIST") + pos(l->get_source_position()) + "\n"
            + dump_children(l->get_children(), depth + 1, false, positions);
    if (auto* t = bm::get_if<ast::Text>(n))
        return in + "text" + pos(t->get_source_position()) + " " + quoted(t->get_text()) + "\n";
    auto& d = bm::get<ast::Directive>(*n);
    std::string r = in + "directive " + std::string(d.get_identifier()) + pos(d.get_source_position())
        + "\n";
    // the type must be the one its identifier names
    const auto type = bmd::directive_type_by_id(d.get_identifier());
    if (!type || *type != d.get_type())
        r += in + "WRONG TYPE\n";
    std::map<std::string, std::string> args;
    for (auto& [k, v] : d.m_arguments) {
        const std::string head = in + " ." + std::string(k);
        if (auto* id = bm::get_if<ast::Identifier>(&v))
            args[std::string(k)] = head + pos(id->get_source_position()) + " id "
                           + std::string(id->get_value()) + "\n";
        else {
            auto& num = bm::get<ast::Number>(v);
            const char* base = "?";
            switch (num.get_type()) {
            case bm::Literal_Type::binary: base = "bin"; break;
            case bm::Literal_Type::octal: base = "oct"; break;
            case bm::Literal_Type::decimal: base = "dec"; break;
            case bm::Literal_Type::hexadecimal: base = "hex"; break;
            }
            args[std::string(k)] = head + pos(num.get_source_position()) + " " + base + " "
                           + std::to_string(num.get_value()) + "\n";
        }
    }
    for (auto& [k, text] : args)
        r += text;
    if (auto* block = d.get_block()) {
        const auto info = refbmd::directives().find(d.get_identifier());
        if (auto* l = bm::get_if<ast::List>(block))
            r += dump_children(l->get_children(), depth + 1,
                               info != refbmd::directives().end()
                                   && info->second.content == refbmd::Content::block,
                               positions);
        else
            r += dump_got(block, depth + 1, false, positions);
    }
    return r;
}

struct Got {
    bool ok;
    std::string error;
    bm::Local_Source_Position error_pos;
    std::string dump;
};

Got parse(std::string_view text, bool positions)
{
    std::vector<char> heap(text.begin(), text.end());
    heap.shrink_to_fit();
    std::pmr::monotonic_buffer_resource memory;
    const auto r = bmd::parse({ heap.data(), heap.size() }, &memory);
    if (!r)
        return { false, "code " + std::to_string(int(r.error().code)), r.error().pos, {} };
    if (r->root_node == nullptr)
        return { true, {}, {}, {} };
    auto* list = bm::get_if<ast::List>(r->root_node);
    if (!list)
        return { true, {}, {}, "ROOT IS NOT A LIST" };
    return { true, {}, {}, dump_children(list->get_children(), 0, true, positions) };
}

void labels(const std::vector<Node>& nodes, Ctx& c, int depth, int& count, int& deepest)
{
    deepest = std::max(deepest, depth);
    for (auto& n : nodes) {
        ++count;
        if (n.kind == Node::directive) {
            c.label("directive " + n.id);
            if (!n.args.empty())
                c.label("with arguments");
        }
        labels(n.children, c, depth + 1, count, deepest);
    }
}

void compare(std::string_view text, Ctx& c)
{
    c.show(pbt::quote(text));
    const auto want = refbmd::read(text);
    const auto got = parse(text, true);
    if (got.ok != want.ok)
        c.fail(std::string("the parser ")
               + (got.ok ? "accepts" : "rejects (" + got.error + " at " + str(got.error_pos.begin) + ")")
               + ", the grammar says " + (want.ok ? "valid" : "invalid: " + want.error + " at " + str(want.error_at)));
    c.label(want.ok ? "accepted" : "rejected");
    if (want.ok) {
        const Want w { text, true };
        const auto expected = w.dump(want.content);
        c.check(got.dump == expected, "structure:\n" + got.dump + "instead of:\n" + expected);
        int count = 0, deepest = 0;
        labels(want.content, c, 1, count, deepest);
        c.label("depth " + str(std::size_t(std::min(deepest, 8))));
        if (count >= 3)
            c.nontrivial(text);
    }
    else {
        c.check(got.error_pos.begin <= text.size(), "error position outside of the source");
        const auto p = refbmd::position(text, got.error_pos.begin);
        c.check(p.line == got.error_pos.line && p.column == got.error_pos.column,
                "error position: line/column " + str(got.error_pos.line) + "/" + str(got.error_pos.column)
                    + " do not belong to offset " + str(got.error_pos.begin));
        if (text.size() >= 3)
            c.nontrivial(text);
    }
}

// Documents written from a structure: the parser finds exactly that structure.
void structured(Src& s, Ctx& c)
{
    gendoc::Writer w(s, {});
    std::vector<Node> nodes;
    if (s.chance(15)) {
        w.any_blank();
        nodes.push_back(w.directive("meta", 3));
        w.any_blank();
    }
    for (auto& n : w.content_(4))
        nodes.push_back(n);
    c.show(pbt::quote(w.out));
    const auto got = parse(w.out, false);
    const auto expected = Want { w.out, false }.dump(nodes);
    c.check(got.ok,
            "rejected (" + got.error + " at " + str(got.error_pos.begin) + "), written from:\n" + expected);
    c.check(got.dump == expected, "structure:\n" + got.dump + "written from:\n" + expected);
    compare(w.out, c);
}

void mutated(Src& s, Ctx& c)
{
    gendoc::Writer w(s, {});
    w.content_(3);
    compare(gendoc::mutate(s, w.out), c);
}

void soup(Src& s, Ctx& c) { compare(gendoc::soup(s, 14), c); }

void bytes(Src& s, Ctx& c)
{
    const auto set = s.pick({ "\\b{} \n", "/*\n a\\{}", "\\i[]=,x1 ", "a\n \t\r/", "" });
    std::string t;
    for (int n = s.upto(14); n > 0; --n)
        t += set.empty() ? char(s.upto(255)) : s.pick_char(set);
    compare(t, c);
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C16";
    p.rule = "Documents written from a random structure with random layout and comments (the parser must "
             "find that structure), mutations of such documents, soups of grammar-relevant pieces and short "
             "strings over small alphabets; all compared in full, including positions, with an independent "
             "reading of the grammar. Non-trivial: at least three nodes, or a rejected text of at least "
             "three bytes; distinct by text.";
    p.targets = {
        { "structured", structured, 60000, 800000 },
        { "mutated", mutated, 60000, 800000 },
        { "soup", soup, 150000, 3000000 },
        { "bytes", bytes, 150000, 3000000 },
    };
    for (std::string t : { "", " ", "a", "\\b{x}", "\\br", "\\hr{}", "// c", "/**/", "a\n\nb", "\\", "\\zz",
                           "\\meta{\\title{a /* b */ c}}", "\\c{ {} }", "\\b[]{}", "a\r\n\r\nb" })
        p.fixed.push_back({ pbt::quote(t), [t](Ctx& c) { compare(t, c); } });
    return p;
}
