// C20: the command line tool reports exactly what the library decides.
#include <map>
#include <set>
#include <sstream>

#include "cli.hpp"
#include "code.hpp"
#include "gen_code.hpp"
#include "gen_doc.hpp"
#include "gen_syntax.hpp"
#include "html.hpp"
#include "lib_tree.hpp"
#include "prog.hpp"

#include "common/diagnostics.hpp"

using pbt::Ctx;
using pbt::Src;

namespace {

namespace bm = bit_manipulation;

std::string strip_colors(std::string_view t)
{
    std::string r;
    for (std::size_t i = 0; i < t.size(); ++i) {
        if (t[i] == '\x1b' && i + 1 < t.size() && t[i + 1] == '[') {
            i += 2;
            while (i < t.size() && (std::isdigit((unsigned char)t[i]) || t[i] == ';'))
                ++i;
            continue; // the final letter
        }
        r += t[i];
    }
    return r;
}

// ---- the printers ---------------------------------------------------------------------------------

std::string tokens_text(front::Program& p)
{
    std::ostringstream out;
    bm::print_tokens(out, p.tokens, p.source);
    return out.str();
}

/// Every token in order, with its line, column, name and text.
void judge_tokens(Ctx& c, const std::string& text, const std::string& printed)
{
    const auto lex = ref::lex(text);
    if (!lex.ok)
        throw std::logic_error("the text does not tokenize: " + text);
    std::size_t at = 0;
    const auto number = [&] {
        while (at < printed.size() && printed[at] == ' ')
            ++at;
        std::size_t n = 0, begin = at;
        while (at < printed.size() && std::isdigit((unsigned char)printed[at]))
            n = n * 10 + std::size_t(printed[at++] - '0');
        return at == begin ? std::size_t(-1) : n;
    };
    const auto expect = [&](const std::string& s, const ref::Tok& t) {
        c.check(printed.compare(at, s.size(), s) == 0,
                "expected " + pbt::quote(s) + " for the token " + t.kind + " at line " + std::to_string(t.line + 1) + ", but the output goes on with "
                    + pbt::quote(printed.substr(at, 60)) + "\n" + printed);
        at += s.size();
    };
    static const std::set<std::string> variable { "identifier", "decimal_literal", "octal_literal", "hexadecimal_literal", "binary_literal",
                                                  "string_literal", "line_comment", "block_comment" };
    for (auto& t : lex.tokens) {
        const auto line = number();
        expect(":", t);
        const auto column = number();
        expect(": ", t);
        c.check(line == t.line + 1 && column == t.column + 1,
                "the token " + t.kind + " at " + std::to_string(t.line + 1) + ":" + std::to_string(t.column + 1) + " is shown at "
                    + std::to_string(line) + ":" + std::to_string(column) + "\n" + printed);
        expect(t.kind, t);
        if (variable.count(t.kind)) {
            expect("(" + text.substr(t.begin, t.length) + ")", t);
            if (t.length > 1)
                expect(" (" + std::to_string(t.length) + " characters)", t);
        }
        expect("\n", t);
    }
    c.check(at == printed.size(), "more than the tokens is shown: " + pbt::quote(printed.substr(at, 80)));
}

std::string tree_text(const bm::bms::Parsed_Program& p, int indent, bool colors)
{
    std::ostringstream out;
    bm::print_ast(out, p, { .indent_width = indent, .colors = colors });
    return out.str();
}
void expect_tree(const bm::bms::Parsed_Program& p, bm::bms::astp::Handle h, std::string_view name, int level, int indent, std::string& r)
{
    r += std::string(std::size_t(indent * level), ' ');
    if (h == bm::bms::astp::Handle::null) {
        r += (name.empty() ? "" : std::string(name) + "=") + "null\n";
        return;
    }
    const auto& n = p.get_node(h);
    r += std::to_string(std::size_t(h)) + ":" + (name.empty() ? "" : std::string(name) + "=");
    const auto span = bm::visit([](const auto& x) -> bm::Local_Source_Span { return x.pos; }, n);
    r += std::string(get_node_name(n)) + "(" + std::string(p.get_source().substr(span.begin, span.length)) + ")\n";
    const auto kids = get_children(n);
    for (std::size_t i = 0; i < kids.size(); ++i) {
        const auto kid = bm::visit(
            [i](const auto& x) -> std::string_view {
                if constexpr (requires { x.child_names; })
                    return x.child_names[i];
                else
                    return "";
            },
            n);
        expect_tree(p, kids[i], kid, level + 1, indent, r);
    }
}

std::string document_text(const bm::bmd::Parsed_Document& d, int indent, int length, bool colors)
{
    std::ostringstream out;
    bm::print_ast(out, d, { .indent_width = indent, .max_node_text_length = length, .colors = colors });
    return out.str();
}
std::string cut_off(std::string_view text, int length)
{
    std::string r;
    int shown = 0;
    for (char ch : text) {
        if (shown >= length)
            return r + " ...";
        const std::string piece = ch == '\n' ? "\\n" : ch == '\t' ? "\\t" : ch == '\r' ? "\\r" : std::string(1, ch);
        r += piece;
        shown += int(piece.size());
    }
    return r;
}
void expect_document(const bm::bmd::Parsed_Document& d, bm::bmd::ast::Some_Node* n, int level, int indent, int length, std::string& r)
{
    const std::string margin(std::size_t(indent * level), ' ');
    r += margin;
    if (!n) {
        r += "null\n";
        return;
    }
    const auto span = get_source_span(*n);
    const auto* directive = bm::get_if<bm::bmd::ast::Directive>(n);
    r += directive ? "\\" + std::string(directive->get_identifier()) : std::string(get_node_name(*n));
    r += "(" + cut_off(d.extract(span), length) + ")\n";
    if (directive)
        for (const auto& [key, value] : directive->m_arguments)
            r += margin + std::string(key) + ": " + std::string(d.extract(get_source_span(value))) + "\n";
    for (auto* kid : get_children(*n))
        expect_document(d, kid, level + 1, indent, length, r);
}

std::string gen_bms(Src& s, bool syntax_errors, bool meaningful = false)
{
    std::string text;
    switch (s.weighted({ meaningful ? 20 : 4, 2, 2 })) {
    case 0: {
        gen::Prog_Options o;
        o.runtime_errors = s.chance(20);
        o.size = 10 + s.upto(80);
        const auto tree = prog::gen_tree(s, o, syntax_errors && s.chance(40) ? 1 : 0);
        text = s.flag() ? prog::plain(tree) : gen::layout(s, ref::unparse(tree), 4);
        break;
    }
    case 1: {
        auto k = gen::sentence(s, 6 + s.upto(14), 60, s.flag() ? 40 : 2);
        if (syntax_errors && s.flag())
            gen::edit(s, k);
        std::vector<std::string> w;
        for (auto& x : k)
            w.push_back(gen::spell(s, x));
        text = gen::layout(s, w);
        break;
    }
    default: {
        gencode::Options o;
        o.for_document = false;
        o.bad_percent = syntax_errors ? 3 : 0;
        text = gencode::code(s, o);
    }
    }
    return text;
}
std::string gen_bmd(Src& s)
{
    if (s.chance(25))
        return gendoc::soup(s, 16);
    gendoc::Options o;
    o.html_args = true;
    o.code = gencode::for_document;
    gendoc::Writer w(s, o);
    w.content_(3);
    return s.chance(70) ? w.out : gendoc::mutate(s, w.out);
}

/// print_tokens and print_ast for programs.
void program_dumps(Src& s, Ctx& c)
{
    const auto text = gen_bms(s, false);
    c.show(text);
    if (text.find('\x1b') != text.npos)
        c.discard();
    front::Program p(text, front::Stage::parse);
    if (p.failed_at == front::Stage::tokenize)
        c.discard();
    judge_tokens(c, text, tokens_text(p));
    if (!p.tokens.empty())
        c.nontrivial(text);
    if (p.failed_at == front::Stage::parse)
        return c.label("tokens");
    c.label("tokens and tree");
    const int indent = s.pick(std::vector<int> { 2, 0, 1, 4, 7 });
    std::string want;
    expect_tree(*p.parsed, p.parsed->get_root_handle(), "", 0, indent, want);
    const auto plain = tree_text(*p.parsed, indent, false);
    c.check(plain == want, "the syntax tree is shown as\n" + plain + "instead of\n" + want);
    c.check(strip_colors(tree_text(*p.parsed, indent, true)) == want, "with colors, the syntax tree is different");
    // the reference parser's tree has as many nodes
    const auto lex = ref::lex(text);
    ref::Parser rp(lex.tokens);
    const auto tree = rp.program();
    const std::function<std::size_t(const ref::Ptr&)> count = [&](const ref::Ptr& n) {
        std::size_t k = 1;
        if (n)
            for (auto& x : n->kids)
                k += count(x);
        return k;
    };
    const front::Tree_Builder b(*p.parsed, p.tokens);
    c.check(count(b.build()) == count(tree), "the syntax tree has another number of nodes");
}

void document_dumps(Src& s, Ctx& c)
{
    const auto text = gen_bmd(s);
    c.show(pbt::quote(text));
    if (text.find('\x1b') != text.npos)
        c.discard();
    std::vector<char> heap(text.begin(), text.end());
    heap.shrink_to_fit();
    std::pmr::monotonic_buffer_resource memory;
    auto doc = bm::bmd::parse({ heap.data(), heap.size() }, &memory);
    if (!doc)
        c.discard();
    const int indent = s.pick(std::vector<int> { 2, 0, 1, 4, 7 }), length = s.pick(std::vector<int> { 30, 0, 1, 2, 5, 100, 100000 });
    std::string want;
    expect_document(*doc, doc->root_node, 0, indent, length, want);
    const auto plain = document_text(*doc, indent, length, false);
    c.check(plain == want, "the syntax tree is shown as\n" + plain + "instead of\n" + want);
    c.check(strip_colors(document_text(*doc, indent, length, true)) == want, "with colors, the syntax tree is different");
    c.label("length " + std::to_string(length));
    if (text.size() > 4)
        c.nontrivial(text);
}

// ---- the tool -------------------------------------------------------------------------------------

/// What the library decides about a run.
struct Verdict {
    bool success = false;
    std::string how;         // for the statistics
    std::string out;         // the complete output
    bool exact = false;      // whether `out` is all that is printed
    std::string diagnostic;  // the printed text ends with it
};

template <class F>
std::string print(F f)
{
    std::ostringstream out;
    f(out);
    return out.str();
}

bool endless(const std::string& text)
{
    try {
        const auto lex = ref::lex(text);
        if (!lex.ok)
            return false;
        ref::Parser p(lex.tokens);
        ref::Semantics sem(p.program());
        return false;
    } catch (const ref::Unspecified&) {
        return true;
    } catch (const ref::Syntax_Error&) {
        return false;
    }
}

Verdict judge_bms(const std::string& command, const std::string& language, const std::string& text, const std::string& name)
{
    static const std::map<std::string, code::bmd::Code_Language> languages {
        { "bms", code::bmd::Code_Language::bms }, { "BMS", code::bmd::Code_Language::bms }, { "c", code::bmd::Code_Language::c },
        { "C", code::bmd::Code_Language::c },     { "c++", code::bmd::Code_Language::cpp }, { "C++", code::bmd::Code_Language::cpp },
        { "cpp", code::bmd::Code_Language::cpp }, { "cxx", code::bmd::Code_Language::cpp },
    };
    Verdict v;
    if (command == "html")
        return v.how = "not supported", v;
    if (command == "generate" && !languages.count(language))
        return v.how = "language not supported", v;
    const auto until = command == "dump_tokens" ? front::Stage::tokenize : command == "dump_ast" ? front::Stage::parse : front::Stage::done;
    front::Program p(text, until, name);
    switch (p.failed_at) {
    case front::Stage::tokenize:
        v.diagnostic = print([&](auto& o) { bm::print_tokenize_error(o, name, p.source, *p.tokenize_error, false); });
        return v.how = "tokenize error", v;
    case front::Stage::parse:
        v.diagnostic = print([&](auto& o) { bm::print_parse_error(o, name, p.source, *p.parse_error, false); });
        return v.how = "parse error", v;
    case front::Stage::analyze:
        v.diagnostic = print([&](auto& o) { bm::print_analysis_error(o, *p.parsed, *p.analysis_error, false); });
        return v.how = "analysis error", v;
    case front::Stage::done: break;
    }
    v.success = true;
    v.how = "success";
    if (command == "dump_tokens")
        v.out = tokens_text(p), v.exact = true;
    else if (command == "dump_ast")
        v.out = tree_text(*p.parsed, 2, false), v.exact = true;
    else if (command == "generate") {
        const auto t = code::generate(p, languages.at(language), {});
        v.success = t.ok;
        v.how = t.ok ? "success" : "generation error";
        v.out = t.text;
        v.exact = t.ok;
    }
    return v;
}

Verdict judge_bmd(const std::string& command, const std::string& text, const std::string& name)
{
    Verdict v;
    if (command != "html" && command != "dump_ast")
        return v.how = "suffix", v;
    std::pmr::monotonic_buffer_resource memory;
    auto doc = bm::bmd::parse(text, &memory);
    if (!doc) {
        v.diagnostic = print([&](auto& o) { bm::print_parse_error(o, name, text, doc.error(), false); });
        return v.how = "parse error", v;
    }
    v.success = v.exact = true;
    v.how = "success";
    if (command == "dump_ast") {
        v.out = document_text(*doc, 2, 30, false);
        return v;
    }
    html::Collect sink;
    static constexpr std::string_view sheets[] { "/css/code.css", "/css/main.css" };
    auto r = bm::bmd::doc_to_html(sink, *doc, { 2, sheets }, &memory);
    v.out = sink.text;
    if (!r) {
        v.success = v.exact = false;
        v.diagnostic = print([&](auto& o) { bm::print_document_error(o, name, text, r.error(), false); });
        v.how = "document error";
    }
    return v;
}

std::string join(const std::vector<std::string>& args)
{
    std::string r = "bm-cli";
    for (auto& a : args)
        r += " " + pbt::quote(a);
    return r;
}

/// A failure must have status 1 and say something.
void failed(Ctx& c, const cli::Result& r, const std::string& what)
{
    c.check(r.irregular().empty(), what + ": " + r.irregular());
    c.check(r.status == 1, what + " exits with status " + std::to_string(r.status) + "\n" + r.out + r.err);
    c.check(!(r.out + r.err).empty(), what + " fails without a word");
}

void compare(Ctx& c, const std::vector<std::string>& args, const cli::Result& r, const Verdict& v)
{
    const auto what = join(args);
    if (!v.success) {
        failed(c, r, what + " (" + v.how + ")");
        const auto all = strip_colors(r.out) + strip_colors(r.err);
        c.check(all.find(v.diagnostic) != all.npos, what + " does not print the diagnostic\n" + v.diagnostic + "but\n" + all);
        return;
    }
    c.check(r.irregular().empty(), what + ": " + r.irregular());
    c.check(r.status == 0, what + " exits with status " + std::to_string(r.status) + ", but the library accepts the file\n" + r.out + r.err);
    if (v.exact)
        c.check(strip_colors(r.out) == strip_colors(v.out), what + " prints\n" + strip_colors(r.out) + "\ninstead of\n" + v.out);
}

/// Comments and blanks up to a size at which files are read in pieces.
void pad(Src& s, std::string& text, bool bms)
{
    const bool huge = s.chance(2);
    const auto pieces = std::size_t(huge                ? 64 * (1 + s.upto(15))
                                        : s.chance(4) ? 16 * (1 + s.upto(2))
                                                      : 1 + s.weighted({ 5, 3, 1 }));
    const std::size_t size = 4096u * pieces + std::size_t(s.upto(2)) - 1;
    std::string more;
    if (huge && size > text.size() + 4096)
        for (const auto blank = size - text.size() - 4096; more.size() < blank;)
            more += more.size() % 100 == 99 ? '\n' : ' ';
    while (text.size() + more.size() < size) {
        const auto left = size - text.size() - more.size();
        if (bms && left > 40 && s.chance(30))
            more += "// " + std::to_string(left) + std::string(std::size_t(s.upto(20)), 'x') + "\n";
        else if (bms && left > 40 && s.chance(3))
            more += "const padding" + std::to_string(left) + " = 1;\n";
        else if (!bms && left > 40 && s.chance(30))
            more += "words " + std::to_string(left) + (s.chance(30) ? "\n\n" : "\n");
        else
            more += s.chance(5) ? '\n' : ' ';
    }
    text = s.flag() && bms ? more + text : text + more;
}

/// A file name with a suffix, possibly in another directory.
std::string file_name(Src& s, const std::string& suffix)
{
    return std::string(s.pick({ "a", "file", "some name", "dir/x", "./y", "a.bmd", "a.bms", "-z", "dir/../b", "", "\xc3\xa4" })) + suffix;
}
void put(const cli::Scratch& dir, const std::string& name, const std::string& text)
{
    cli::fs::create_directories((dir.path / name).parent_path());
    dir.write(name, text);
}

void programs(Src& s, Ctx& c)
{
    const auto name = file_name(s, ".bms");
    std::vector<std::string> args { std::string(s.pick({ "dump_tokens", "dump_ast", "verify", "generate", "generate", "generate", "html" })), name };
    auto text = gen_bms(s, true, args[0] == "verify" || args[0] == "generate");
    if (s.chance(15))
        pad(s, text, true);
    if (s.chance(5))
        text.insert(std::size_t(s.upto(int(text.size()))), 1, '\0');
    std::string language;
    if (args[0] == "generate") {
        language = s.chance(70) ? s.pick({ "bms", "c", "c++", "BMS", "C", "C++", "cpp", "cxx" })
                                : s.pick({ "rs", "rust", "Rust", "java", "Java", "kotlin", "Kotlin", "kt", "js", "JS", "javascript", "JavaScript",
                                           "ts", "TS", "TypeScript", "", "cc", "BmS", "c ", "python", "c\n" });
        args.push_back(language);
    }
    if (s.chance(5) && args[0] != "html")
        args.push_back("more");
    c.show(join(args) + "\n" + (text.size() < 2000 ? text : pbt::quote(text.substr(0, 2000))) + "\n" + std::to_string(text.size()) + " bytes");
    if (text.find('\x1b') != text.npos || endless(text))
        c.discard();
    cli::Scratch dir;
    put(dir, name, text);
    const auto v = judge_bms(args[0], language, text, name);
    const auto r = cli::run(dir, args);
    compare(c, args, r, v);
    if (v.how == "language not supported") {
        // the tool says which language it cannot generate, or that it knows no such language
        static const std::map<std::string, std::string> known {
            { "rs", "rust" }, { "rust", "rust" }, { "Rust", "rust" }, { "java", "java" }, { "Java", "java" }, { "kotlin", "kotlin" },
            { "Kotlin", "kotlin" }, { "kt", "kotlin" }, { "js", "javascript" }, { "JS", "javascript" }, { "javascript", "javascript" },
            { "JavaScript", "javascript" }, { "ts", "typescript" }, { "TS", "typescript" }, { "TypeScript", "typescript" },
        };
        auto said = strip_colors(r.out);
        if (const auto it = known.find(language); it == known.end())
            c.check(said.find(language) != said.npos, "the unknown language is not named:\n" + said);
        else if (front::Program(text).ok()) {
            for (auto& x : said)
                x = char(std::tolower(static_cast<unsigned char>(x)));
            c.check(said.find(it->second + " is not supported") != said.npos, "the tool does not say that this language is not supported:\n" + said);
            c.label("language known but not supported");
        }
    }
    if (v.success && args[0] == "dump_tokens")
        judge_tokens(c, text, strip_colors(r.out));
    c.check(cli::slurp(dir.path / name) == text, "the input file has been changed");
    c.label(args[0] + ": " + v.how);
    if (text.size() > 4096)
        c.label(text.size() > 65000 ? "file of more than 65000 bytes" : "file of more than 4096 bytes");
    c.nontrivial(join(args) + text);
}

void documents(Src& s, Ctx& c)
{
    auto text = gen_bmd(s);
    if (s.chance(15))
        pad(s, text, false);
    const auto name = file_name(s, ".bmd");
    std::vector<std::string> args { std::string(s.weighted({ 1, 3 }) == 0 ? "dump_ast" : "html"), name };
    c.show(join(args) + "\n" + pbt::quote(text.substr(0, 3000)) + "\n" + std::to_string(text.size()) + " bytes");
    if (text.find('\x1b') != text.npos)
        c.discard();
    cli::Scratch dir;
    put(dir, name, text);
    const auto v = judge_bmd(args[0], text, name);
    const auto r = cli::run(dir, args);
    compare(c, args, r, v);
    c.label(args[0] + ": " + v.how);
    if (text.size() > 4096)
        c.label(text.size() > 65000 ? "file of more than 65000 bytes" : "file of more than 4096 bytes");
    c.nontrivial(join(args) + text);
    if (args[0] != "html")
        return;
    // into a file
    const std::string out(s.pick({ "out.html", "out", "dir2/out.html" }));
    if (out.starts_with("dir2"))
        cli::fs::create_directories(dir.path / "dir2");
    if (s.flag())
        put(dir, out, std::string(std::size_t(s.upto(20000)), 'x'));
    args.push_back(out);
    const auto f = cli::run(dir, args);
    if (v.success) {
        c.check(f.irregular().empty(), join(args) + ": " + f.irregular());
        c.check(f.status == 0, join(args) + " exits with status " + std::to_string(f.status) + "\n" + f.out + f.err);
        const auto written = cli::slurp(dir.path / out);
        c.check(written == v.out, "the output file is\n" + written + "\ninstead of\n" + v.out);
        c.label("written to a file");
    }
    else {
        failed(c, f, join(args));
        const auto all = strip_colors(f.out) + strip_colors(f.err);
        c.check(all.find(v.diagnostic) != all.npos, join(args) + " does not print the diagnostic\n" + v.diagnostic + "but\n" + all);
    }
    c.check(cli::slurp(dir.path / name) == text, "the input file has been changed");
}

/// Wrong arguments, files and devices.
void misuse(Src& s, Ctx& c)
{
    cli::Scratch dir;
    put(dir, "good.bms", "const a = 1;\nfunction f(x: Uint(8)) -> Uint(8) { return x + 1; }\n");
    put(dir, "good.bmd", "\\title{T}\n\nHello \\b{World}\n");
    put(dir, "good.txt", "const a = 1;\n");
    put(dir, "good", "text");
    put(dir, "empty.bms", "");
    put(dir, "empty.bmd", "");
    cli::fs::create_directories(dir.path / "folder.bms");
    cli::fs::create_directories(dir.path / "folder.bmd");
    cli::fs::create_directories(dir.path / "folder");
    cli::fs::create_symlink("good.bms", dir.path / "link.bms");
    cli::fs::create_symlink("nowhere.bms", dir.path / "dangling.bms");
    cli::fs::create_symlink("loop.bmd", dir.path / "loop.bmd");
    const bool sound = s.chance(35); // nothing is wrong, unless the arguments are too few
    const std::string command(sound ? s.pick({ "dump_tokens", "dump_ast", "verify", "generate", "html" })
                                    : s.pick({ "dump_tokens", "dump_ast", "verify", "generate", "html", "", "Verify", "verify ", "--help", "-h", "dump",
                                       "dump_token", "dump_asts", "html5", "gen" }));
    const std::string file(sound ? (command == "html" ? s.pick({ "good.bmd", "empty.bmd" }) : s.pick({ "good.bms", "link.bms", "empty.bms" }))
                                 : s.pick({ "good.bms", "good.bmd", "empty.bms", "empty.bmd", "link.bms", "good.txt", "good", "missing.bms",
                                    "missing.bmd", "missing.txt", "folder.bms", "folder.bmd", "folder", "dangling.bms", "loop.bmd", "",
                                    "good.bms/x.bms", "nodir/x.bmd", ".", "good.BMS", "/dev/null", "bms", ".bms", "good.bms " }));
    std::vector<std::string> args;
    std::string stdout_to;
    const int count = s.weighted({ 1, 1, 6, 6, 1 });
    if (count > 0)
        args.push_back(command);
    if (count > 1)
        args.push_back(file);
    const std::string third = command == "html"
        ? std::string(s.pick({ "out.html", "folder", "nodir/out.html", "/dev/full", "/dev/null", "" }))
        : std::string(sound ? s.pick({ "c", "bms", "cpp" }) : s.pick({ "c", "bms", "rust", "zzz", "", "cpp" }));
    if (count > 2)
        args.push_back(third);
    if (count > 3)
        args.push_back("extra");
    if (s.chance(15))
        stdout_to = "/dev/full";
    c.show(join(args) + (stdout_to.empty() ? "" : " > " + stdout_to));
    c.nontrivial(join(args) + stdout_to);

    static const std::set<std::string> texts { "good.bms", "good.bmd", "empty.bms", "empty.bmd", "link.bms" };
    static const std::set<std::string> commands { "dump_tokens", "dump_ast", "verify", "generate", "html" };
    bool fails = count < 2 || !commands.count(command) || !texts.count(file);
    Verdict v;
    v.how = "misuse";
    if (!fails) {
        const auto text = cli::slurp(dir.path / file);
        if (file.ends_with(".bmd"))
            v = judge_bmd(command, text, file);
        else if (command == "generate" && count < 3)
            v.how = "language missing";
        else
            v = judge_bms(command, third, text, file);
        fails = !v.success;
    }
    bool to_file = false;
    if (!fails && command == "html" && count > 2) {
        to_file = true;
        if (third != "out.html" && third != "/dev/null") {
            fails = true;
            v.how = "output file " + third;
        }
    }
    const auto r = cli::run(dir, args, stdout_to);
    const auto what = join(args) + (stdout_to.empty() ? "" : " > " + stdout_to);
    if (!stdout_to.empty()) {
        c.check(r.irregular().empty(), what + ": " + r.irregular());
        if (fails)
            c.check(r.status == 1, what + " exits with status " + std::to_string(r.status));
        else if (to_file || (command != "verify" && v.out.empty()))
            c.check(r.status == 0, what + " writes nothing to stdout, but exits with status " + std::to_string(r.status));
        else
            failed(c, r, what);
        c.label(fails ? "failure with a full device" : "full device");
        return;
    }
    if (fails) {
        failed(c, r, what);
        c.label(v.how);
    }
    else {
        c.check(r.irregular().empty(), what + ": " + r.irregular());
        c.check(r.status == 0, what + " exits with status " + std::to_string(r.status) + "\n" + r.out + r.err);
        if (to_file && third == "out.html")
            c.check(cli::slurp(dir.path / third) == v.out, "the output file differs");
        else if (v.exact && !to_file)
            c.check(strip_colors(r.out) == v.out, what + " prints\n" + r.out + "\ninstead of\n" + v.out);
        c.label("success");
    }
    c.check(cli::slurp(dir.path / "good.bms").size() > 20 && cli::slurp(dir.path / "good.txt").size() > 5, "an input file has been changed");
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C20";
    p.rule = "bm-cli, built from the tree with sanitizers, is run in a scratch directory on generated programs and documents (valid, "
             "faulty, padded to sizes around the multiples of the read buffer) with all commands and languages, and on wrong "
             "arguments, suffixes, directories, dangling links and full devices. Status, diagnostic and complete output are "
             "compared with the library's results in the harness. print_tokens and print_ast are compared with a reference lexer "
             "and a walk of the tree. Non-trivial: every run; distinct by arguments and text.";
    p.assumptions = { "texts with escape characters are left out, since colors are removed before comparing",
                      "programs whose constant evaluation needs more than 20000 steps or a call depth of 60 are left out" };
    p.targets = {
        { "program dumps", program_dumps, 12000, 500000 },
        { "document dumps", document_dumps, 12000, 500000 },
        { "programs", programs, 4000, 60000 },
        { "documents", documents, 1500, 25000 },
        { "misuse", misuse, 3000, 25000 },
    };
    return p;
}
