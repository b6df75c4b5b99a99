// C04: the BMS front end never fails internally on any input.
#include "cli.hpp"
#include "code.hpp"
#include "gen_syntax.hpp"
#include "pbt.hpp"

using pbt::Ctx;
using pbt::Src;

namespace {

/// Whether the program asks for an endless (or just very long) computation at compile time.
bool endless(const std::string& text)
{
    // Only loops and calls can take long.
    if (text.find("function") == text.npos)
        return false;
    try {
        const auto lex = ref::lex(text);
        if (!lex.ok)
            return false;
        ref::Parser p(lex.tokens);
        ref::Semantics sem(p.program());
        return false;
    } catch (const ref::Unspecified&) {
        return true;
    } catch (const ref::Syntax_Error&) {
        return false;
    }
}

void check_position(Ctx& c, std::string_view source, const bit_manipulation::Local_Source_Position& p, const char* what)
{
    c.check(p.begin <= source.size(), std::string("the position of the ") + what + " error lies outside of the source");
}

// The engine reports crashes, sanitizer findings, escaping exceptions and endless loops.
void process(Src& s, Ctx& c, const std::string& text, bool generate = true)
{
    c.show(text.size() < 3000 ? text : pbt::quote(text));
    if (endless(text))
        c.discard();
    front::Program p(text);
    const auto v = p.verdict();
    c.label(v);
    if (text.size() >= 4)
        c.nontrivial(text);
    switch (p.failed_at) {
    case front::Stage::tokenize: return check_position(c, p.source, p.tokenize_error->pos, "tokenize");
    case front::Stage::parse: return check_position(c, p.source, p.parse_error->fail_token.pos, "parse");
    case front::Stage::analyze:
        if (p.analysis_error->fail_pos())
            check_position(c, p.source, *p.analysis_error->fail_pos(), "analysis");
        if (p.analysis_error->cause_pos())
            check_position(c, p.source, *p.analysis_error->cause_pos(), "analysis (cause)");
        return;
    case front::Stage::done: break;
    }
    if (!generate)
        return;
    code::bmd::Code_Options o;
    code::gen_layout(s, o);
    o.always_parenthesize_subexpressions = s.flag();
    o.c_23 = s.flag();
    o.c_prefer_bitint = o.c_23 && s.flag();
    using L = code::bmd::Code_Language;
    for (auto lang : { L::bms, L::c, L::cpp, L::rust, L::java, L::kotlin, L::javascript, L::typescript }) {
        const auto t = code::generate(p, lang, o);
        c.label(std::string(code::bmd::code_language_name(lang)) + (t.ok ? " text" : " generation error"));
    }
}


void bytes(Src& s, Ctx& c)
{
    const auto set = s.pick({ "", "functioxyz(){}:;->UintBool1, ", "/*\n a\"\\", "0123456789abcdefxXob_ ", "=<>!&|~^+-*/%()",
                              "@a(\"\\\"=1,) \n", " \t\r\n/*" });
    std::string t;
    for (int n = s.upto(24); n > 0; --n)
        t += set.empty() ? char(s.upto(255)) : s.pick_char(set);
    process(s, c, t);
}

std::string token(Src& s)
{
    const auto k = s.pick(gen::all_kinds());
    if (k != "identifier" || s.chance(60))
        return gen::spell(s, k);
    return std::string(s.pick({ "N", "assert", "A", "g", "limit", "c_equivalent", "instantiate", "inline" }));
}
void tokens(Src& s, Ctx& c)
{
    std::vector<std::string> w;
    for (int n = s.upto(30); n > 0; --n)
        w.push_back(s.chance(4) ? std::string(s.pick({ "0x", "1a", "$", "\"", "/*", "\xff", "\\" , "#", "'" })) : token(s));
    process(s, c, gen::layout(s, w));
}

int symbol(std::string_view name)
{
    const auto& g = ref::Grammar::get();
    for (std::size_t i = 0; i < g.nonterminals.size(); ++i)
        if (g.nonterminals[i] == name)
            return int(i);
    throw std::logic_error("no such symbol: " + std::string(name));
}

/// Names that a fragment can use, so that most of them mean something.
struct Names {
    std::vector<std::string> pool { "A", "B", "C", "f", "g", "h", "p", "q", "N", "v", "w", "assert", "u", "r" };
};
std::string spelled(Src& s, const std::string& kind)
{
    static const Names names;
    if (kind == "identifier")
        return s.chance(4) ? gen::spell(s, kind) : s.pick(names.pool);
    if (kind.ends_with("_literal") && kind != "string_literal" && s.chance(20))
        return std::string(s.pick({ "0", "1", "8", "127", "128", "129", "255", "256", "170141183460469231731687303715884105727",
                                    "170141183460469231731687303715884105728", "340282366920938463463374607431768211456",
                                    "99999999999999999999999999999999999999999999", "0x80", "0b1" }));
    return gen::spell(s, kind);
}
/// What a fragment can refer to.
struct Scope {
    std::vector<std::string> vars, functions { "assert" };
    int fresh = 0;
};
std::string fragment(Src& s, Scope& sc, int symbol, int depth, std::size_t limit)
{
    std::vector<std::string> kinds, words;
    gen::derive(s, symbol, depth, kinds, limit, s.chance(10) ? 30 : 0);
    std::vector<std::size_t> marks;
    std::string declared;
    for (std::size_t i = 0; i < kinds.size(); ++i) {
        const auto& k = kinds[i];
        const auto next = i + 1 < kinds.size() ? kinds[i + 1] : "", before = i > 0 ? kinds[i - 1] : "";
        if (k == "left_brace")
            marks.push_back(sc.vars.size());
        if (k == "right_brace" && !marks.empty()) {
            sc.vars.resize(std::min(sc.vars.size(), marks.back()));
            marks.pop_back();
        }
        if (k == "semicolon" && !declared.empty()) {
            sc.vars.push_back(declared);
            declared.clear();
        }
        if (k != "identifier" || s.chance(3))
            words.push_back(spelled(s, k));
        else if (before == "keyword_let" || before == "keyword_const") {
            declared = "v" + std::to_string(sc.fresh++);
            words.push_back(declared);
        }
        else {
            const auto& pool = next == "left_parenthesis" ? sc.functions : sc.vars;
            words.push_back(pool.empty() ? spelled(s, k) : s.pick(pool));
        }
    }
    return gen::layout(s, words, 0);
}

/// Declarations with arbitrary expressions, types and statements in every hole.
void fragments(Src& s, Ctx& c)
{
    static const int expression = symbol("expr"), type = symbol("type"), block = symbol("block"),
                     declaration = symbol("decl");
    Scope sc;
    auto e = [&] { return fragment(s, sc, expression, 3 + s.upto(6), 14); };
    auto t = [&] { return s.chance(60) ? std::string(s.pick({ "Int", "Bool", "Uint(8)", "Void", "Uint(N)", "Uint(128)", "Uint(4)" }))
                                       : fragment(s, sc, type, 4 + s.upto(4), 10); };
    std::string r;
    for (int n = 1 + s.upto(5), i = 0; i < n; ++i) {
        const auto id = std::to_string(i);
        switch (s.weighted({ 2, 2, 2, 3, 3, 3, 1, 1 })) {
        case 0: r += "const A" + id + " = " + e() + ";"; break;
        case 1: r += "const A" + id + ": " + t() + " = " + e() + ";"; break;
        case 2: r += "const A" + id + " = " + std::string(s.pick({ "8", "true", "3 as Uint(8)", "1 + 1" })) + ";"; break;
        case 3:
        case 4:
        case 5: {
            const bool early = s.chance(20);
            if (early)
                sc.functions.push_back("f" + id);
            r += "function f" + id + "(";
            const auto vars = sc.vars;
            for (int k = s.weighted({ 2, 3, 2 }), j = 0; j < k; ++j) {
                r += (j ? ", p" : "p") + id + std::to_string(j) + ": " + t();
                sc.vars.push_back("p" + id + std::to_string(j));
            }
            if (r.find("(N)", r.rfind("function")) != r.npos)
                sc.vars.push_back("N");
            r += ") -> " + t();
            if (s.chance(25))
                r += " requires " + e();
            if (s.flag())
                r += fragment(s, sc, block, 6 + s.upto(8), 60);
            else
                r += " { let v" + id + ": " + t() + " = " + e() + "; v" + id + " = " + e() + "; while " + e() + " { return " + e() + "; } return "
                    + e() + "; }";
            sc.vars = vars;
            if (!early)
                sc.functions.push_back("f" + id);
            break;
        }
        case 6: r += "static_assert(" + e() + ");"; break;
        default: r += fragment(s, sc, declaration, 8 + s.upto(6), 60); break;
        }
        if (r.rfind("const A" + id) != r.npos)
            sc.vars.push_back("A" + id);
        r += "\n";
    }
    process(s, c, r);
}

void sentences(Src& s, Ctx& c)
{
    if (s.chance(20))
        return process(s, c, gen::layout(s, gen::near_miss(s)));
    auto k = gen::sentence(s, 10 + s.upto(20), 40 + std::size_t(s.upto(160)), s.chance(30) ? 50 : 2);
    for (int n = s.weighted({ 5, 3, 1 }); n > 0; --n)
        gen::edit(s, k);
    std::vector<std::string> w;
    for (auto& x : k)
        w.push_back(spelled(s, x));
    process(s, c, gen::layout(s, w));
}

std::string annotation(Src& s)
{
    std::string r = "@" + std::string(s.pick({ "immutable", "inline", "loop_variable", "loop_step", "unroll", "c_equivalent",
                                               "java_equivalent", "instantiate", "false_if_unknown", "remove_if_unused",
                                               "zzz", "a", "unrol", "while_", "_" }));
    if (s.chance(60)) {
        r += "(";
        const int n = s.upto(4);
        for (int i = 0; i < n; ++i) {
            if (i)
                r += ", ";
            if (s.chance(40))
                r += std::string(s.pick({ "limit", "n", "include", "since", "method", "x" })) + " = ";
            r += s.pick({ "1", "\"f\"", "true", "0", "128", "\"\"", "0x10", "99999999999999999999999999999999999999999999", "\"\\\"\"", "23",
                          "170141183460469231731687303715884105727", "340282366920938463463374607431768211455" });
        }
        r += ")";
    }
    return r;
}

/// Well-typed programs with edits of the tree, annotations anywhere, and edits of the tokens.
void programs(Src& s, Ctx& c)
{
    gen::Prog_Options o;
    o.runtime_errors = s.chance(40);
    o.size = 20 + s.upto(120);
    auto t = prog::gen_tree(s, o, s.weighted({ 2, 2, 2, 2, 2, 2, 2, 2, 2 }));
    auto text = prog::plain(t);
    if (s.chance(40)) {
        const auto lex = ref::lex(text);
        const int percent = 3 + s.upto(20);
        std::string r;
        std::size_t last = 0;
        for (auto& tok : lex.tokens) {
            r += text.substr(last, tok.begin - last);
            last = tok.begin;
            const auto word = text.substr(tok.begin, tok.length);
            if ((word == "let" || word == "if" || word == "while" || word == "function" || word == "const" || word == ";"
                 || s.chance(2))
                && s.chance(percent))
                r += annotation(s) + " ";
        }
        text = r + text.substr(last);
    }
    if (s.chance(50)) {
        const auto lex = ref::lex(text);
        std::vector<std::string> w;
        for (auto& tok : lex.tokens)
            w.push_back(text.substr(tok.begin, tok.length));
        for (int n = 1 + s.weighted({ 4, 2, 1, 1 }); n > 0 && !w.empty(); --n) {
            const auto at = s.draw32(std::uint32_t(w.size()));
            switch (s.upto(5)) {
            case 0: w.erase(w.begin() + at); break;
            case 1: w[at] = token(s); break;
            case 2: std::swap(w[at], w[s.draw32(std::uint32_t(w.size()))]); break;
            case 3: w.insert(w.begin() + at, w[s.draw32(std::uint32_t(w.size()))]); break;
            case 4: w[at] = w[s.draw32(std::uint32_t(w.size()))]; break;
            default: w.insert(w.begin() + at, token(s)); break;
            }
        }
        text = gen::layout(s, w, 1);
    }
    process(s, c, text);
}

/// An annotation for a place where it may stand, right but for a few arguments.
std::string fitting_annotation(Src& s, std::string_view place)
{
    struct Parameter {
        std::string_view name, type;
    };
    struct Known {
        std::string_view name, place;
        std::vector<Parameter> parameters;
    };
    static const std::vector<Known> known {
        { "immutable", "let", {} },
        { "inline", "let", {} },
        { "inline", "call", {} },
        { "loop_variable", "let", {} },
        { "loop_step", "assignment", {} },
        { "unroll", "while", { { "limit", "integer" } } },
        { "c_equivalent", "function", { { "function", "string" }, { "include", "string" }, { "since", "integer" } } },
        { "java_equivalent", "function", { { "method", "string" } } },
        { "instantiate", "function", { { "n", "integer" } } },
        { "false_if_unknown", "if", {} },
        { "remove_if_unused", "function", {} },
    };
    std::vector<const Known*> fit;
    for (auto& k : known)
        if (k.place == place || s.chance(3))
            fit.push_back(&k);
    if (fit.empty())
        return "";
    const auto& k = *s.pick(fit);
    std::string r = "@" + std::string(k.name);
    std::size_t n = k.parameters.size();
    if (s.chance(15))
        n = std::size_t(s.upto(int(n) + 1));
    if (n == 0 && s.flag())
        return r + " ";
    r += "(";
    for (std::size_t i = 0; i < n; ++i) {
        const bool inside = i < k.parameters.size();
        r += i ? ", " : "";
        if (s.chance(25))
            r += std::string(inside && !s.chance(10) ? k.parameters[i].name : s.pick({ "limit", "n", "x", "include", "" })) + " = ";
        if (inside && k.parameters[i].type == "integer" && !s.chance(5))
            r += s.pick({ "1", "8", "128", "129", "0", "23", "89", "0x10", "0b1", "0", "170141183460469231731687303715884105727",
                          "170141183460469231731687303715884105728", "340282366920938463463374607431768211456", "18446744073709551616",
                          "0xffffffffffffffffffffffffffffffff", "0o7", "-1", "99999999999999999999999999999999999999999999" });
        else if (inside && !s.chance(5))
            r += s.pick({ "\"f\"", "\"\"", "\"\\\"\"", "\"a b\"", "\"\\\\\"", "\"x.h\"", "\"\xff\"" });
        else
            r += s.pick({ "true", "false", "1", "\"s\"", "f", "1 + 1", "" });
    }
    return r + (s.chance(4) ? ",)" : ") ");
}
/// A small program with fitting annotations.
void annotated(Src& s, Ctx& c)
{
    int bad = 1 + s.upto(1);
    auto a = [&](std::string_view place) {
        std::string r;
        while (bad > 0 && s.chance(25)) {
            r += fitting_annotation(s, place);
            --bad;
        }
        return r;
    };
    std::string t;
    t += a("const") + "const c: Int = 2;\n";
    const bool generic = s.flag();
    t += a("function") + "function g(x: Uint(" + (generic ? "N" : "8") + ")) -> Int { return 1; }\n";
    t += a("function") + "function f(x: Int) -> Int {\n";
    t += a("let") + "let i: Int = 0;\n" + a("const") + "const k = 3;\n";
    t += a("while") + "while i < k {" + a("assignment") + "i = i + 1; " + a("break") + "continue; }\n";
    t += a("if") + "if i == x {" + a("let") + "let j = " + a("call") + "g(3 as Uint(" + (generic ? "7" : "8") + "));} else "
        + a("if") + "if true { }\n";
    t += a("return") + "return i; }\n";
    if (s.flag())
        t += "const r = f(" + std::to_string(s.upto(3)) + ");";
    process(s, c, t);
}

/// Functions and constants that use one another, in any order and often in cycles; no loops.
void graphs(Src& s, Ctx& c)
{
    const int nodes = 2 + s.upto(5), first_constant = s.upto(nodes), percent = 10 + s.upto(60);
    const auto width = [&] { return s.pick({ "Int", "Int", "Int", "Uint(8)", "Uint(N)" }); };
    std::vector<std::string> types;
    for (int i = 0; i < nodes; ++i)
        types.push_back(s.chance(85) ? "Int" : std::string(width()));
    std::vector<int> uses(std::size_t(nodes), 0);
    auto atom = [&](int self) -> std::string {
        if (s.chance(percent)) {
            // Mostly the next node, so that long cycles occur.
            const int to = s.chance(50) ? (self + 1) % nodes : s.upto(nodes - 1);
            if (++uses[std::size_t(self)] <= 2)
                return to >= first_constant ? "n" + std::to_string(to)
                                            : "n" + std::to_string(to) + "(" + (types[std::size_t(to)] == "Int" ? "1" : "1 as Uint(8)") + ")";
        }
        if (self < first_constant && types[std::size_t(self)] == "Int" && s.flag())
            return "x";
        return std::to_string(s.upto(3));
    };
    std::string t;
    for (int i = 0; i < nodes; ++i) {
        const auto id = std::to_string(i);
        if (i >= first_constant) {
            t += "const n" + id + (s.flag() ? ": Int" : "") + " = " + atom(i) + (s.chance(30) ? " + " + atom(i) : "") + ";\n";
            continue;
        }
        t += "function n" + id + "(x: " + types[std::size_t(i)] + ") -> Int";
        if (s.chance(20))
            t += " requires " + atom(i) + " == " + atom(i);
        t += " { ";
        if (s.chance(30))
            t += "const k = " + atom(i) + "; ";
        if (s.chance(30))
            t += "if " + atom(i) + " == 0 { return " + atom(i) + "; } ";
        if (s.chance(15))
            t += "static_assert(" + atom(i) + " >= 0); ";
        t += "return " + atom(i) + (s.chance(30) ? " - " + atom(i) : "") + "; }\n";
    }
    if (s.flag())
        t += "const end = " + atom(nodes - 1) + ";\n";
    if (s.chance(30))
        t += "static_assert(" + atom(nodes - 1) + " == 1);\n";
    process(s, c, t);
}

/// Long and deep repetitions.
void deep(Src& s, Ctx& c)
{
    struct Shape {
        std::string_view before, open, middle, close, after;
    };
    static const std::vector<Shape> shapes {
        { "const x = ", "(", "1", ")", ";" },
        { "const x = ", "-", "1", "", ";" },
        { "const x = ", "!", "true", "", ";" },
        { "const x = ", "1 + ", "1", "", ";" },
        { "const x = ", "true if true else ", "false", "", ";" },
        { "function f() -> Void ", "{", "", "}", "" },
        { "function f() -> Void { ", "if true {", "", "}", "}" },
        { "function f() -> Void { ", "if true {} else ", "{}", "", "}" },
        { "function f() -> Void { ", "while false {", "", "}", "}" },
        { "function f(p: Int) -> Int { return ", "f(", "p", ")", "; }" },
        { "function f(p: Int) -> Int { return ", "p + (", "p", ")", "; }" },
        { "function f(p: Bool) -> Bool { return ", "p && ", "p", "", "; }" },
        { "", "const x = 1;", "", "", "" },
        { "", "/*", "", "*/", "" },
        { "", "@a(", "", ")", "" },
        { "const x = 1", " as Uint(8)", ";", "", "" },
        { "", "(", "", "", "" },
        { "", "{", "", "", "" },
        { "const x = ", "0", ";", "", "" },
        { "", "\"", "", "", "" },
        { "// ", "\\", "\n", "", "" },
    };
    const auto& sh = s.pick(shapes);
    const int n = s.upto(s.chance(20) ? 250 : 30);
    std::string t(sh.before);
    for (int i = 0; i < n; ++i)
        t += sh.open;
    t += sh.middle;
    for (int i = 0; i < n; ++i)
        t += sh.close;
    process(s, c, t + std::string(sh.after));
}

/// The command line tool on the same kinds of inputs.
void tool(Src& s, Ctx& c)
{
    std::string text;
    switch (s.upto(4)) {
    case 0: {
        std::vector<std::string> w;
        for (int n = s.upto(30); n > 0; --n)
            w.push_back(s.chance(8) ? std::string(s.pick({ "0x", "1a", "$", "\"", "/*", "\xff" })) : token(s));
        text = gen::layout(s, w);
        break;
    }
    case 1: {
        auto k = gen::sentence(s, 10 + s.upto(10), 60, 5);
        for (int n = s.weighted({ 1, 3, 1 }); n > 0; --n)
            gen::edit(s, k);
        std::vector<std::string> w;
        for (auto& x : k)
            w.push_back(spelled(s, x));
        text = gen::layout(s, w);
        break;
    }
    default: {
        gen::Prog_Options o;
        o.runtime_errors = s.chance(40);
        o.size = 20 + s.upto(60);
        text = prog::plain(prog::gen_tree(s, o, s.weighted({ 1, 3, 2, 1 })));
    }
    }
    c.show(text);
    if (endless(text))
        c.discard();
    cli::Scratch dir;
    dir.write("p.bms", text);
    const std::vector<std::vector<std::string>> commands {
        { "verify", "p.bms" }, { "dump_tokens", "p.bms" }, { "dump_ast", "p.bms" }, { "generate", "p.bms", "bms" },
        { "generate", "p.bms", "c" }, { "generate", "p.bms", "c++" }, { "generate", "p.bms", "rust" }
    };
    const auto& args = s.chance(60) ? commands[0] : s.pick(commands);
    const auto r = cli::run(dir, args);
    c.check(r.irregular().empty(), "bm-cli " + args[0] + ": " + r.irregular());
    c.label("bm-cli " + args[0] + (r.status == 0 ? " succeeds" : " fails"));
    c.nontrivial(args[0] + text);
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C04";
    p.rule = "Random bytes, token soups, grammar sentences and edits of them, declarations with arbitrary types, "
             "expressions and statements over declared names in every hole, well-typed programs with up to eight "
             "edits of the tree, annotations anywhere and edits of the tokens, small programs with fitting annotations, "
             "graphs of functions and constants that use one another in any order, long and deep repetitions. Every input "
             "goes through tokenizer, parser, analyzer (which generates VM code) and, when accepted, all code generators "
             "under random options, with sanitizers and assertions that throw; a share goes through bm-cli, whose output "
             "may not tell of an internal error. Non-trivial: at least four bytes; distinct by text.";
    p.assumptions = { "programs whose constant evaluation needs more than 20000 steps or a call depth of 60 are left out",
                      "nesting up to 250 levels: parser, analyzer and generators use the stack" };
    p.targets = {
        { "bytes", bytes, 100000, 3000000 },
        { "tokens", tokens, 60000, 2000000 },
        { "sentences", sentences, 15000, 500000 },
        { "fragments", fragments, 40000, 1500000 },
        { "programs", programs, 12000, 400000 },
        { "annotated", annotated, 6000, 300000 },
        { "graphs", graphs, 8000, 400000 },
        { "deep", deep, 2000, 30000 },
        { "tool", tool, 1200, 20000 },
    };
    for (std::string t : { "", "/", "/*", "//", "\"", "\"\\", "0x", "@", "const", "static_assert", "function f() -> Void {}" })
        p.fixed.push_back({ pbt::quote(t), [t](Ctx& c) {
                               Src s;
                               s.seed(1);
                               process(s, c, t);
                           } });
    return p;
}
