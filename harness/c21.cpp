// C21: diagnostics point into the program at the offending construct.
#include <iomanip>
#include <set>
#include <sstream>

#include "annot.hpp"
#include "cli.hpp"
#include "gen_code.hpp"
#include "gen_doc.hpp"
#include "gen_syntax.hpp"
#include "html.hpp"
#include "prog.hpp"

#include "common/diagnostics.hpp"
#include "bms/parsing/grammar.hpp"

using pbt::Ctx;
using pbt::Src;

namespace {

namespace bm = bit_manipulation;
using Position = bm::Local_Source_Position;

std::string strip_colors(std::string_view t)
{
    std::string r;
    for (std::size_t i = 0; i < t.size(); ++i) {
        if (t[i] == '\x1b' && i + 1 < t.size() && t[i + 1] == '[') {
            i += 2;
            while (i < t.size() && (std::isdigit((unsigned char)t[i]) || t[i] == ';'))
                ++i;
            continue; // the final letter
        }
        r += t[i];
    }
    return r;
}

std::string str(const Position& p)
{
    return "offset " + std::to_string(p.begin) + ", line " + std::to_string(p.line) + ", column " + std::to_string(p.column);
}

void consistent(Ctx& c, std::string_view source, const Position& p, const std::string& what)
{
    c.check(p.begin <= source.size(), what + " lies outside of the source: " + str(p));
    const auto want = refbmd::position(source, p.begin);
    c.check(want.line == p.line && want.column == p.column,
            what + " has " + str(p) + ", but that offset is at line " + std::to_string(want.line) + ", column "
                + std::to_string(want.column));
}

std::string line_at(std::string_view source, std::size_t at)
{
    std::size_t b = at, e = at;
    while (b > 0 && source[b - 1] != '\n')
        --b;
    while (e < source.size() && source[e] != '\n')
        ++e;
    return std::string(source.substr(b, e - b));
}

/// The quotation of the line of a position, with the mark below it.
std::string quotation(std::string_view source, const Position& p)
{
    auto number = std::to_string(p.line + 1);
    if (number.size() < 5)
        number.insert(0, 5 - number.size(), ' ');
    return number + " | " + line_at(source, p.begin) + "\n      | " + std::string(p.column, ' ') + "^\n";
}
std::string location(std::string_view file, const Position& p)
{
    return std::string(file) + ":" + std::to_string(p.line + 1) + ":" + std::to_string(p.column + 1) + ": ";
}

/// What is printed, without colors; the colored text must be the same apart from colors.
template <class F>
std::string printed(Ctx& c, F print)
{
    std::string text[2];
    for (bool colors : { false, true }) {
        std::ostringstream out;
        if (colors) // streams may come in any state
            out << std::left << std::setfill('#');
        print(out, colors);
        c.check(bool(out), "printing fails");
        text[colors] = out.str();
    }
    c.check(text[0].find("\x1b[") == text[0].npos, "colors are printed although they are disabled:\n" + text[0]);
    c.check(strip_colors(text[1]) == text[0], "the colored text differs:\n" + text[1] + "\nfrom\n" + text[0]);
    c.check(text[0].empty() || text[0].back() == '\n', "the diagnostic does not end its line");
    return text[0];
}

/// One diagnostic that begins at `p`.
void shows(Ctx& c, const std::string& text, std::string_view file, std::string_view source, const Position& p, bool first)
{
    const auto where = location(file, p);
    const auto at = text.find(where);
    c.check(at != text.npos, "the position " + where + " is not shown:\n" + text);
    if (first)
        c.check(at == 0 && text.compare(where.size(), 7, "error: ") == 0, "the diagnostic does not begin with its position:\n" + text);
    const auto q = quotation(source, p);
    const auto quoted = text.find("\n" + q, at);
    c.check(quoted != text.npos, "the line is not quoted exactly; expected\n" + q + "in\n" + text);
    c.check(text.find("internal error") == text.npos, "the diagnostic tells of an internal error:\n" + text);
}

/// How the reference judges the offending token.
struct Expected {
    std::string code;
    std::vector<std::size_t> offsets;
    std::map<std::size_t, std::size_t> inner {}; // offset of a call -> offset of what failed inside of the called function
};

/// Errors about a name that is declared elsewhere have that declaration as their cause.
void same_name(Ctx& c, const front::Program& p, const std::string& v)
{
    static const std::set<std::string> about_names {
        "failed_to_define_global_const", "failed_to_define_function", "failed_to_define_parameter", "failed_to_define_variable",
        "let_variable_in_constant_expression", "parameter_in_constant_expression", "function_in_expression", "assigning_parameter",
        "assigning_function", "assigning_const", "call_non_function",
    };
    const auto& e = *p.analysis_error;
    if (!about_names.count(v.substr(v.find(':') + 1)) || !e.cause_pos())
        return;
    std::vector<ref::Tok> toks;
    for (auto& t : ref::lex(std::string(p.source)).tokens)
        if (!t.kind.ends_with("_comment"))
            toks.push_back(t);
    const auto name_at = [&](std::size_t begin) -> std::string {
        for (std::size_t i = 0; i < toks.size(); ++i) {
            if (toks[i].begin != begin)
                continue;
            // annotations come first
            for (; i + 1 < toks.size() && toks[i].kind == "at"; ++i) {
                i += 2;
                if (i < toks.size() && toks[i].kind == "left_parenthesis")
                    while (i + 1 < toks.size() && toks[i].kind != "right_parenthesis")
                        ++i;
                else
                    --i;
            }
            if (toks[i].kind.starts_with("keyword_") && i + 1 < toks.size())
                ++i;
            return std::string(p.source.substr(toks[i].begin, toks[i].length));
        }
        return "no token";
    };
    const auto fail = name_at(e.fail_pos()->begin), cause = name_at(e.cause_pos()->begin);
    c.check(fail == cause,
            v + " for '" + fail + "' at " + str(*e.fail_pos()) + " names '" + cause + "' at " + str(*e.cause_pos()) + " as its cause");
    c.check(e.fail_pos()->begin != e.cause_pos()->begin, v + " names itself as its cause");
    c.label("cause of the same name");
}

/// The text of tokens that have only one.
std::string fixed_text(const std::string& kind)
{
    for (auto& [t, n] : ref::punctuation())
        if (n == kind)
            return "'" + t + "'";
    for (auto& [t, n] : ref::keywords())
        if (n == kind)
            return "'" + t + "'";
    return "";
}

/// Tokens which a syntax error expects are tokens a program could continue with, and they are printed.
void suggestions(Ctx& c, const bm::bms::Parse_Error& e, const std::set<std::string>& viable, const std::string& out)
{
    std::string text = out; // without the quoted line
    if (const auto q = text.find(" | "); q != text.npos)
        text.resize(text.rfind('\n', q) + 1);
    c.check(!e.expected_tokens.empty(), "the syntax error does not say what is expected");
    c.check(!bm::bms::grammar_rule_name(e.fail_rule).empty() && text.find(bm::bms::grammar_rule_name(e.fail_rule)) != text.npos,
            "the rule which does not match is not named:\n" + out);
    std::set<bm::bms::Token_Type> seen;
    for (const auto type : e.expected_tokens) {
        const std::string kind(token_type_name(type));
        c.check(seen.insert(type).second, "'" + kind + "' is expected twice");
        c.check(viable.count(kind) != 0, "'" + kind + "' is said to be expected, but no program continues with it:\n" + out);
        const auto fixed = fixed_text(kind);
        c.check(fixed.empty() ? text.find(token_type_readable_name(type)) != text.npos : text.find(fixed) != text.npos,
                "'" + kind + "' is expected but not printed:\n" + out);
        c.label("expected: " + kind);
    }
    if (e.fail_token.pos.length != 0) {
        const auto fixed = fixed_text(std::string(token_type_name(e.fail_token.type)));
        c.check(fixed.empty() || text.find(fixed) != text.npos, "the unexpected token is not printed:\n" + out);
    }
}

void judge_program(Ctx& c, const std::string& text, const std::function<Expected(const std::string& verdict)>& expected = {})
{
    c.show(text.size() < 3000 ? text : pbt::quote(text));
    front::Program p(text);
    const auto v = p.verdict();
    c.label(v);
    if (p.ok())
        return;
    c.nontrivial(text);
    switch (p.failed_at) {
    case front::Stage::tokenize: {
        const auto& e = *p.tokenize_error;
        const auto lex = ref::lex(text);
        c.check(!lex.ok && e.pos.begin == lex.error_at && e.pos.line == lex.error_line && e.pos.column == lex.error_column,
                "the tokenizer stops at " + str(e.pos) + " instead of offset " + std::to_string(lex.error_at));
        const auto out = printed(c, [&](std::ostream& o, bool colors) { bm::print_tokenize_error(o, "a b.bms", p.source, e, colors); });
        shows(c, out, "a b.bms", p.source, e.pos, true);
        return;
    }
    case front::Stage::parse: {
        const auto& e = *p.parse_error;
        consistent(c, p.source, e.fail_token.pos, "the failing token");
        const auto lex = ref::lex(text);
        if (!lex.ok)
            throw std::logic_error("references disagree: " + text);
        std::vector<ref::Tok> toks;
        std::vector<std::string> kinds;
        for (auto& t : ref::Parser(lex.tokens).t) {
            toks.push_back(t);
            kinds.push_back(t.kind);
        }
        const auto rec = ref::recognize(kinds);
        c.check(!rec.accepted, "a valid program is rejected");
        const auto at = e.fail_token.pos.begin;
        if (rec.error_at < toks.size())
            c.check(at == toks[rec.error_at].begin,
                    "the syntax error is reported at " + str(e.fail_token.pos)
                        + ", but the first token that no program can continue with is at offset " + std::to_string(toks[rec.error_at].begin));
        else // the end of the file is the last token or anything after it
            c.check(e.fail_token.pos.length == 0 && (toks.empty() || at >= toks.back().begin),
                    "the program ends too early, but the error is reported at " + str(e.fail_token.pos));
        c.label(rec.error_at < toks.size() ? "syntax error at a token" : "syntax error at the end");
        const auto out = printed(c, [&](std::ostream& o, bool colors) { bm::print_parse_error(o, "p.bms", p.source, e, colors); });
        shows(c, out, "p.bms", p.source, e.fail_token.pos, true);
        suggestions(c, e, rec.viable, out);
        return;
    }
    case front::Stage::analyze: {
        const auto& e = *p.analysis_error;
        c.check(e.fail_pos().has_value(), "the analysis error " + v + " has no position");
        consistent(c, p.source, *e.fail_pos(), "the position of " + v);
        c.check(e.fail_pos()->file_name == "file.bms", "the error names another file");
        if (e.cause_pos())
            consistent(c, p.source, *e.cause_pos(), "the cause of " + v);
        same_name(c, p, v);
        const auto out = printed(c, [&](std::ostream& o, bool colors) { bm::print_analysis_error(o, *p.parsed, e, colors); });
        shows(c, out, "file.bms", p.source, *e.fail_pos(), true);
        if (e.cause_pos() && e.code() != bm::bms::Analysis_Error_Code::width_invalid)
            shows(c, out, "file.bms", p.source, *e.cause_pos(), false);
        if (expected) {
            const auto want = expected(v);
            std::string list;
            bool found = want.offsets.empty();
            for (auto o : want.offsets) {
                found |= o == e.fail_pos()->begin;
                list += std::to_string(o) + " ";
            }
            c.label(v + (want.offsets.empty() ? " unplaced" : found ? " placed" : " misplaced"));
            c.check(found, v + " is reported at " + str(*e.fail_pos()) + ", but the rule is broken at offset " + list);
            if (const auto it = want.inner.find(e.fail_pos()->begin); it != want.inner.end()) {
                c.label("error inside of a call");
                c.check(e.cause_pos() && e.cause_pos()->begin == it->second,
                        v + " happens at offset " + std::to_string(it->second) + " inside of the called function, but "
                            + (e.cause_pos() ? str(*e.cause_pos()) : "nothing") + " is named as its cause");
            }
        }
        return;
    }
    default: break;
    }
}

void tokens(Src& s, Ctx& c)
{
    std::string t;
    for (int n = s.upto(12); n > 0; --n)
        t += s.pick({ "x", "1", "0x", "0b", "0x1F", "12ab", " ", "\n", "\t", "\r\n", "\"a\"", "\"", "\\", "/*", "*/", "// c\n", "//", "/* c\n */",
                      "$", "\xff", "'", "#", "+", "=", "let", "\xc3\xa4", "\r" });
    judge_program(c, t);
}

void syntax(Src& s, Ctx& c)
{
    if (s.chance(35))
        return judge_program(c, gen::layout(s, gen::near_miss(s)));
    auto k = gen::sentence(s, 6 + s.upto(14), 60, s.flag() ? 50 : 5);
    for (int n = 1 + s.weighted({ 5, 3, 1 }); n > 0; --n)
        gen::edit(s, k);
    std::vector<std::string> w;
    for (auto& x : k)
        w.push_back(gen::spell(s, x));
    judge_program(c, gen::layout(s, w));
}

/// Where the reference sees errors of a kind.
Expected where(const prog::Meaning& m, const std::string& verdict)
{
    Expected e;
    for (auto& x : m.sem->errors)
        if (verdict == "analysis:" + x.code) {
            e.offsets.push_back(m.toks.at(x.tok).begin);
            if (x.inner)
                e.inner[e.offsets.back()] = m.toks.at(*x.inner).begin;
        }
    return e;
}

void edited(Src& s, Ctx& c)
{
    gen::Prog_Options o;
    o.runtime_errors = s.chance(30);
    o.size = 20 + s.upto(100);
    o.functions = 1 + s.upto(2);
    o.constants = s.upto(3);
    const auto tree = prog::gen_tree(s, o, s.weighted({ 2, 6, 3 }));
    std::string text = prog::plain(tree);
    if (s.chance(40))
        text = gen::layout(s, ref::unparse(tree), 4);
    std::optional<prog::Meaning> m;
    try {
        m.emplace(text);
    } catch (const ref::Unspecified&) {
        c.discard();
    }
    judge_program(c, text, [&](const std::string& v) { return where(*m, v); });
}

// ---- values ---------------------------------------------------------------------------------------

std::string spelled(const ref::Val& v)
{
    const auto text = [](ref::Z z) { return z.str(); };
    if (v.t.k == 'B')
        return v.v != 0 ? "true" : "false";
    if (v.t.k == 'I') {
        if (v.v >= 0)
            return text(v.v);
        return v.v == -ref::pow2(127) ? "(-" + text(ref::pow2(127) - 1) + " - 1)" : "(-" + text(-v.v) + ")";
    }
    const auto type = "Uint(" + std::to_string(v.t.w) + ")";
    if (v.v < ref::pow2(127))
        return "(" + text(v.v) + " as " + type + ")";
    return "(~(" + text(ref::pow2(128) - 1 - v.v) + " as " + type + "))";
}
std::string type_text(ref::Type t) { return t.k == 'B' ? "Bool" : t.k == 'I' ? "Int" : "Uint(" + std::to_string(t.w) + ")"; }
std::string shown(const ref::Val& v) { return v.t.k == 'B' ? (v.v != 0 ? "true" : "false") : v.v.str(); }

/// A constant calls a function that fails somewhere inside.
void calls(Src& s, Ctx& c)
{
    gen::Prog_Options o;
    o.size = 20 + s.upto(60);
    o.functions = 2 + s.upto(2);
    o.constants = s.upto(2);
    const auto tree = prog::gen_tree(s, o, 0);
    std::string text = prog::plain(tree);
    try {
        prog::Meaning m(text);
        if (!m.sem->ok())
            c.discard();
        std::vector<std::string> names;
        for (auto& k : m.tree->kids)
            if (k->kind == "Function" && !m.sem->function(k->text)->generic)
                names.push_back(k->text);
        if (names.empty())
            c.discard();
        for (int i = 0; i < 12; ++i) {
            auto* const f = m.sem->function(names[std::size_t(s.upto(int(names.size()) - 1))]);
            std::string call = f->fn->decl->text + "(";
            std::vector<ref::Val> args;
            const auto n = ref::Semantics::params(f).size();
            for (std::size_t k = 0; k < n; ++k) {
                args.push_back(vals::gen_val(s, m.sem->param_type(f, k)));
                call += (k ? ", " : "") + spelled(args.back());
            }
            call += ")";
            m.sem->budget = 20000;
            try {
                m.sem->call(f, args);
            } catch (const ref::Run_Error&) {
                text += s.chance(30) ? "static_assert(" + call + " == " + call + ");\n"
                    : "const zz = " + call + ";\n";
                if (s.chance(40)) {
                    text.insert(0, s.pick({ "/* \t */ ", "\n\n", "\t" }));
                    text += "const zy = 1;";
                }
                break;
            }
        }
    } catch (const ref::Unspecified&) {
        c.discard();
    }
    std::optional<prog::Meaning> m;
    try {
        m.emplace(text);
    } catch (const ref::Unspecified&) {
        c.discard();
    }
    judge_program(c, text, [&](const std::string& v) { return where(*m, v); });
}

/// Failed assertions show the values that were compared.
void values(Src& s, Ctx& c)
{
    ref::Type t = vals::gen_type(s);
    while (t.k == 'V')
        t = vals::gen_type(s);
    const auto cmp = [&](ref::Type t) {
        static const std::vector<ref::Op> all { ref::Op::eq, ref::Op::ne, ref::Op::lt, ref::Op::gt, ref::Op::le, ref::Op::ge };
        return t.k == 'B' ? all[std::size_t(s.upto(1))] : s.pick(all);
    };
    const auto name = [](ref::Op o) { return ref::op_texts().at(std::size_t(o)); };
    const auto truth = [](const ref::Val& a, ref::Op o, const ref::Val& b) { return ref::binary(a, o, b).v->v != 0; };
    auto value = [&] { return vals::gen_val(s, t); };
    const auto l = value(), r = s.chance(25) ? l : value();
    const auto op = cmp(t);
    const bool holds = truth(l, op, r);

    std::string text, at_line = "";
    for (int n = s.upto(3); n > 0; --n)
        text += s.pick({ "// x == y\n", "\n", "const unrelated", "  " }) == "const unrelated" ? "const unrelated" + std::to_string(n) + " = 1 < 2;\n" : "\n";
    // a comparison which is true
    auto noise = [&](const std::string& x, const std::string& y) {
        const auto o = name(cmp(t));
        switch (s.upto(6)) {
        case 0: return "let n@ = " + x + " " + o + " " + y + "; ";
        case 1: return "if " + x + " " + o + " " + y + " { let n@ = 1; } ";
        case 2: return std::string("assert(3 < 4); ");
        case 3: return std::string("let n@: Int = 1; while n@ < 3 { n@ = n@ + 1; } ");
        case 4: return std::string("assert(good(7)); ");
        case 5: return "assert(" + x + " == " + x + "); ";
        default: return std::string("let n@ = good(8); ");
        }
    };
    int fresh = 0;
    auto noises = [&](const std::string& x, const std::string& y) {
        std::string all;
        for (int n = s.upto(3); n > 0; --n) {
            auto one = noise(x, y);
            for (std::size_t at; (at = one.find('@')) != one.npos;)
                one.replace(at, 1, std::to_string(fresh));
            ++fresh;
            all += one;
            if (s.chance(20))
                all += "\n    ";
        }
        return all;
    };
    const auto good = "function good(a: Int) -> Bool { assert(a == a); return a > 6; }\n";
    const int shape = s.weighted({ 3, 2, 4, 2, 2, 2 });
    std::string want; // the comparison that is shown
    bool shows_one = true;
    const auto type = type_text(t);
    switch (shape) {
    case 0: text += "static_assert(" + spelled(l) + " " + name(op) + " " + spelled(r) + ");"; break;
    case 1:
        text += "const L = " + spelled(l) + ";\nconst R: " + type + " = " + spelled(r) + ";\nconst other = L == R;\nstatic_assert((L "
            + name(op) + " R));\n";
        break;
    case 2:
    case 3: {
        text += good;
        text += "function f(x: " + type + ", y: " + type + ") -> Bool {\n  " + noises("x", "y");
        if (shape == 2)
            text += "assert(x " + name(op) + " y); ";
        else {
            text += "let b = x " + name(op) + " y; " + noises("x", "y") + (s.flag() ? "assert(b); " : "assert(!(!b)); ");
            shows_one = false;
        }
        text += noises("x", "y") + "return true; }\nconst R = f(" + spelled(l) + ", " + spelled(r) + ");\n";
        break;
    }
    case 4: // in a function called by another one
        text += good;
        text += "function f(x: " + type + ", y: " + type + ") -> " + type + " { " + noises("y", "x") + "assert(x " + name(op)
            + " y); return y; }\n";
        text += "function g(x: " + type + ", y: " + type + ") -> Bool { " + noises("x", "y") + "let z: " + type + " = f(x, y); "
            + noises("x", "z") + "return x == z; }\n";
        text += "static_assert(g(" + spelled(l) + ", " + spelled(r) + ") || true);";
        break;
    default: { // a step of a loop
        const int from = s.upto(5), to = from + 1 + s.upto(8), bad = s.upto(15);
        text += good;
        text += "function f(n: Int) -> Int { let i: Int = " + std::to_string(from) + "; while i < n { " + noises("1", "2") + "assert(i != "
            + std::to_string(bad) + "); " + noises("3", "4") + "i = i + 1; } return i; }\nstatic_assert(f(" + std::to_string(to) + ") == "
            + std::to_string(to) + ");";
        if (t.k == 'B')
            for (std::size_t at; (at = text.find("1 < 2 {")) != text.npos;)
                text.replace(at, 5, "3 < 4");
        c.show(text);
        front::Program p(text);
        const bool fails = from <= bad && bad < to;
        if (!fails) {
            c.check(p.ok(), "no assertion fails, but the verdict is " + p.verdict());
            return;
        }
        want = std::to_string(bad) + " != " + std::to_string(bad);
        c.check(!p.ok(), "a failed assertion is ignored");
        break;
    }
    }
    const bool direct = shape < 2;
    if (shape != 5) {
        want = shown(l) + " " + name(op) + " " + shown(r);
        c.show(text);
    }
    front::Program p(text);
    const auto v = p.verdict();
    if (shape != 5 && holds) {
        if (shape == 4 && !p.ok())
            throw std::logic_error("unexpected verdict " + v + ":\n" + text);
        c.check(p.ok(), "the comparison is true, but the verdict is " + v);
        return;
    }
    c.check(!p.ok(), "a failed assertion is ignored");
    c.check(p.analysis_error && (direct ? v == "analysis:static_assertion_failed" : v.ends_with(":assertion_fail")
                                     || v.find("execution_error") != v.npos),
            "the verdict of a failed assertion is " + v);
    const auto out = printed(c, [&](std::ostream& o, bool colors) { bm::print_analysis_error(o, *p.parsed, *p.analysis_error, colors); });
    shows(c, out, "file.bms", p.source, *p.analysis_error->fail_pos(), true);
    const std::string sign = "note: Comparison evaluated to ";
    const auto at = out.find(sign);
    if (!shows_one) {
        c.check(at == out.npos, "a comparison is shown, although none was asserted:\n" + out);
        c.label("no comparison");
    }
    else {
        c.check(at != out.npos && out.compare(at + sign.size(), want.size() + 1, want + "\n") == 0,
                "the failed comparison is " + want + ", but the diagnostic is\n" + out);
        c.check(out.find(sign, at + 1) == out.npos, "more than one comparison is shown:\n" + out);
        c.label(direct ? "static_assert comparison" : "assert comparison");
    }
    c.nontrivial(text);
}

/// Widths that are not allowed are shown.
void widths(Src& s, Ctx& c)
{
    auto v = vals::gen_val(s, s.flag() ? ref::INT : ref::UINT(1 + s.upto(127)));
    const bool valid = v.v >= 1 && v.v <= 128;
    static const std::vector<std::string> shapes {
        "const a: Uint(@) = 0;", "const a = 0 as Uint(@);", "const w = @;\nfunction f(x: Uint(w)) -> Int { return 1; }",
        "function f() -> Uint(@) { return 0; }", "function f(n: Int) -> Int { let x: Uint(@) = n; return n; }",
    };
    auto text = shapes[std::size_t(s.upto(4))];
    for (std::size_t at; (at = text.find('@')) != text.npos;)
        text.replace(at, 1, spelled(v));
    c.show(text);
    front::Program p(text);
    if (valid) {
        c.check(p.ok(), "the width is valid, but the verdict is " + p.verdict());
        return;
    }
    c.check(p.verdict() == "analysis:width_invalid", "the verdict of an invalid width is " + p.verdict());
    const auto out = printed(c, [&](std::ostream& o, bool colors) { bm::print_analysis_error(o, *p.parsed, *p.analysis_error, colors); });
    shows(c, out, "file.bms", p.source, *p.analysis_error->fail_pos(), true);
    const auto want = "error: The width evaluated to " + shown(v) + ",";
    c.check(out.find(want) != out.npos, "the width is " + shown(v) + ", but the diagnostic is\n" + out);
    c.nontrivial(text);
}

// ---- annotations ----------------------------------------------------------------------------------

void annotations(Src& s, Ctx& c)
{
    const auto text = s.chance(70) ? annot::single(s) : annot::program(s);
    c.show(text);
    std::optional<prog::Meaning> m;
    try {
        m.emplace(text);
    } catch (const ref::Unspecified&) {
        c.discard();
    }
    std::vector<annot::Broken> broken;
    Ctx quiet;
    annot::judge_tree(m->tree, broken, quiet);
    judge_program(c, text, [&](const std::string& v) {
        Expected e;
        for (auto& b : broken)
            if (v == "analysis:" + b.code)
                e.offsets.push_back(m->toks.at(b.tok).begin);
        for (auto& x : m->sem->errors)
            if (v == "analysis:" + x.code) {
                e.offsets.push_back(m->toks.at(x.tok).begin);
                if (x.inner)
                    e.inner[e.offsets.back()] = m->toks.at(*x.inner).begin;
            }
        return e;
    });
    front::Program p(text);
    const auto v = p.verdict();
    if (v != "analysis:annotation_argument_wrong_type" && v != "analysis:annotation_argument_wrong_value")
        return;
    const auto out = printed(c, [&](std::ostream& o, bool colors) { bm::print_analysis_error(o, *p.parsed, *p.analysis_error, colors); });
    bool found = false;
    std::string wanted;
    for (auto& b : broken) {
        if (v != "analysis:" + b.code || !b.param || m->toks.at(b.tok).begin != p.analysis_error->fail_pos()->begin)
            continue;
        const auto want = "note: Parameter '" + b.param->name + "' must be ";
        wanted += want + "\n";
        const auto at = out.find(want);
        if (at == out.npos)
            continue;
        const auto line = out.substr(at, out.find('\n', at) - at);
        found |= line.size() > want.size() + 3
            && (!v.ends_with("type") || line.find(b.param->type == 'S' ? "string" : "integer", want.size()) != line.npos);
    }
    c.check(found, "the diagnostic does not say what the parameter must be; expected\n" + wanted + "in\n" + out);
    c.label("parameter named");
}

// ---- documents ------------------------------------------------------------------------------------

// ---- messages -------------------------------------------------------------------------------------

/// A line of the diagnostic which is not a quotation, without its position.
std::vector<std::string> sentences(const std::string& text)
{
    std::vector<std::string> r;
    for (std::size_t at = 0; at < text.size();) {
        const auto end = text.find('\n', at);
        const auto line = text.substr(at, end - at);
        const auto kind = std::min(line.find(": error: "), line.find(": note: "));
        if (kind != line.npos)
            r.push_back(line.substr(kind + 2));
        at = end == text.npos ? text.size() : end + 1;
    }
    return r;
}

/// Different problems, reported for the same place, are described in different words.
void messages(Src& s, Ctx& c)
{
    using A = bm::bms::Analysis_Error_Code;
    using V = bm::bms::Evaluation_Error_Code;
    using X = bm::bms::Execution_Error_Code;
    using T = bm::bms::Tokenize_Error_Code;
    using P = bm::bmd::Parse_Error_Code;
    using D = bm::bmd::Document_Error_Code;
    static const std::vector<A> analysis {
        A::failed_to_define_global_const, A::failed_to_define_function, A::failed_to_define_parameter, A::failed_to_define_variable,
        A::reference_to_undefined_variable, A::assignment_of_undefined_variable, A::call_to_undefined_function, A::width_not_integer,
        A::expected_constant_expression, A::let_variable_in_constant_expression, A::parameter_in_constant_expression,
        A::function_in_expression, A::condition_not_bool, A::invalid_integer_literal, A::assigning_parameter, A::assigning_function,
        A::assigning_const, A::call_non_function, A::wrong_number_of_arguments, A::codegen_call_to_unanalyzed,
        A::width_deduction_from_non_uint, A::static_assert_expression_not_bool, A::static_assertion_failed, A::requires_clause_not_bool,
        A::requires_clause_not_satisfied, A::use_of_undefined_variable, A::use_of_undefined_constant,
        A::empty_return_in_non_void_function, A::invalid_operator, A::void_operation, A::bool_arithmetic, A::bool_bitwise,
        A::bool_relational_comparison, A::int_bitwise, A::int_logical, A::uint_logical, A::non_bool_logical, A::incompatible_types,
        A::incompatible_widths, A::wrong_argument_type, A::break_outside_loop, A::continue_outside_loop, A::annotation_unknown,
        A::annotation_not_applicable, A::annotation_too_many_arguments, A::annotation_unknown_parameter,
        A::annotation_argument_duplicate, A::annotation_argument_wrong_type, A::annotation_argument_wrong_value,
        A::annotation_missing_argument,
    };
    static const std::vector<V> evaluation { V::type_error, V::division_by_zero, V::shift_too_much, V::assertion_fail,
                                             V::int_to_uint_range_error, V::int_overflow };
    static const std::vector<X> execution { X::load_uninitialized, X::pop, X::pop_call, X::jump_out_of_program, X::jump_if_not_bool,
                                            X::symbolic_jump, X::call_out_of_program, X::infinite_loop, X::missing_return };
    static const std::vector<T> tokenize { T::illegal_character, T::no_digits_following_integer_prefix, T::integer_suffix,
                                           T::unterminated_comment, T::unterminated_string };
    static const std::vector<P> parse { P::unexpected_character, P::unexpected_eof, P::unterminated_comment, P::invalid_integer_literal,
                                        P::integer_suffix, P::invalid_directive, P::duplicate_argument, P::directive_must_be_empty,
                                        P::paragraph_break_in_span, P::directive_in_text_span, P::text_in_directive_list,
                                        P::directive_not_allowed };
    static const std::vector<D> document { D::writer_misuse, D::directive_not_allowed, D::meta_not_at_start_of_file,
                                           D::duplicate_meta_entry, D::invalid_language, D::invalid_architecture,
                                           D::number_attribute_not_allowed, D::code_tokenization_failure };

    std::string source = "const a = 1;";
    for (int n = s.upto(3); n > 0; --n)
        source += s.pick({ "\n", "  ", "\t", "// words\n", "const x = 1;", "/* a\nb */" });
    const auto at = s.draw32(std::uint32_t(source.size() + 1));
    const auto counted = refbmd::position(source, at);
    const Position pos { counted.line, counted.column, at };
    c.show(pbt::quote(source) + " at offset " + std::to_string(at));
    const front::Program program(source, front::Stage::parse);
    c.check(program.parsed && !program.parse_error, "the program does not parse");

    // two different codes of one kind
    const auto pair = [&](std::size_t n) {
        const auto i = s.draw32(std::uint32_t(n)), j = s.draw32(std::uint32_t(n - 1));
        return std::pair<std::size_t, std::size_t> { i, j < i ? j : j + 1 };
    };
    const auto differ = [&](const char* kind, std::size_t count, auto print) {
        const auto [i, j] = pair(count);
        std::string text[2];
        std::size_t which[2] { i, j };
        for (int k = 0; k < 2; ++k) {
            text[k] = printed(c, [&](std::ostream& o, bool colors) { print(which[k], o, colors); });
            const auto where = location("m.bms", pos);
            c.check(text[k].starts_with(where + "error: "), "the diagnostic does not begin with its position " + where + "\n" + text[k]);
            c.check(text[k].find("\n" + quotation(source, pos)) != std::string::npos, "the line is not quoted:\n" + text[k]);
        }
        c.check(sentences(text[0]) != sentences(text[1]),
                std::string(kind) + " errors number " + std::to_string(i) + " and " + std::to_string(j) + " are described alike:\n" + text[0]);
        c.label(std::string("messages of ") + kind);
        c.nontrivial(std::string(kind) + text[0] + text[1]);
    };
    switch (s.weighted({ 6, 3, 3, 1, 2, 2 })) {
    case 3:
        return differ("tokenize", tokenize.size(), [&](std::size_t k, std::ostream& o, bool colors) {
            bm::print_tokenize_error(o, "m.bms", source, { tokenize[k], pos }, colors);
        });
    case 4:
        return differ("document syntax", parse.size(), [&](std::size_t k, std::ostream& o, bool colors) {
            bm::print_parse_error(o, "m.bms", source, bm::bmd::Parse_Error { parse[k], {}, pos }, colors);
        });
    case 5:
        return differ("document", document.size(), [&](std::size_t k, std::ostream& o, bool colors) {
            bm::print_document_error(o, "m.bms", source, { document[k], pos }, colors);
        });
    case 0: {
        const bool cause = s.flag();
        return differ("analysis", analysis.size(), [&](std::size_t k, std::ostream& o, bool colors) {
            bm::bms::Analysis_Error_Builder b(analysis[k]);
            b.fail(bm::bms::Construct::literal, bm::Source_Position { pos, "m.bms" });
            if (cause)
                b.cause(bm::bms::Construct::constant, bm::Source_Position { pos, "m.bms" });
            bm::print_analysis_error(o, *program.parsed, b.build(), colors);
        });
    }
    case 1: {
        const int cause = s.upto(2);
        return differ("evaluation", evaluation.size(), [&](std::size_t k, std::ostream& o, bool colors) {
            bm::bms::Analysis_Error_Builder b(evaluation[k]);
            b.fail(bm::bms::Construct::literal, bm::Source_Position { pos, "m.bms" });
            if (cause == 1)
                b.cause(bm::bms::Construct::constant, bm::Source_Position { pos, "m.bms" });
            if (cause == 2)
                b.cause(bm::bms::Construct::builtin_function, {}, "assert");
            bm::print_analysis_error(o, *program.parsed, b.build(), colors);
        });
    }
    default: {
        const bool cause = s.flag();
        return differ("execution", execution.size(), [&](std::size_t k, std::ostream& o, bool colors) {
            bm::bms::Analysis_Error_Builder b(execution[k]);
            b.fail(bm::bms::Construct::literal, bm::Source_Position { pos, "m.bms" });
            if (cause)
                b.cause(bm::bms::Construct::constant, bm::Source_Position { pos, "m.bms" });
            bm::print_analysis_error(o, *program.parsed, b.build(), colors);
        });
    }
    }
}

std::string code_name(bm::bmd::Parse_Error_Code code)
{
    using enum bm::bmd::Parse_Error_Code;
    switch (code) {
    case unexpected_character: return "unexpected_character";
    case unexpected_eof: return "unexpected_eof";
    case unterminated_comment: return "unterminated_comment";
    case invalid_integer_literal: return "invalid_integer_literal";
    case integer_suffix: return "integer_suffix";
    case invalid_directive: return "invalid_directive";
    case duplicate_argument: return "duplicate_argument";
    case directive_must_be_empty: return "directive_must_be_empty";
    case paragraph_break_in_span: return "paragraph_break_in_span";
    case directive_in_text_span: return "directive_in_text_span";
    case text_in_directive_list: return "text_in_directive_list";
    case directive_not_allowed: return "directive_not_allowed";
    }
    return "unknown code";
}

/// The error must lie in the part of the document which breaks the rule.
void within(Ctx& c, const Position& p, std::size_t begin, std::size_t end, const std::string& what)
{
    c.check(begin <= p.begin && p.begin <= end,
            what + " is reported at " + str(p) + ", outside of its offsets " + std::to_string(begin) + " to " + std::to_string(end));
}

void judge_document(Ctx& c, const std::string& text)
{
    c.show(pbt::quote(text));
    std::vector<char> heap(text.begin(), text.end());
    heap.shrink_to_fit();
    const std::string_view source(heap.data(), heap.size());
    std::pmr::monotonic_buffer_resource memory;
    auto doc = bm::bmd::parse(source, &memory);
    if (!doc) {
        const auto& e = doc.error();
        consistent(c, source, e.pos, "the position of the error");
        const auto out = printed(c, [&](std::ostream& o, bool colors) { bm::print_parse_error(o, "d.bmd", source, e, colors); });
        shows(c, out, "d.bmd", source, e.pos, true);
        c.label("document syntax error");
        if (const auto want = refbmd::read(source); !want.ok) { // otherwise, a matter of C16
            const auto name = code_name(e.code);
            c.check(want.reject.codes.contains(name), "the error " + name + " does not name the problem, which is: " + want.error);
            within(c, e.pos, want.reject.at, want.reject.end, want.error);
            c.label("document rule " + name);
        }
        c.nontrivial(text);
        return;
    }
    html::Collect sink;
    auto r = bm::bmd::doc_to_html(sink, *doc, { 2, {} }, &memory);
    if (!r) {
        const auto& e = r.error();
        c.label(html::error_name(e.code));
        try {
            (void)html::Meaning(source).document(refbmd::read(source).content, {});
        } catch (const html::Fails& f) { // otherwise, a matter of C17
            c.check(html::error_name(e.code) == f.why, html::error_name(e.code) + " does not name the problem, which is " + f.why);
            within(c, e.pos, f.begin, f.end, f.why);
        }
        consistent(c, source, e.pos, "the position of the error");
        const auto out = printed(c, [&](std::ostream& o, bool colors) { bm::print_document_error(o, "d.bmd", source, e, colors); });
        shows(c, out, "d.bmd", source, e.pos, true);
        c.nontrivial(text);
    }
    else
        c.label("converted");
}

void documents(Src& s, Ctx& c)
{
    if (s.chance(30))
        return judge_document(c, gendoc::soup(s, 16));
    gendoc::Options o;
    o.html_args = s.flag();
    o.code = gencode::for_document;
    gendoc::Writer w(s, o);
    if (s.chance(20))
        w.directive("meta", 3);
    w.content_(3);
    if (s.chance(10))
        w.directive("meta", 3);
    if (s.chance(40)) {
        // one directive which breaks a rule, somewhere
        std::string d = "\\" + std::string(s.pick({ "b", "hr", "ul", "title", "c", "note", "item", "zzz", "h1", "meta", "instruction" }));
        const auto one = [&](std::initializer_list<std::string_view> v) { return std::string(s.pick(v)); };
        const auto gap = [&] { return one({ "", "", " ", "\n", "/* c */", "\t", "// c\n" }); };
        if (s.chance(70)) {
            d += "[";
            const char* names[] { "x", "y", "lang", "arch" };
            for (int n = 1 + s.upto(3); n > 0; --n) {
                d += gap() + names[s.upto(3)] + gap() + one({ "=", "=", "=", "=", "=", ":", "" }) + gap();
                d += one({ "1", "0x1F", "0b101", "077", "abc", "9223372036854775807", "9223372036854775808", "0x", "0b2", "09", "12ab",
                              "0x1G", "1_", "", "\"", "c", "arm" })
                    + gap() + one({ ",", ",", " ", ";" });
            }
            d += one({ "]", "]", "]", "]", "" });
        }
        if (s.chance(70))
            d += "{" + gap() + one({ "", "text", "\\b{x}", "\\item", "\n\n", "a\n \nb", "{", "/*", "//", "\\" }) + gap()
                + one({ "}", "}", "}", "" });
        auto text = w.out;
        text.insert(s.draw32(std::uint32_t(text.size() + 1)), d);
        return judge_document(c, text);
    }
    judge_document(c, s.chance(85) ? gendoc::mutate(s, w.out) : w.out);
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C21";
    p.rule = "Random and misspelled tokens; grammar sentences with edits; well-typed programs with edits of the tree under random "
             "layout; assertions over known values; invalid widths; annotated programs; documents that are random, mutated or valid. Positions are "
             "compared with an own count of lines and columns, with a reference lexer, an Earley recognizer and a reference "
             "semantics; the printed text, with and without colors, must show position and source line. Non-trivial: the input is "
             "rejected; distinct by text.";
    p.assumptions = { "lists of expected tokens in syntax errors need not be complete",
                      "a syntax error at the end of the file may be positioned at the end of the last token or after it" };
    p.targets = {
        { "tokens", tokens, 40000, 1000000 },
        { "syntax", syntax, 20000, 500000 },
        { "edited", edited, 12000, 400000 },
        { "calls", calls, 8000, 200000 },
        { "values", values, 20000, 500000 },
        { "widths", widths, 8000, 200000 },
        { "annotations", annotations, 12000, 300000 },
        { "documents", documents, 40000, 800000 },
        { "messages", messages, 20000, 200000 },
    };
    return p;
}
