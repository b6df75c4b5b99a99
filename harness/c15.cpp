// C15: formatting options change the layout of generated code only; its spans cover its tokens.
#include "c_lex.hpp"
#include "code.hpp"
#include "pbt.hpp"

using code::bmd::Brace_Style;
using code::bmd::Code_Language;
using code::bmd::Code_Options;
using pbt::Ctx;
using pbt::Src;

namespace {

const char* language_name(Code_Language l) { return l == Code_Language::bms ? "BMS" : l == Code_Language::c ? "C" : "C++"; }

std::vector<clex::Token> tokenize(const std::string& text, Code_Language lang, const Code_Options& o, Ctx& c)
{
    std::vector<clex::Token> r;
    if (lang != Code_Language::bms) {
        c.check(clex::tokens(text, lang == Code_Language::cpp, o.c_23, r), "something in the code is no token:\n" + text);
        return r;
    }
    const auto l = ref::lex(text);
    c.check(l.ok, "the code does not tokenize:\n" + text);
    for (auto& t : l.tokens) {
        const auto& k = t.kind;
        std::string kind = "operation";
        if (k == "identifier")
            kind = "identifier";
        else if (k == "keyword_true" || k == "keyword_false")
            kind = "boolean";
        else if (k.starts_with("keyword_"))
            kind = "keyword";
        else if (k.ends_with("_literal"))
            kind = "number";
        else if (ref::in(t.text[0], "(){}"))
            kind = "bracket";
        else if (t.text == "," || t.text == ";" || t.text == ":" || t.text == "->")
            kind = "punctuation";
        r.push_back({ t.text, kind, t.begin });
    }
    return r;
}

const char* span_name(code::bmd::Code_Span_Type t)
{
    static const char* n[] { "identifier", "type", "bracket", "number", "string", "comment", "operation", "punctuation",
                             "keyword", "boolean", "error" };
    return int(t) < 11 ? n[int(t)] : "?";
}

void check_spans(const code::Text& t, const std::vector<clex::Token>& tokens, Ctx& c)
{
    std::size_t k = 0, end = 0;
    for (auto& s : t.spans) {
        const auto where = "span " + std::to_string(s.begin) + "+" + std::to_string(s.length) + " (" + span_name(s.type) + ") ";
        c.check(s.length > 0, where + "is empty");
        c.check(s.begin >= end, where + "overlaps the one before");
        c.check(s.begin + s.length <= t.text.size(), where + "leaves the text");
        end = s.begin + s.length;
        c.check(k < tokens.size() && tokens[k].at == s.begin && tokens[k].text.size() == s.length,
                where + "is not the next token" + (k < tokens.size() ? ", which is '" + tokens[k].text + "' at " + std::to_string(tokens[k].at) : "")
                    + "\n" + t.text);
        c.check(tokens[k].kind == span_name(s.type), where + "covers '" + tokens[k].text + "', a " + tokens[k].kind + "\n" + t.text);
        ++k;
    }
    c.check(k == tokens.size(), "no span covers '" + (k < tokens.size() ? tokens[k].text : "") + "'\n" + t.text);
}

/// Lines are indented by depth, braces and else are where the options want them.
void check_layout(const std::string& text, const std::vector<clex::Token>& tokens, const Code_Options& o, Ctx& c)
{
    const auto bad = [&](const std::string& m, std::size_t at) {
        const auto line = 1 + std::count(text.begin(), text.begin() + std::ptrdiff_t(at), '\n');
        c.fail("line " + std::to_string(line) + ": " + m + " (" + code::show(o) + ")\n" + text);
    };
    int depth = 0;
    for (std::size_t i = 0; i < tokens.size(); ++i) {
        const auto& t = tokens[i];
        const auto begin = text.rfind('\n', t.at);
        const auto line = begin == std::string::npos ? 0 : begin + 1;
        const bool first = i == 0 || tokens[i - 1].at < line;
        const auto end = t.at + t.text.size();
        const bool last = i + 1 == tokens.size() || text.find('\n', end) < tokens[i + 1].at;
        if (last && end < text.size() && text[end] != '\n')
            bad("white space at the end", t.at);
        if (t.text == "}")
            --depth;
        if (first && text.substr(line, t.at - line) != std::string(std::size_t(depth) * o.indent_size, o.indent_char))
            bad("indentation is not " + std::to_string(depth) + " levels", t.at);
        if (t.text == "{") {
            const bool bare = i == 0 || tokens[i - 1].text == ";" || tokens[i - 1].text == "{" || tokens[i - 1].text == "}";
            const bool breaks = bare || (depth == 0 ? o.break_after_function : o.break_after_if);
            if (first != breaks)
                bad(breaks ? "opening brace is not on its own line" : "opening brace is on its own line", t.at);
            if (!first && (t.at == 0 || text[t.at - 1] != ' '))
                bad("no space before the opening brace", t.at);
            if (!last)
                bad("code follows an opening brace", t.at);
            ++depth;
        }
        if (t.text == "}" && !first)
            bad("closing brace is not first", t.at);
        if (t.text == "else" && depth > 0 && i > 0 && tokens[i - 1].text == "}" && first == (o.brace_style == Brace_Style::k_and_r))
            bad(first ? "else is on a new line" : "else is not on a new line", t.at);
        if (t.text == ";" && !last)
            bad("code follows a statement", t.at);
        if (t.text == "}" && !last && tokens[i + 1].text != "else")
            bad("code follows a closing brace", t.at);
    }
    if (!tokens.empty() && text.back() != '\n')
        bad("last line does not end", text.size() - 1);
}

/// Types are spelled in the dialect and manner that was asked for.
void check_types(const std::string& text, const std::vector<clex::Token>& tokens, Code_Language lang, const Code_Options& o, Ctx& c)
{
    if (lang == Code_Language::bms)
        return;
    const bool c23 = lang == Code_Language::c && o.c_23;
    for (std::size_t i = 0; i < tokens.size(); ++i) {
        const auto& t = tokens[i].text;
        const auto bad = [&](const char* why) { c.fail("the type " + t + " is used, but " + why + " (" + code::show(o) + ")\n" + text); };
        if (t == "_BitInt") {
            if (!c23)
                bad("the dialect has no such type");
            const auto width = i + 2 < tokens.size() ? tokens[i + 2].text : "";
            if (!o.c_prefer_bitint && (width == "8" || width == "16" || width == "32" || width == "64"))
                bad("there is a standard type for that width");
            c.label("type _BitInt");
        }
        if (t == "uint8_t" || t == "uint16_t" || t == "uint32_t" || t == "uint64_t") {
            if (c23 && o.c_prefer_bitint)
                bad("_BitInt is to be preferred");
            const bool qualified = i >= 2 && tokens[i - 1].text == "::" && tokens[i - 2].text == "std";
            if (qualified != (lang == Code_Language::cpp))
                bad(qualified ? "the dialect has no namespaces" : "it is only known to be in the namespace std");
            c.label("type uintN_t");
        }
        if (t == "_Bool" && (c23 || lang != Code_Language::c))
            bad("the dialect calls it bool");
        if (t == "bool" && lang == Code_Language::c && !c23)
            bad("the dialect calls it _Bool");
    }
}

std::vector<std::string> texts(const std::vector<clex::Token>& t)
{
    std::vector<std::string> r;
    for (auto& x : t)
        r.push_back(x.text);
    return r;
}

bool standard(int width) { return width == 8 || width == 16 || width == 32 || width == 64; }

/// Whether the signature or the body of a function names an integer type that needs _BitInt.
/// Constants, assertions and requires-clauses are no part of generated code.
bool odd_widths(const ref::Node& n, const ref::Semantics::Inst& f)
{
    if (n.kind == "Const" || n.kind == "Static_Assert")
        return false;
    if (n.kind == "Type") {
        const auto it = f.types.find(&n);
        return it != f.types.end() && it->second.k == 'U' && !standard(it->second.w);
    }
    for (std::size_t i = 0; i < n.kids.size(); ++i)
        if (n.kids[i] && !(n.kind == "Function" && i == 3) && odd_widths(*n.kids[i], f))
            return true;
    return false;
}

struct Widths {
    bool in_functions = false, anywhere = false;
};

/// A refused program leaves the string as it was; and only programs with odd widths are refused,
/// by dialects without _BitInt.
void check_refusal(const code::Text& t, Code_Language lang, const Code_Options& o, const Widths& w, const std::string& before, Ctx& c)
{
    const bool can_bitint = lang == Code_Language::c && o.c_23;
    const auto of = std::string(language_name(lang)) + " code (" + code::show(o) + ")";
    if (t.ok) {
        c.check(lang == Code_Language::bms || can_bitint || !w.in_functions,
                "the dialect has no integers of a width in the program, but " + of + " is generated\n" + t.text);
        return;
    }
    c.check(lang != Code_Language::bms && !can_bitint && w.anywhere, "no " + of + " is generated, though it could be");
    c.check(t.error == int(code::bmd::Generator_Error_Code::unsupported_integer_width),
            "generating " + of + " fails for reason " + std::to_string(t.error));
    c.check(t.culprit, "generating " + of + " fails, but no place is named");
    c.check(t.text == before, "generating " + of + " fails but leaves\n" + t.text);
    c.check(t.spans.size() == (before.empty() ? 0 : 1), "generating " + of + " fails but leaves " + std::to_string(t.spans.size()) + " spans");
}

/// Spans can be visited in every way a random access iterator allows.
void check_iteration(front::Program& p, Code_Language lang, const Code_Options& o, const code::Text& t, Src& s, Ctx& c)
{
    code::bmd::Code_String out(&p.memory);
    if (!code::bmd::generate_code(out, *p.analyzed, lang, o))
        c.fail("generating again fails");
    const auto n = std::ptrdiff_t(t.spans.size());
    c.check(out.end() - out.begin() == n && out.cend() - out.cbegin() == n, "the distance of the iterators is not the number of spans");
    const auto is = [&](code::bmd::Code_String_Span a, std::ptrdiff_t k) {
        return a.begin == t.spans[std::size_t(k)].begin && a.length == t.spans[std::size_t(k)].length && a.type == t.spans[std::size_t(k)].type;
    };
    auto it = out.begin();
    std::ptrdiff_t at = 0;
    for (int step = 0; step < 12 && n > 0; ++step) {
        const std::ptrdiff_t to = s.upto(int(std::min<std::ptrdiff_t>(n, 2000)));
        const auto other = out.begin() + to;
        c.check(it - other == at - to, "difference of iterators");
        c.check((it == other) == (at == to) && (it < other) == (at < to) && (it > other) == (at > to) && (it <= other) == (at <= to),
                "comparison of iterators");
        switch (s.draw32(5)) {
        case 0:
            it += to - at;
            at = to;
            break;
        case 1:
            it -= at - to;
            at = to;
            break;
        case 2:
            if (at < n) {
                c.check(is(*it++, at), "post-increment");
                ++at;
            }
            break;
        case 3:
            if (at > 0) {
                c.check(is(*--it, --at), "decrement");
            }
            break;
        default:
            if (at < n) {
                ++it;
                ++at;
            }
        }
        if (to < n)
            c.check(is(it[to - at], to), "subscript");
        if (at < n)
            c.check(is(*it, at), "an iterator leads elsewhere");
    }
}

void judge(Src& s, Ctx& c, const std::string& text)
{
    c.show(text);
    Widths w;
    try {
        prog::Meaning m(text);
        if (!m.sem->ok())
            c.discard();
        for (auto* f : m.sem->functions())
            w.in_functions |= !f->generic && odd_widths(*f->fn->decl, *f);
        for (int width : m.sem->widths_named)
            w.anywhere |= !standard(width);
    } catch (const ref::Unspecified&) {
        c.discard();
    }
    front::Program p(text);
    if (!p.ok())
        c.discard(); // C07 decides that
    const auto lang = std::vector { Code_Language::bms, Code_Language::c, Code_Language::cpp }[s.draw32(3)];
    Code_Options a, b;
    if (lang != Code_Language::bms && s.chance(60)) {
        a.c_23 = true;
        a.c_prefer_bitint = s.flag();
    }
    a.always_parenthesize_subexpressions = s.chance(30);
    b = a;
    code::gen_layout(s, a);
    code::gen_layout(s, b);
    auto ga = code::generate(p, lang, a), gb = code::generate(p, lang, b);
    c.label(language_name(lang));
    c.check(ga.ok == gb.ok && ga.error == gb.error,
            "generating " + std::string(language_name(lang)) + " fails under one set of options only: " + code::show(a) + " / " + code::show(b));
    const std::string prefix = s.flag() ? "/* ... */" : "";
    const std::string before = prefix.empty() ? "" : prefix + "\n";
    check_refusal(ga, lang, a, w, "", c);
    check_refusal(gb, lang, b, w, "", c);
    const auto appended = code::generate(p, lang, a, prefix);
    c.check(appended.ok == ga.ok, "generating depends on what is in the string already");
    check_refusal(appended, lang, a, w, before, c);
    c.label(!ga.ok ? "refused" : w.anywhere ? "odd widths" : "standard widths");
    if (!ga.ok) {
        if (text.size() > 60)
            c.nontrivial(text);
        return;
    }
    c.check(appended.text == before + ga.text, "appended code is\n" + appended.text + "\nbut code alone is\n" + ga.text);
    const std::size_t extra = prefix.empty() ? 0 : 1;
    c.check(appended.spans.size() == ga.spans.size() + extra, "appended code has another number of spans");
    for (std::size_t i = 0; i < ga.spans.size(); ++i)
        c.check(appended.spans[i + extra].begin == ga.spans[i].begin + before.size() && appended.spans[i + extra].length == ga.spans[i].length
                    && appended.spans[i + extra].type == ga.spans[i].type,
                "appended code has other spans");
    check_iteration(p, lang, a, ga, s, c);
    const auto ta = tokenize(ga.text, lang, a, c), tb = tokenize(gb.text, lang, b, c);
    c.check(texts(ta) == texts(tb),
            "other tokens under " + code::show(a) + "\n" + ga.text + "\nthan under " + code::show(b) + "\n" + gb.text);
    check_spans(ga, ta, c);
    check_spans(gb, tb, c);
    check_layout(ga.text, ta, a, c);
    check_types(ga.text, ta, lang, a, c);
    check_layout(gb.text, tb, b, c);

    // redundant parentheses add parentheses only
    Code_Options more = a;
    more.always_parenthesize_subexpressions = !a.always_parenthesize_subexpressions;
    const auto gm = code::generate(p, lang, more);
    c.check(gm.ok, "generating fails when the number of parentheses changes");
    const auto tm = tokenize(gm.text, lang, more, c);
    check_spans(gm, tm, c);
    check_layout(gm.text, tm, more, c);
    const auto &few = texts(a.always_parenthesize_subexpressions ? tm : ta), &many = texts(a.always_parenthesize_subexpressions ? ta : tm);
    std::size_t k = 0;
    for (auto& t : many)
        if (k < few.size() && few[k] == t)
            ++k;
        else
            c.check(t == "(" || t == ")", "requesting parentheses adds '" + t + "'\n" + gm.text + "\nand\n" + ga.text);
    c.check(k == few.size(), "requesting parentheses drops a token\n" + gm.text + "\nand\n" + ga.text);
    // generating twice gives the same
    const auto again = code::generate(p, lang, a);
    c.check(again.text == ga.text, "generating again gives other text");
    if (ta.size() > 30)
        c.nontrivial(ga.text);
}

void programs(Src& s, Ctx& c)
{
    gen::Prog_Options o;
    o.size = 40 + s.upto(250);
    o.deep_percent = 12;
    judge(s, c, prog::named(s, prog::plain(prog::gen_tree(s, o, 0))));
}
// Widths that every language has.
void standard_widths(Src& s, Ctx& c)
{
    gen::Prog_Options o;
    o.size = 40 + s.upto(250);
    o.deep_percent = 12;
    o.widths = { 8, 16, 32, 64 };
    judge(s, c, prog::named(s, prog::plain(prog::gen_tree(s, o, 0))));
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C15";
    p.rule = "Generated well-typed programs; BMS, C99, C23 (with and without _BitInt) or C++ code is "
             "generated under two random settings of indentation and brace style and with and without "
             "redundant parentheses. Token sequences from independent lexers must agree (up to the "
             "added parentheses), spans must be exactly the tokens with their kinds, types must be spelled "
             "as dialect and options say, and every line must be indented by its nesting depth with braces and else where the options put them. "
             ""
             "A program is refused exactly if the dialect lacks a width its functions use, and the string is left alone then; "
             "otherwise the code is appended to what the string held. "
             "Non-trivial: more than 30 tokens of generated code, or a refused program of more than 60 characters; distinct by text.";
    p.targets = { { "programs", programs, 7000, 200000 }, { "standard-widths", standard_widths, 9000, 250000 } };
    return p;
}
