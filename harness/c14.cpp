// C14: generated C and C++ is valid and computes what the program computes.
#include <filesystem>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

#include "c_lex.hpp"
#include "code.hpp"
#include "machine.hpp"
#include "pbt.hpp"

using code::bmd::Code_Language;
using code::bmd::Code_Options;
using pbt::Ctx;
using pbt::Src;
using ref::Val;
using ref::Z;

namespace {

struct Dialect {
    const char* name;
    Code_Language lang;
    bool c23, bitint, any_width;
    const char* command;
};
// clang has _BitInt but not yet constexpr for C; a constant object does the same here
const std::vector<Dialect> dialects {
    { "C99", Code_Language::c, false, false, false, "gcc -x c -std=c99" },
    { "C++20", Code_Language::cpp, false, false, false, "g++ -x c++ -std=c++20" },
    { "C23 gcc", Code_Language::c, true, false, false, "gcc -x c -std=c2x" },
    { "C23 _BitInt", Code_Language::c, true, true, true, "clang -x c -std=c23 -Dconstexpr=const" },
    { "C23 mixed", Code_Language::c, true, false, true, "clang -x c -std=c23 -Dconstexpr=const" },
    { "C++ constexpr", Code_Language::cpp, true, false, false, "g++ -x c++ -std=c++20" },
};

std::string read(const std::string& path)
{
    std::ifstream f(path);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
struct Dir {
    std::string path;
    Dir()
    {
        const char* out = getenv("VERIF_OUT");
        path = std::string(out ? out : "/tmp") + "/c14-XXXXXX";
        if (!mkdtemp(path.data()))
            throw std::runtime_error("no scratch directory");
    }
    ~Dir()
    {
        std::error_code e;
        std::filesystem::remove_all(path, e);
    }
};

std::string c_value(const Val& v)
{
    if (v.t.k == 'B')
        return v.v != 0 ? "1" : "0";
    if (v.t.k == 'I')
        return "(" + v.v.str() + ")";
    const Z lo = v.v & 0xffffffffffffffffull, hi = v.v >> 64;
    if (hi == 0)
        return lo.str() + "ull";
    return "((u128)" + hi.str() + "ull << 64 | " + lo.str() + "ull)";
}
/// What is printed: the value modulo 2^128 as two numbers.
std::string printed(const Val& v)
{
    const Z m = ref::mod(v.v, 128);
    return Z(m >> 64).str() + " " + Z(m & 0xffffffffffffffffull).str();
}

// Int is int in C: the subset are executions that stay within its range.
const Z limit = Z(1) << 31;

/// Some names of the program are replaced by words that mean something in C or C++, or nearly so.
std::string with_foreign_names(Src& s, const std::string& text)
{
    static const std::vector<std::string> words {
        "int",      "unsigned", "char",    "short",    "long",     "signed",  "float",    "double",   "void",     "default",  "switch",
        "case",     "do",       "for",     "goto",     "auto",     "register", "static",  "extern",   "volatile", "inline",   "restrict",
        "enum",     "struct",   "union",   "typedef",  "sizeof",   "class",   "new",      "delete",   "this",     "throw",    "try",
        "catch",    "template", "typename", "using",   "namespace", "operator", "private", "public",  "friend",   "virtual",  "and",
        "or",       "xor",      "not",     "bitand",   "bitor",    "compl",   "and_eq",   "not_eq",   "bool",     "wchar_t",  "char8_t",
        "constexpr", "consteval", "nullptr", "decltype", "uint8_t", "uint32_t", "uint64_t", "noexcept", "explicit", "export", "concept",
        "typeof",   "alignas",  "alignof", "thread_local", "asm",  "mutable", "co_await", "typeid",   "const_cast", "static_cast",
        // nothing special, but of other forms than usual
        "_x", "_", "_0", "_k_", "x9", "Zz", "a_b", "K", "_a_name_of_many_characters_that_goes_on_and_on_and_on", "__v",
    };
    const auto lexed = ref::lex(text);
    std::optional<std::string> family;
    if (s.chance(35))
        family = s.pick(words);
    std::map<std::string, std::string> to;
    std::set<std::string> used;
    for (auto& tok : lexed.tokens)
        used.insert(std::string(tok.text));
    std::string r;
    std::size_t end = 0;
    for (auto& tok : lexed.tokens) {
        r += text.substr(end, tok.begin - end);
        end = tok.begin + tok.text.size();
        std::string name(tok.text);
        if (tok.kind == "identifier" && name != "assert") {
            if (!to.count(name)) {
                to[name] = name;
                if (s.chance(family ? 70 : 40)) {
                    auto w = s.pick(words) + (s.chance(30) ? "_" : "") + (s.chance(10) ? "_" : "");
                    if (family) // names that differ in the underscores at the end
                        w = *family + std::string(s.upto(5), '_');
                    const auto as_token = ref::lex(w);
                    if (as_token.ok && as_token.tokens.size() == 1 && as_token.tokens[0].kind == "identifier" && used.insert(w).second)
                        to[name] = w;
                }
            }
            name = to[name];
        }
        r += name;
    }
    return r + text.substr(end);
}
/// Names of the functions defined in C code, in order.
std::vector<std::string> defined_functions(const std::string& code, const Dialect& d, Ctx& c)
{
    std::vector<clex::Token> k;
    c.check(clex::tokens(code, d.lang == Code_Language::cpp, d.c23, k), "something in the code is no token:\n" + code);
    std::vector<std::string> r;
    int braces = 0;
    for (std::size_t i = 0; i < k.size(); ++i) {
        braces += k[i].text == "{" ? 1 : k[i].text == "}" ? -1 : 0;
        if (braces != 0 || i + 1 >= k.size() || k[i + 1].text != "(")
            continue;
        std::size_t j = i + 1;
        int open = 0;
        do
            open += k[j].text == "(" ? 1 : k[j].text == ")" ? -1 : 0;
        while (++j < k.size() && open > 0);
        if (j < k.size() && k[j].text == "{")
            r.push_back(k[i].text);
    }
    return r;
}

void judge(Src& s, Ctx& c, const std::string& text, const Dialect& d, int tuples)
{
    c.show(text);
    std::optional<prog::Meaning> m;
    std::vector<std::string> declared;
    {
        const auto l = ref::lex(text);
        for (std::size_t i = 1; i < l.tokens.size(); ++i)
            if (l.tokens[i - 1].kind == "keyword_function")
                declared.push_back(std::string(l.tokens[i].text));
    }
    try {
        m.emplace(text);
    } catch (const ref::Unspecified&) {
        c.discard();
    }
    if (!m->sem->ok())
        c.discard();
    front::Program p(text);
    if (!p.ok())
        c.discard(); // C07 decides that

    Code_Options o;
    code::gen_layout(s, o);
    o.c_23 = d.c23;
    o.c_prefer_bitint = d.bitint;
    o.always_parenthesize_subexpressions = s.chance(25);
    const auto g = code::generate(p, d.lang, o);
    c.check(g.ok, "no " + std::string(d.name) + " code is generated, error " + std::to_string(g.error));
    if (m->sem->largest_int_constant >= limit)
        c.discard(); // cannot be declared

    const auto defined = defined_functions(g.text, d, c);
    c.check(defined.size() == declared.size(), std::to_string(defined.size()) + " functions are defined instead of "
                + std::to_string(declared.size()) + "\n" + g.text);
    std::map<std::string, std::string> name_of;
    for (std::size_t i = 0; i < defined.size(); ++i)
        name_of[declared[i]] = defined[i];

    // calls with defined results
    struct Case {
        std::string call, expect;
    };
    std::vector<Case> cases;
    bool in_range = true;
    m->sem->watch = [&](const ref::Node& n, const Val& v) {
        if (v.t.k == 'I' && n.kind != "Literal" && (v.v >= limit || v.v <= -limit))
            in_range = false;
    };
    for (auto& e : machine::entries(p, *m->sem, c)) {
        for (int i = 0; i < tuples; ++i) {
            std::vector<Val> args;
            const auto n = ref::Semantics::params(e.meaning).size();
            for (std::size_t k = 0; k < n; ++k) {
                auto t = m->sem->param_type(e.meaning, k);
                auto v = vals::gen_val(s, t);
                if (t.k == 'I')
                    v.v = s.chance(70) ? Z(s.upto(20)) : s.flag() ? Z(s.range(-1000, 1000)) : Z(s.range(-2147483647, 2147483647));
                args.push_back(v);
            }
            in_range = true;
            machine::Outcome out;
            try {
                out = machine::expected(*m, e.meaning, args);
            } catch (const ref::Unspecified&) {
                continue;
            }
            if (out.value && out.value->t.k == 'I' && (out.value->v >= limit || out.value->v <= -limit))
                in_range = false; // a literal that is returned
            if (!out.value || !in_range) {
                c.label(out.value ? "result out of range" : "result undefined");
                if (i > 0)
                    --tuples; // move on sooner
                continue;
            }
            std::string call = name_of[std::string(e.fn->get_name())] + "(";
            for (std::size_t k = 0; k < n; ++k)
                call += (k ? ", " : "") + c_value(args[k]);
            cases.push_back({ call + ")", printed(*out.value) });
            if (out.value->t.k == 'V')
                cases.back().call = "(" + cases.back().call + ", 0)";
        }
    }
    std::string src = "#include <stdint.h>\n#include <stdbool.h>\n#include <assert.h>\n#include <stdio.h>\n";
    if (d.lang == Code_Language::cpp)
        src = "#include <cstdint>\n#include <cassert>\n#include <stdio.h>\n";
    src += "#line 1 \"generated\"\n" + g.text;
    src += "\n#line 1 \"driver\"\n__extension__ typedef unsigned __int128 u128;\n"
           "static void put(u128 v) { printf(\"%llu %llu\\n\", (unsigned long long)(v >> 64), (unsigned long long)v); "
           "fflush(stdout); }\nint main(void)\n{\n";
    for (auto& x : cases)
        src += "    put((u128)" + x.call + ");\n";
    src += "    return 0;\n}\n";

    Dir dir;
    std::ofstream(dir.path + "/p.src") << src;
    const std::string compile = "cd " + dir.path + " && " + d.command
        + " -O0 -w -Werror=implicit-function-declaration -Werror=int-conversion -fsanitize=undefined "
        + (std::string(d.command).starts_with("clang") ? "-fsanitize-trap=all" : "-fsanitize-undefined-trap-on-error")
        + " -o p p.src >err 2>&1";
    const auto where = [&](const std::string& w) {
        return w + "\n" + d.name + " (" + d.command + "), options: " + code::show(o) + "\n" + g.text;
    };
    c.check(std::system(compile.c_str()) == 0, where("the generated code does not compile:\n" + read(dir.path + "/err")));
    const int st = std::system(("cd " + dir.path + " && timeout -s KILL 20 ./p >out 2>err").c_str());
    std::ifstream out(dir.path + "/out");
    std::string line;
    for (auto& x : cases) {
        if (!std::getline(out, line))
            c.fail(where(x.call + " does not return (status " + std::to_string(st) + "), the result is " + x.expect));
        c.check(line == x.expect, where(x.call + " returns " + line + ", the result is " + x.expect + " (high and low half)"));
    }
    c.check(st == 0, where("the compiled program fails"));
    c.label(d.name);
    if (cases.size() >= 3)
        c.nontrivial(g.text);
}

gen::Prog_Options subset(Src& s, const Dialect& d)
{
    gen::Prog_Options o;
    o.deep_percent = 4;
    o.generics = false;
    o.forward = false;
    o.int_bits = s.chance(70) ? 30 : 62;
    if (!d.any_width)
        o.widths = { 8, 16, 32, 64 };
    return o;
}
void programs(Src& s, Ctx& c)
{
    const auto& d = s.pick(dialects);
    auto o = subset(s, d);
    o.functions = 7;
    o.min_functions = 2;
    o.size = 80 + s.upto(350);
    o.runtime_errors = s.chance(40);
    judge(s, c, prog::plain(prog::gen_tree(s, o, 0)), d, 8);
}

// Names of the program mean something else in C or C++.
void foreign_names(Src& s, Ctx& c)
{
    const auto& d = s.pick(dialects);
    auto o = subset(s, d);
    o.functions = 5;
    o.min_functions = 2;
    o.size = 60 + s.upto(200);
    judge(s, c, with_foreign_names(s, prog::plain(prog::gen_tree(s, o, 0))), d, 5);
}

// Many functions of one expression each.
struct Expressions {
    using G = gen::Prog_Gen;
    using P = ref::Ptr;
    Src& s;
    const Dialect& d;
    int w = 8;

    P type(char t) { return ref::node("Type", t == 'U' ? "Uint" : t == 'I' ? "Int" : "Bool", { t == 'U' ? G::lit(std::to_string(w)) : nullptr }); }
    P leaf(char t)
    {
        switch (t) {
        case 'B': return s.chance(20) ? G::lit(s.flag() ? "true" : "false") : G::id(std::string(s.pick({ "p", "q", "cb" })));
        case 'I': return s.chance(45) ? G::lit(std::to_string(s.upto(9))) : G::id(std::string(s.pick({ "i", "j", "ci" })));
        default: return G::id(std::string(s.pick({ "x", "y", "x", "y", "cu" })));
        }
    }
    /// Of type Int, and likely within the range of the Uint type in use.
    P small_int()
    {
        if (s.chance(25))
            return G::lit(Z(ref::pow2(w) - 1 - s.upto(2)).str());
        if (s.chance(25))
            return G::lit(Z(ref::pow2(s.upto(w - 1)) ).str());
        return leaf('I');
    }
    P expr(char t, int depth)
    {
        if (depth <= 0 || s.chance(8))
            return leaf(t);
        auto sub = [&](char k) { return expr(k, depth - 1); };
        switch (s.weighted({ 60, 18, 14, t == 'B' ? 0 : 8 })) {
        case 0:
            if (t == 'B') {
                if (s.chance(40))
                    return G::bin(std::string(s.pick({ "&&", "||", "==", "!=" })), sub('B'), sub('B'));
                const char k = s.chance(75) ? 'U' : 'I';
                const std::string op(s.pick({ "<", ">", "<=", ">=", "==", "!=" }));
                return mixed(op, k, depth);
            }
            if (t == 'I')
                return G::bin(std::string(s.pick({ "+", "-", "*", "/", "%" })), sub('I'), sub('I'));
            {
                const std::string op(s.pick({ "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>" }));
                if (op == "<<" || op == ">>")
                    return G::bin(op, s.chance(25) ? small_int() : sub('U'),
                                  s.chance(60) ? G::bin("%", leaf('U'), G::lit(std::to_string(w > 3 ? w : 1))) : leaf('U'));
                return mixed(op, 'U', depth);
            }
        case 1: {
            auto x = sub(t);
            return G::pre(std::string(t == 'U' ? s.pick({ "-", "~", "~", "+" }) : t == 'I' ? s.pick({ "-", "+" }) : s.pick({ "!" })), x);
        }
        case 2: {
            auto l = t == 'U' && s.chance(15) ? small_int() : sub(t), m = sub('B'), r = sub(t);
            return s.flag() ? G::ifx(l, m, r) : G::ifx(r, m, l);
        }
        default: return t == 'I' ? G::pre("-", leaf('I')) : ref::node("Conv", "", { s.flag() ? small_int() : sub('U'), type('U') });
        }
    }
    P mixed(const std::string& op, char k, int depth)
    {
        auto a = expr(k, depth - 1);
        auto b = k == 'U' && s.chance(30) ? small_int() : expr(k, depth - 1);
        return s.chance(75) ? G::bin(op, a, b) : G::bin(op, b, a);
    }
    std::string program()
    {
        static const std::vector<int> ws { 8, 16, 32, 64, 1, 7, 15, 17, 24, 31, 33, 63, 65, 127, 128 };
        w = ws[s.draw32(d.any_width ? 15 : 4)];
        std::vector<P> decls;
        auto u = [&](Z v) { return ref::node("Conv", "", { G::lit(v.str()), type('U') }); };
        decls.push_back(ref::node("Const", "cu", { nullptr, nullptr, u(s.flag() ? Z(ref::pow2(w) - 1) : Z(1)) }));
        decls.push_back(ref::node("Const", "ci", { nullptr, nullptr, s.flag() ? G::pre("-", G::lit("7")) : G::lit("3") }));
        decls.push_back(ref::node("Const", "cb", { nullptr, nullptr, G::lit("true") }));
        const int n = 8;
        auto param = [&](const char* name, char t) { return ref::node("Param", name, { type(t) }); };
        for (int i = 0; i < n; ++i) {
            const char t = "UUUUBI"[s.draw32(6)];
            decls.push_back(ref::node("Function", "f" + std::to_string(i),
                                      { nullptr,
                                        ref::node("Params", "", { param("x", 'U'), param("y", 'U'), param("i", 'I'), param("j", 'I'),
                                                                  param("p", 'B'), param("q", 'B') }),
                                        type(t), nullptr,
                                        G::block({ ref::node("Return", "", { expr(t, 1 + s.upto(3)) }) }) }));
        }
        return prog::plain(ref::node("Program", "", decls));
    }
};
void expressions(Src& s, Ctx& c)
{
    const auto& d = s.pick(dialects);
    judge(s, c, Expressions { s, d }.program(), d, 14);
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C14";
    p.rule = "Generated programs of the supported subset (whole programs with statements, and programs of "
             "functions that are one random expression each over operands of all types; names may be words of C and C++); the code "
             "generated for one of C99, C23, C23 with _BitInt and C++20 under random options is compiled by "
             "gcc or clang with undefined-behaviour traps and run on random and boundary arguments; each "
             "result is compared with the reference evaluation of the BMS program. Non-trivial: at least "
             "three calls with a defined result; distinct by generated code.";
    p.targets = { { "expressions", expressions, 1800, 40000 }, { "programs", programs, 1200, 32000 },
                  { "foreign-names", foreign_names, 400, 10000 } };
    p.assumptions = {
        "the subset: no calls of bit-generic functions, functions declared before they are called, values of "
        "type Int other than literals within the range of int32_t",
        "constexpr is replaced by const where clang compiles C23, since clang 18 lacks it",
        "the compilers at -O0 with UBSan traps are right about the generated code",
    };
    return p;
}
