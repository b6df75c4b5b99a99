// The rules of annotations, and generated annotations.
#ifndef VERIF_ANNOT_HPP
#define VERIF_ANNOT_HPP
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "pbt.hpp"
#include "prog.hpp"

namespace annot {

using pbt::Ctx;
using pbt::Src;
using ref::Ptr;
using ref::Z;

struct Param {
    std::string name;
    char type; // I, S
    bool optional;
    std::function<bool(const Z&)> admits;
};
struct Schema {
    std::set<std::string> on;
    std::vector<Param> params;
};

/// The documented annotations.
inline const std::map<std::string, Schema>& schemas()
{
    const auto width = [](const Z& v) { return v >= 1 && v <= 128; };
    const auto c_version = [](const Z& v) {
        for (int x : { 89, 90, 99, 11, 17, 23, 29 })
            if (v == x)
                return true;
        return false;
    };
    static const std::map<std::string, Schema> r {
        { "immutable", { { "Let" }, {} } },
        { "inline", { { "Let", "Call" }, {} } },
        { "loop_variable", { { "Let" }, {} } },
        { "loop_step", { { "Assign" }, {} } },
        { "unroll", { { "While" }, { { "limit", 'I', false, width } } } },
        { "c_equivalent",
          { { "Function" },
            { { "function", 'S', false, {} }, { "include", 'S', true, {} }, { "since", 'I', true, c_version } } } },
        { "java_equivalent", { { "Function" }, { { "method", 'S', false, {} } } } },
        { "instantiate", { { "Function" }, { { "n", 'I', false, width } } } },
        { "false_if_unknown", { { "If" }, {} } },
        { "remove_if_unused", { { "Function" }, {} } },
    };
    return r;
}

struct Broken {
    std::string code;
    std::size_t tok;
    const Param* param = nullptr;
};

/// The rules which the annotations of one construct break.
inline void judge_annotations(const std::string& construct, const ref::Node& list, std::vector<Broken>& out)
{
    for (auto& a : list.kids) {
        const auto it = schemas().find(a->text);
        if (it == schemas().end()) {
            out.push_back({ "annotation_unknown", a->tok });
            continue;
        }
        const Schema& sc = it->second;
        if (!sc.on.count(construct))
            out.push_back({ "annotation_not_applicable", a->tok });
        std::vector<bool> given(sc.params.size());
        for (auto& arg : a->kids) {
            std::size_t k = 0;
            if (arg->text.empty()) {
                while (k < given.size() && given[k])
                    ++k;
                if (k == given.size()) {
                    out.push_back({ "annotation_too_many_arguments", arg->tok });
                    continue;
                }
            }
            else {
                while (k < given.size() && sc.params[k].name != arg->text)
                    ++k;
                if (k == given.size()) {
                    out.push_back({ "annotation_unknown_parameter", arg->tok });
                    continue;
                }
                if (given[k]) {
                    out.push_back({ "annotation_argument_duplicate", arg->tok });
                    continue;
                }
            }
            given[k] = true;
            const auto colon = arg->extra.find(':');
            const auto kind = arg->extra.substr(0, colon), value = arg->extra.substr(colon + 1);
            const char type = kind == "string_literal" ? 'S' : kind.starts_with("keyword") ? 'B' : 'I';
            if (type != sc.params[k].type) {
                out.push_back({ "annotation_argument_wrong_type", arg->tok, &sc.params[k] });
                continue;
            }
            if (type == 'I') {
                const auto v = ref::literal_value(value);
                if (!v)
                    out.push_back({ "invalid_integer_literal", arg->tok });
                else if (!sc.params[k].admits(*v))
                    out.push_back({ "annotation_argument_wrong_value", arg->tok, &sc.params[k] });
            }
            else if (value.empty())
                out.push_back({ "annotation_argument_wrong_value", arg->tok, &sc.params[k] });
        }
        for (std::size_t k = 0; k < given.size(); ++k)
            if (!given[k] && !sc.params[k].optional)
                out.push_back({ "annotation_missing_argument", a->tok });
    }
}
inline void judge_tree(const Ptr& p, std::vector<Broken>& out, Ctx& c)
{
    if (!p)
        return;
    for (auto& k : p->kids) {
        if (k && k->kind == "Annots") {
            judge_annotations(p->kind, *k, out);
            c.label("on " + p->kind);
        }
        else
            judge_tree(k, out, c);
    }
}

// ---- generation ----
struct Gen {
    Src& s;
    std::vector<std::string> names;

    explicit Gen(Src& src)
        : s(src)
    {
        for (auto& [n, _] : schemas())
            names.push_back(n);
    }
    static std::string digits(Z v, int base)
    {
        std::string r;
        do
            r.insert(0, 1, "0123456789abcdef"[int(v % base)]);
        while ((v /= base) != 0);
        return r;
    }
    std::string integer(const Z& v)
    {
        switch (s.weighted({ 6, 1, 1, 1 })) {
        case 1: return "0x" + digits(v, 16);
        case 2: return "0b" + digits(v, 2);
        case 3: return v == 0 ? "0" : "0" + digits(v, 8);
        default: return v.str();
        }
    }
    std::string good(const Param& p)
    {
        if (p.type == 'S')
            return "string_literal:" + std::string(s.pick({ "f", "stdc_count_ones", "<stdbit.h>", " ", "\\\"", "a\\\\b", "@x(", "//", "1" }));
        static const std::vector<int> versions { 23, 11, 17, 29, 89, 90, 99 };
        return integer_value(p.name == "since" ? Z(s.pick(versions)) : s.chance(40) ? Z(s.flag() ? 1 : 128) : Z(s.range(1, 128)));
    }
    std::string integer_value(const Z& v)
    {
        const auto t = integer(v);
        const auto kind = t.starts_with("0x") ? "hexadecimal_literal" : t.starts_with("0b") ? "binary_literal"
            : t.size() > 1 && t[0] == '0'                                                    ? "octal_literal"
                                                                                             : "decimal_literal";
        return std::string(kind) + ":" + t;
    }
    std::string any_value()
    {
        switch (s.weighted({ 4, 3, 2, 2 })) {
        case 0: {
            static const std::vector<int> v { 0, 1, 128, 129, 23, 89, 98, 2, 64, 256 };
            return integer_value(Z(s.pick(v)));
        }
        case 1: return std::string("string_literal:") + std::string(s.pick({ "", "x", " ", "1", "true" }));
        case 2: return s.flag() ? "keyword_true:true" : "keyword_false:false";
        default: return integer_value((Z(1) << int(s.pick(std::vector<int> { 127, 128, 63, 32, 64, 8, 16, 200 }))) + s.upto(130) - 1);
        }
    }
    Ptr arg(const std::string& name, const std::string& value)
    {
        auto a = ref::node("Arg", name, {});
        a->extra = value;
        return a;
    }
    Ptr annotation(const std::string& construct)
    {
        std::string name;
        std::vector<std::string> fit;
        for (auto& [n, sc] : schemas())
            if (sc.on.count(construct))
                fit.insert(fit.end(), sc.params.empty() ? 1 : 3, n);
        if (!fit.empty() && s.chance(85))
            name = s.pick(fit);
        else if (s.chance(70))
            name = s.pick(names);
        else
            name = std::string(s.pick({ "inline_", "awoo", "Unroll", "unrol", "unrolled", "loop", "const_", "immutable_", "c_equivalen", "n" }));
        auto a = ref::node("Annot", name, {});
        if (s.chance(50))
            a->extra = "()"; // parentheses even without arguments
        const auto it = schemas().find(name);
        const std::vector<Param> ps = it == schemas().end() ? std::vector<Param> {} : it->second.params;
        // a valid argument list: names of all after some point, in any order
        std::vector<std::size_t> order;
        for (std::size_t i = 0; i < ps.size(); ++i)
            if (!ps[i].optional || s.chance(60))
                order.push_back(i);
        for (std::size_t i = order.size(); i > 1; --i)
            std::swap(order[i - 1], order[s.draw32(std::uint32_t(i))]);
        std::vector<bool> given(ps.size());
        for (auto i : order) {
            std::size_t next = 0;
            while (next < given.size() && given[next])
                ++next;
            // `function` is a keyword, so this parameter cannot be named
            const bool positional = i == next && (s.chance(65) || ps[i].name == "function");
            if (!positional && ps[i].name == "function")
                continue;
            a->kids.push_back(arg(positional ? "" : ps[i].name, good(ps[i])));
            given[i] = true;
        }
        // faults
        if (s.chance(ps.empty() ? 15 : 45)) {
            const int faults = 1 + s.weighted({ 4, 1 });
            for (int i = 0; i < faults; ++i)
                fault(*a, ps);
        }
        return a;
    }
    void fault(ref::Node& a, const std::vector<Param>& ps)
    {
        const auto at = a.kids.empty() ? 0 : s.draw32(std::uint32_t(a.kids.size()));
        const auto name = [&]() -> std::string {
            const auto r = !ps.empty() && s.chance(60)
                ? s.pick(ps).name
                : std::string(s.pick({ "x", "limit", "n", "func", "include", "since", "method", "Limit" }));
            return r == "function" ? "functions" : r;
        };
        switch (a.kids.empty() ? 1 : s.weighted({ 2, 3, 2, 3, 2, 1 })) {
        case 0: a.kids.erase(a.kids.begin() + at); break;
        case 1: a.kids.insert(a.kids.begin() + s.upto(int(a.kids.size())), arg(s.flag() ? name() : "", any_value())); break;
        case 2: a.kids[at] = arg(name(), a.kids[at]->extra); break;
        case 3: a.kids[at] = arg(a.kids[at]->text, any_value()); break;
        case 4: a.kids[at] = arg("", a.kids[at]->extra); break;
        default: std::swap(a.kids[at], a.kids[s.draw32(std::uint32_t(a.kids.size()))]); break;
        }
    }
    void annotate(const Ptr& p, int percent)
    {
        if (!p)
            return;
        static const std::set<std::string> first { "Const", "Let", "Function", "Assign", "If", "While" };
        for (auto& k : p->kids)
            if (k && k->kind != "Annots")
                annotate(k, percent);
        if (!first.count(p->kind) && p->kind != "Call")
            return;
        if (p->kind == "Const" && !s.chance(15))
            return; // nothing applies to constants
        if (!s.chance(percent))
            return;
        auto list = ref::node("Annots", "", {});
        const int n = 1 + s.weighted({ 6, 2, 1 });
        for (int i = 0; i < n; ++i)
            list->kids.push_back(annotation(p->kind));
        if (p->kind == "Call") {
            if (!p->kids.empty() && !p->kids.back())
                p->kids.back() = list;
            else
                p->kids.push_back(list);
        }
        else
            p->kids.at(0) = list;
    }
};

/// Annotations all over a program.
inline std::string program(Src& s)
{
    gen::Prog_Options o;
    o.size = 20 + s.upto(90);
    o.functions = 1 + s.upto(2);
    o.constants = s.upto(2);
    auto t = prog::gen_tree(s, o, s.chance(8) ? 1 : 0);
    Gen g(s);
    g.annotate(t, 10 + s.upto(60));
    return prog::plain(t);
}
/// One annotation, on one construct among all.
inline std::string single(Src& s)
{
    static const std::vector<std::pair<std::string, std::string>> holes {
        { "While", "function f(x: Uint(8)) -> Uint(8) { let v: Uint(8) = x; # while v > 3 { v = v - 1; } return v; }" },
        { "Function", "# function f(x: Uint(N)) -> Uint(N) { return x; } const c = f(3 as Uint(8));" },
        { "Function", "const k = 2; # function f() -> Int { return k; }" },
        { "Let", "function f() -> Int { # let v = 1; return v; }" },
        { "Let", "function f() -> Int { # let v: Int; v = 1; return v; }" },
        { "Assign", "function f() -> Int { let v = 1; while v < 9 { # v = v + 2; } return v; }" },
        { "If", "function f(p: Bool) -> Int { # if p { return 1; } return 2; }" },
        { "If", "function f(p: Bool) -> Int { if p { return 1; } else # if !p { return 2; } else { return 4; } return 3; }" },
        { "Call", "function g() -> Int { return 3; } function f() -> Int { return 1 + g() #; }" },
        { "Call", "function g() -> Int { return 3; } function f() -> Int { g() #; return g(); }" },
        { "Call", "function g() -> Int { return 3; } const c = g() #;" },
        { "Call", "function g() -> Int { return 8; } function f(x: Uint(g() #)) -> Uint(8) { return x; }" },
        { "Call", "function g() -> Bool { return true; } static_assert(g() #);" },
        { "Call", "function g() -> Bool { return true; } function f(x: Int) -> Int requires g() # { return x; }" },
        { "Call", "function g(x: Int) -> Int { return x; } function f() -> Int { return g(g(1) #) if true else 2; }" },
        { "Const", "# const c = 1;" },
        { "Const", "function f() -> Int { # const c = 1; return c; }" },
    };
    const auto& [construct, text] = holes[s.chance(50) ? s.draw32(3) : s.draw32(std::uint32_t(holes.size()))];
    Gen g(s);
    auto list = ref::node("Annots", "", { g.annotation(construct) });
    const auto full = prog::plain(ref::node("Program", "", { ref::node("Const", "x", { list, nullptr, ref::node("Literal", "0", {}) }) }));
    std::string r = text;
    const auto hole = r.find('#');
    r.replace(hole, 1, full.substr(0, full.rfind("const")));
    return r;
}

} // namespace annot
#endif
