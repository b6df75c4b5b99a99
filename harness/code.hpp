// Code generation from analyzed programs, under random options.
#ifndef VERIF_CODE_HPP
#define VERIF_CODE_HPP
#include "bmd/codegen/code_language.hpp"
#include "bmd/codegen/code_string.hpp"
#include "bmd/codegen/codegen.hpp"
#include "bmd/codegen/generator_error.hpp"
#include "prog.hpp"

namespace code {
namespace bm = bit_manipulation;
namespace bmd = bit_manipulation::bmd;

struct Span {
    std::size_t begin, length;
    bmd::Code_Span_Type type;
};
struct Text {
    bool ok = false;
    std::string text;
    std::vector<Span> spans;
    int error = -1;
    bool culprit = false; // whether the error names a node
};

inline void gen_layout(pbt::Src& s, bmd::Code_Options& o)
{
    o.indent_char = s.chance(25) ? '\t' : ' ';
    o.indent_size = std::size_t(s.upto(9));
    o.brace_style = std::vector { bmd::Brace_Style::k_and_r, bmd::Brace_Style::allman,
                                  bmd::Brace_Style::stroustrup }[s.draw32(3)];
    if (s.chance(70)) {
        o.break_after_function = bmd::is_break_after_function(o.brace_style);
        o.break_after_if = bmd::is_break_after_if(o.brace_style);
    }
    else {
        o.break_after_function = s.flag();
        o.break_after_if = s.flag();
    }
}
inline std::string show(const bmd::Code_Options& o)
{
    return std::string("indent ") + (o.indent_char == ' ' ? "space" : "tab") + " x " + std::to_string(o.indent_size)
        + ", brace style " + std::to_string(int(o.brace_style)) + ", break after function " + std::to_string(o.break_after_function)
        + ", after if " + std::to_string(o.break_after_if) + ", parentheses " + std::to_string(o.always_parenthesize_subexpressions)
        + ", c23 " + std::to_string(o.c_23) + ", bitint " + std::to_string(o.c_prefer_bitint);
}

inline Text generate(front::Program& p, bmd::Code_Language lang, const bmd::Code_Options& o,
                     std::string_view before = "")
{
    bmd::Code_String out(&p.memory);
    if (!before.empty()) {
        out.append(before, bmd::Code_Span_Type::comment);
        out.append('\n');
    }
    auto r = bmd::generate_code(out, *p.analyzed, lang, o);
    Text t;
    t.ok = bool(r);
    if (!r) {
        t.error = int(r.error().code);
        t.culprit = r.error().fail != nullptr;
    }
    t.text = std::string(out.get_text());
    for (auto it = out.begin(); it != out.end(); ++it)
        t.spans.push_back({ (*it).begin, (*it).length, (*it).type });
    return t;
}

} // namespace code
#endif
