#include "vals.hpp"

using pbt::Ctx;
using pbt::Src;
using namespace vals;

namespace {

// A possibly unknown reference operand.
struct Opnd {
    ref::Type t;
    std::optional<ref::Val> v;
    std::string str() const { return v ? v->str() : "?:" + t.str(); }
    bms::Value lib() const
    {
        return v ? bms::Value(lib_val(*v)) : bms::Value::unknown_of_type(lib_type(t));
    }
};

// All choices for an unknown operand when there are few, else representatives that include every
// boundary the other operand could make relevant.
std::vector<ref::Val> choices(const Opnd& o, Src& s, int n)
{
    if (o.v)
        return { *o.v };
    std::vector<ref::Val> r;
    switch (o.t.k) {
    case 'V': r.push_back({ o.t, 0 }); break;
    case 'B':
        r.push_back({ o.t, 0 });
        r.push_back({ o.t, 1 });
        break;
    case 'U':
        if (o.t.w <= 4)
            for (int i = 0; i < 1 << o.t.w; ++i)
                r.push_back({ o.t, i });
        else {
            for (ref::Z z : std::vector<ref::Z> { 0, 1, 2, ref::Z(o.t.w - 1), ref::Z(o.t.w),
                                                  ref::Z(ref::pow2(o.t.w) - 1) })
                r.push_back({ o.t, ref::mod(z, o.t.w) });
            r.push_back(gen_val(s, o.t));
        }
        break;
    default:
        for (ref::Z z : std::vector<ref::Z> { 0, 1, -1, ref::Z(n), ref::Z(n - 1), ref::Z(-n),
                                              ref::Z(ref::pow2(n ? n : 4) - 1),
                                              ref::Z(ref::pow2(127) - 1), ref::Z(-ref::pow2(127)) })
            if (ref::int_fits(z))
                r.push_back({ o.t, z });
        r.push_back(gen_val(s, o.t, n));
    }
    return r;
}

// Judges a Value-level outcome against the outcomes of all choices.
void judge(Ctx& c, const std::string& what, std::optional<ref::Type> type,
           const bit_manipulation::Result<bms::Value, bms::Evaluation_Error_Code>& got,
           const std::vector<ref::Out>& outs, bool all_known)
{
    c.show(what);
    const ref::Out g = ref_out(got);
    if (!type) {
        c.check(g.err == "type_error", what + ": type rules reject, evaluation gives " + g.str());
        c.label("type error");
        return;
    }
    c.check(g.err != "type_error", what + ": type rules accept, evaluation rejects");
    if (got) {
        c.check(ref_type(got->get_type()) == *type,
                what + ": evaluated type " + ref_type(got->get_type()).str() + ", type rule "
                    + type->str());
        if (got->is_known()) {
            c.label(all_known ? "all known" : "known result of unknown operands");
            for (auto& o : outs)
                c.check(o.v == g.v,
                        what + ": folds to " + g.str() + ", but some choice gives " + o.str());
        }
        else {
            c.check(!all_known, what + ": unknown result of known operands");
            c.label("unknown");
        }
    }
    else {
        c.label("error");
        for (auto& o : outs)
            c.check(!o.v, what + ": fails with " + g.str() + ", but some choice gives " + o.str());
        if (all_known)
            c.check(outs[0].err == g.err, what + ": wrong error " + g.str());
    }
    if (!all_known)
        c.nontrivial(what);
}

Opnd gen_opnd(Src& s, ref::Type t, int n)
{
    Opnd o { t, {} };
    if (s.chance(55))
        o.v = gen_val(s, t, n);
    return o;
}

void ops(Src& s, Ctx& c)
{
    const int width = s.flag() ? 4 : 128;
    switch (s.weighted({ 8, 2, 2, 4, 1 })) {
    case 0: {
        auto [ta, tb] = gen_pair(s, width);
        const int n = ta.w ? ta.w : tb.w;
        const Opnd a = gen_opnd(s, ta, n), b = gen_opnd(s, tb, n);
        const ref::Op o = gen_op_for(s, ta, tb);
        std::vector<ref::Out> outs;
        for (auto& x : choices(a, s, n))
            for (auto& y : choices(b, s, n)) {
                // logical operators do not evaluate their right operand after short-circuiting;
                // as operands are already evaluated here, that is the same
                outs.push_back(ref::binary(x, o, y));
            }
        const std::string what = a.str() + " " + ref::op_texts()[int(o)] + " " + b.str();
        c.show(what);
        const auto got = bms::evaluate_binary_operator(a.lib(), lib_op(o), b.lib());
        judge(c, what, ref::type_binary(ta, o, tb), got, outs, a.v && b.v);
        // What the right operand alone makes illegal is illegal whatever the left one is.
        const std::string text = ref::op_texts()[int(o)];
        if (!a.v && b.v && (text == "/" || text == "%" || text == "<<" || text == ">>")) {
            bool all = true;
            for (auto& x : outs)
                all = all && !x.v && x.err == outs[0].err;
            if (all)
                c.check(ref_out(got).err == outs[0].err,
                        what + ": fails for every left operand, but gives " + ref_out(got).str());
        }
        break;
    }
    case 1: {
        const ref::Type t = gen_type(s, width);
        const Opnd a = gen_opnd(s, t, 0);
        const char o = s.pick_char("-~+!");
        std::vector<ref::Out> outs;
        for (auto& x : choices(a, s, 0))
            outs.push_back(ref::unary(o, x));
        judge(c, std::string(1, o) + " " + a.str(), ref::type_unary(o, t),
              bms::evaluate_unary_operator(lib_unary(o), a.lib()), outs, a.v.has_value());
        break;
    }
    case 2: {
        auto [ta, tb] = gen_pair(s, width);
        const Opnd a = gen_opnd(s, ta, tb.w);
        std::vector<ref::Out> outs;
        for (auto& x : choices(a, s, tb.w))
            outs.push_back(ref::convert(x, tb));
        judge(c, a.str() + " as " + tb.str(),
              ref::convertible(ta, tb) ? std::optional(tb) : std::nullopt,
              bms::evaluate_conversion(a.lib(), lib_type(tb)), outs, a.v.has_value());
        break;
    }
    case 3: {
        auto [ta, tb] = gen_pair(s, width);
        const Opnd a = gen_opnd(s, ta, tb.w), b = gen_opnd(s, tb, ta.w),
                   k = gen_opnd(s, s.chance(5) ? gen_type(s) : ref::BOOL, 0);
        const auto t = ref::common(ta, tb);
        std::vector<ref::Out> outs;
        if (t && k.t == ref::BOOL)
            for (auto& z : choices(k, s, 0))
                for (auto& x : choices(z.v != 0 ? a : b, s, z.v != 0 ? tb.w : ta.w))
                    outs.push_back(ref::convert(x, *t));
        // when the condition and the selected operand are known, so must be the result
        const bool known = k.v && (k.v->v != 0 ? a : b).v;
        judge(c, a.str() + " if " + k.str() + " else " + b.str(),
              k.t == ref::BOOL ? t : std::nullopt,
              bms::evaluate_if_expression(a.lib(), k.lib(), b.lib()), outs, known);
        break;
    }
    default: {
        const Opnd a = gen_opnd(s, s.chance(80) ? ref::BOOL : gen_type(s), 0);
        std::vector<ref::Out> outs;
        for (auto& x : choices(a, s, 0))
            outs.push_back(x.v != 0 ? ref::Out(ref::Val { ref::VOID, 0 }) : ref::Out("assertion_fail"));
        const bms::Value args[] { a.lib() };
        judge(c, "assert(" + a.str() + ")", a.t == ref::BOOL ? std::optional(ref::VOID) : std::nullopt,
              bms::evaluate_builtin_function(bms::Builtin_Function::assert, args), outs,
              a.v.has_value());
    }
    }
}

// The rule a rejected operator breaks.
std::vector<std::string> broken(ref::Type a, ref::Op o, ref::Type b)
{
    if (a.k == 'V' || b.k == 'V')
        return { "void_operation" };
    if (a.k == 'U' && b.k == 'U' && a.w != b.w)
        return { "incompatible_widths" };
    const auto c = ref::common(a, b);
    if (!c)
        return { "incompatible_types" };
    if (c->k == 'B')
        return { ref::is_arith(o) ? "bool_arithmetic"
                     : ref::is_bit(o) ? "bool_bitwise"
                                      : "bool_relational_comparison" };
    if (c->k == 'I')
        return { ref::is_bit(o) ? "int_bitwise" : "int_logical" };
    return { "uint_logical" };
}

std::string name(const bit_manipulation::Result<bms::Concrete_Type, bms::Analysis_Error_Code>& r)
{
    return r ? ref_type(*r).str() : std::string(bms::analysis_error_code_name(r.error()));
}

void type_rules_for(Ctx& c, const std::vector<ref::Type>& ts)
{
    for (auto a : ts) {
        for (auto b : ts)
            for (int i = 0; i <= 17; ++i) {
                const ref::Op o = ref::Op(i);
                const std::string what = a.str() + " " + ref::op_texts()[i] + " " + b.str();
                c.show(what);
                const auto want = ref::type_binary(a, o, b);
                const std::string got
                    = name(bms::check_binary_operator(lib_type(a), lib_op(o), lib_type(b)));
                c.check(got == (want ? want->str() : broken(a, o, b)[0]), what + ": got " + got);
                c.nontrivial(what);
            }
        for (char o : { '+', '-', '~', '!' }) {
            const std::string what = std::string(1, o) + a.str();
            c.show(what);
            const auto want = ref::type_unary(o, a);
            const std::string got = name(bms::check_unary_operator(lib_unary(o), lib_type(a)));
            const std::string rule = a.k == 'V'      ? "void_operation"
                : a.k == 'B' && o == '~'             ? "bool_bitwise"
                : a.k == 'B'                         ? "bool_arithmetic"
                : a.k == 'I' && o == '~'             ? "int_bitwise"
                : a.k == 'I'                         ? "int_logical"
                                                     : "uint_logical";
            c.check(got == (want ? want->str() : rule), what + ": got " + got);
        }
        for (auto b : ts)
            for (auto k : ts) {
                const std::string what = a.str() + " if " + k.str() + " else " + b.str();
                c.show(what);
                const auto t = ref::common(a, b);
                const std::string got
                    = name(bms::check_if_expression(lib_type(a), lib_type(k), lib_type(b)));
                const std::string want = k.k != 'B' ? "condition_not_bool"
                    : t                             ? t->str()
                    : a.k == 'U' && b.k == 'U'      ? "incompatible_widths"
                                                    : "incompatible_types";
                c.check(got == want, what + ": got " + got);
            }
    }
}

void type_rules(Ctx& c)
{
    type_rules_for(c, { ref::VOID, ref::BOOL, ref::INT, ref::UINT(1), ref::UINT(2), ref::UINT(8),
                        ref::UINT(64), ref::UINT(127), ref::UINT(128) });
    for (int w = 1; w <= 128; ++w)
        type_rules_for(c, { ref::UINT(w), ref::INT, ref::UINT(w % 128 + 1) });
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C06";
    p.rule = "Random operator and operand types; each operand known (small, boundary or random "
             "value) or unknown. Unknown operands are instantiated with every value (widths up to "
             "4) or with boundary representatives, evaluated by the arbitrary-precision reference, "
             "and compared with the outcome of the Value-level evaluation. Type rules for all "
             "operators over all widths exhaustively, including which rule is named as broken. "
             "Non-trivial: at least one operand unknown; distinct by operands and operator.";
    p.assumptions = { "for unknown operands wider than 4 bits soundness is tested on "
                      "representative choices" };
    p.fixed = { { "type rules", type_rules } };
    p.targets = { { "operators", ops, 400000, 15000000 } };
    return p;
}
