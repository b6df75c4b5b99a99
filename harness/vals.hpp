// Translation between reference values and library values, and generators of both.
#ifndef VERIF_VALS_HPP
#define VERIF_VALS_HPP
#include "bms/analysis_error.hpp"
#include "bms/evaluation/builtin_function.hpp"
#include "bms/evaluation/operations.hpp"
#include "bms/expression_type.hpp"

#include "front.hpp"
#include "pbt.hpp"
#include "ref_val.hpp"

namespace vals {
namespace bms = bit_manipulation::bms;
using bms::Expression_Type;

inline const std::vector<Expression_Type>& lib_ops()
{
    using enum Expression_Type;
    static const std::vector<Expression_Type> v {
        binary_plus, binary_minus, multiplication, division, remainder, less_than, greater_than,
        less_or_equal, greater_or_equal, equals, not_equals, shift_left, shift_right, bitwise_and,
        bitwise_or, bitwise_xor, logical_and, logical_or,
    };
    return v;
}
inline Expression_Type lib_op(ref::Op o) { return lib_ops().at(int(o)); }
inline Expression_Type lib_unary(char o)
{
    using enum Expression_Type;
    return o == '+' ? unary_plus : o == '-' ? unary_minus : o == '~' ? bitwise_not : logical_not;
}
inline bms::Concrete_Type lib_type(ref::Type t)
{
    switch (t.k) {
    case 'V': return bms::Concrete_Type::Void;
    case 'B': return bms::Concrete_Type::Bool;
    case 'I': return bms::Concrete_Type::Int;
    default: return bms::Concrete_Type { bms::Type_Type::Uint, t.w };
    }
}
inline ref::Type ref_type(bms::Concrete_Type t)
{
    switch (t.type()) {
    case bms::Type_Type::Void: return ref::VOID;
    case bms::Type_Type::Bool: return ref::BOOL;
    case bms::Type_Type::Int: return ref::INT;
    default: return ref::UINT(t.width());
    }
}
inline bms::Concrete_Value lib_val(const ref::Val& v)
{
    return { lib_type(v.t), bit_manipulation::Big_Int(ref::from_z(v.v)) };
}
inline ref::Val ref_val(const bms::Concrete_Value& v)
{
    const ref::Type t = ref_type(v.type);
    if (t.k == 'V')
        return { t, 0 };
    return { t, t.k == 'U' ? ref::to_z((unsigned __int128)v.int_value)
                           : ref::to_z_signed(v.int_value) };
}
template <class R> // Result<Concrete_Value or Value, Evaluation_Error_Code>
ref::Out ref_out(const R& r)
{
    if (!r) {
        static const std::string names[] = { "type_error", "division_by_zero", "shift_too_much",
                                             "assertion_fail", "int_to_uint_range_error",
                                             "int_overflow" };
        const auto n = bms::evaluation_error_code_name(r.error());
        for (auto& s : names)
            if (s == n)
                return s.c_str();
        return "unnamed error";
    }
    if constexpr (requires { r->type; })
        return ref_val(*r);
    else {
        if (!r->is_known())
            return "unknown";
        return ref_val(r->concrete_value());
    }
}

inline ref::Type gen_type(pbt::Src& s, int max_width = 128)
{
    switch (s.weighted({ 5, 4, 2, 1 })) {
    case 0: {
        if (max_width < 128)
            return ref::UINT(1 + s.upto(max_width - 1));
        static const std::vector<int> ws { 8, 1, 2, 3, 7, 16, 31, 32, 33, 63, 64, 65, 127, 128 };
        return ref::UINT(s.flag() ? s.pick(ws) : 1 + s.upto(127));
    }
    case 1: return ref::INT;
    case 2: return ref::BOOL;
    default: return ref::VOID;
    }
}
inline ref::Z gen_bits(pbt::Src& s, int w)
{
    ref::Z z = 0;
    for (int i = 0; i < w; i += 32)
        z |= ref::Z(s.draw32(0xffffffff)) << i;
    return ref::mod(z, w);
}
// n biases magnitudes of Int toward the width of the other operand.
inline ref::Val gen_val(pbt::Src& s, ref::Type t, int n = 0)
{
    using ref::Z;
    switch (t.k) {
    case 'V': return { t, 0 };
    case 'B': return { t, s.flag() };
    case 'U': {
        Z v;
        switch (s.weighted({ 4, 3, 3, 2 })) {
        case 0: v = s.upto(9); break;
        case 1: v = ref::pow2(t.w) - 1 - s.upto(3); break;
        case 2: v = gen_bits(s, t.w); break;
        default: v = ref::pow2(s.upto(t.w)) + (s.upto(2) - 1); break;
        }
        return { t, ref::mod(v, t.w) };
    }
    default: {
        Z v;
        switch (s.weighted({ 4, 2, 3, 2, 1 })) {
        case 0: v = s.upto(9); break;
        case 4: return { ref::INT, s.flag() ? -ref::pow2(127) : Z(ref::pow2(127) - 1) };
        case 1: v = n + s.upto(4) - 2; break;
        case 2: v = ref::pow2(n && s.flag() ? n : s.upto(127)) + (s.upto(4) - 2); break;
        default: v = gen_bits(s, 1 + s.upto(126)); break;
        }
        if (s.chance(35))
            v = -v;
        while (!ref::int_fits(v))
            v /= 2;
        return { ref::INT, v };
    }
    }
}
// A pair of types with a bias to compatible ones.
inline std::pair<ref::Type, ref::Type> gen_pair(pbt::Src& s, int max_width = 128)
{
    const ref::Type a = gen_type(s, max_width);
    switch (s.weighted({ 5, 3, 2 })) {
    case 0: return { a, a };
    case 1:
        if (a.k == 'U')
            return s.flag() ? std::pair(a, ref::INT) : std::pair(ref::INT, a);
        return { a, a };
    default: return { a, gen_type(s, max_width) };
    }
}
inline ref::Op gen_op(pbt::Src& s) { return ref::Op(s.upto(17)); }
// An operator that type-checks for the types, most of the time.
inline ref::Op gen_op_for(pbt::Src& s, ref::Type a, ref::Type b)
{
    ref::Op o = gen_op(s);
    for (int i = 0; i < 4 && !ref::type_binary(a, o, b); ++i)
        o = gen_op(s);
    return o;
}

} // namespace vals
#endif
