// Reference semantics of BMS types, values and operators over arbitrary-precision integers.
#ifndef VERIF_REF_VAL_HPP
#define VERIF_REF_VAL_HPP
#include <boost/multiprecision/cpp_int.hpp>
#include <optional>
#include <string>
#include <vector>

namespace ref {

using Z = boost::multiprecision::cpp_int;

struct Type {
    char k = 'V'; // V B I U
    int w = 0;
    bool operator==(const Type&) const = default;
    std::string str() const
    {
        return k == 'V' ? "Void" : k == 'B' ? "Bool" : k == 'I' ? "Int" : "Uint(" + std::to_string(w) + ")";
    }
};
inline const Type VOID { 'V' }, BOOL { 'B' }, INT { 'I' };
inline Type UINT(int w) { return { 'U', w }; }

struct Val {
    Type t;
    Z v = 0;
    bool operator==(const Val& o) const { return t == o.t && v == o.v; }
    std::string str() const
    {
        return t.k == 'V' ? "Void" : t.k == 'B' ? (v != 0 ? "true" : "false") : v.str() + ":" + t.str();
    }
};

inline const Z& pow2(int n)
{
    static const std::vector<Z> p = [] {
        std::vector<Z> r;
        for (int i = 0; i <= 300; ++i)
            r.push_back(Z(1) << i);
        return r;
    }();
    return p.at(n);
}
/// Representable as Int: the implementation has 128 bits for it.
inline bool int_fits(const Z& v) { return v < pow2(127) && v >= -pow2(127); }

inline bool convertible(Type a, Type b) { return a == b || (a.k == 'I' && b.k == 'U'); }

enum class Op { add, sub, mul, div, rem, lt, gt, le, ge, eq, ne, shl, shr, band, bor, bxor, land, lor };
inline const std::vector<std::string>& op_texts()
{
    static const std::vector<std::string> t { "+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=",
                                              "<<", ">>", "&", "|", "^", "&&", "||" };
    return t;
}
inline bool is_arith(Op o) { return o <= Op::rem; }
inline bool is_rel(Op o) { return o >= Op::lt && o <= Op::ge; }
inline bool is_cmp(Op o) { return o >= Op::lt && o <= Op::ne; }
inline bool is_bit(Op o) { return o >= Op::shl && o <= Op::bxor; }
inline bool is_log(Op o) { return o >= Op::land; }

inline std::optional<Type> common(Type a, Type b)
{
    if (a == b)
        return a;
    if (a.k == 'I' && b.k == 'U')
        return b;
    if (a.k == 'U' && b.k == 'I')
        return a;
    return {};
}
inline std::optional<Type> type_binary(Type a, Op o, Type b)
{
    const auto c = common(a, b);
    if (!c || c->k == 'V')
        return {};
    switch (c->k) {
    case 'B': return is_log(o) || o == Op::eq || o == Op::ne ? std::optional(BOOL) : std::nullopt;
    case 'I':
        if (is_bit(o) || is_log(o))
            return {};
        return is_cmp(o) ? BOOL : *c;
    default:
        if (is_log(o))
            return {};
        return is_cmp(o) ? BOOL : *c;
    }
}
/// Unary operators: + - ~ !
inline std::optional<Type> type_unary(char o, Type a)
{
    const bool ok = o == '!' ? a.k == 'B' : o == '~' ? a.k == 'U' : a.k == 'I' || a.k == 'U';
    return ok ? std::optional(a) : std::nullopt;
}

struct Out {
    std::optional<Val> v;
    std::string err;
    Out(Val x)
        : v(std::move(x))
    {
    }
    Out(const char* e)
        : err(e)
    {
    }
    std::string str() const { return v ? v->str() : err; }
};

inline Z mod(Z v, int w)
{
    v %= pow2(w);
    if (v < 0)
        v += pow2(w);
    return v;
}
inline Out convert(const Val& a, Type t)
{
    if (a.t == t)
        return a;
    if (!convertible(a.t, t))
        return "type_error";
    if (a.v < 0 || a.v >= pow2(t.w))
        return "int_to_uint_range_error";
    return Val { t, a.v };
}
inline Out finish(Type t, Z v)
{
    if (t.k == 'U')
        return Val { t, mod(std::move(v), t.w) };
    if (t.k == 'I' && !int_fits(v))
        return "int_overflow";
    return Val { t, std::move(v) };
}
inline Out unary(char o, const Val& a)
{
    if (!type_unary(o, a.t))
        return "type_error";
    switch (o) {
    case '!': return Val { BOOL, a.v == 0 };
    case '~': return Val { a.t, pow2(a.t.w) - 1 - a.v };
    case '-': return finish(a.t, -a.v);
    default: return a;
    }
}
// bitwise operators digit by digit
inline Z bitwise(Op o, const Z& a, const Z& b, int w)
{
    Z r = 0;
    for (int i = 0; i < w; ++i) {
        const bool x = bit_test(a, i), y = bit_test(b, i);
        if (o == Op::band ? x && y : o == Op::bor ? x || y : x != y)
            bit_set(r, i);
    }
    return r;
}
inline Out binary(Val a, Op o, Val b)
{
    const auto t = type_binary(a.t, o, b.t);
    if (!t)
        return "type_error";
    const Type c = *common(a.t, b.t);
    const Out ca = convert(a, c), cb = convert(b, c);
    if (!ca.v)
        return ca;
    if (!cb.v)
        return cb;
    const Z &x = ca.v->v, &y = cb.v->v;
    switch (o) {
    case Op::add: return finish(c, x + y);
    case Op::sub: return finish(c, x - y);
    case Op::mul: return finish(c, x * y);
    case Op::div: return y == 0 ? Out("division_by_zero") : finish(c, x / y);
    case Op::rem: return y == 0 ? Out("division_by_zero") : finish(c, x % y);
    case Op::lt: return Val { BOOL, x < y };
    case Op::gt: return Val { BOOL, x > y };
    case Op::le: return Val { BOOL, x <= y };
    case Op::ge: return Val { BOOL, x >= y };
    case Op::eq: return Val { BOOL, x == y };
    case Op::ne: return Val { BOOL, x != y };
    case Op::shl:
        if (y >= c.w)
            return "shift_too_much";
        return finish(c, x * pow2(int(y)));
    case Op::shr:
        if (y >= c.w)
            return "shift_too_much";
        return Val { c, x / pow2(int(y)) };
    case Op::band:
    case Op::bor:
    case Op::bxor: return Val { c, bitwise(o, x, y, c.w) };
    case Op::land: return Val { BOOL, x != 0 && y != 0 };
    case Op::lor: return Val { BOOL, x != 0 || y != 0 };
    }
    return "type_error";
}

inline Z to_z(unsigned __int128 v)
{
    return (Z(std::uint64_t(v >> 64)) << 64) + Z(std::uint64_t(v));
}
inline Z to_z_signed(__int128 v)
{
    return v < 0 ? Z(-to_z(-(unsigned __int128)v)) : to_z((unsigned __int128)v);
}
inline unsigned __int128 from_z(const Z& v) // modulo 2^128
{
    const Z m = mod(v, 128);
    return (unsigned __int128)std::uint64_t(m >> 64) << 64 | std::uint64_t(m & 0xffffffffffffffffull);
}

} // namespace ref
#endif
