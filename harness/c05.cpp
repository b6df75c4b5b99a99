#include <sstream>

#include "vals.hpp"

using pbt::Ctx;
using pbt::Src;
using namespace vals;

namespace {

void compare(Ctx& c, const std::string& what, const ref::Out& want, const ref::Out& got)
{
    c.show(what);
    if (want.v != got.v || want.err != got.err)
        c.fail(what + ": expected " + want.str() + ", got " + got.str());
    c.label(want.v ? "value" : want.err);
}

void do_binary(Ctx& c, const ref::Val& a, ref::Op o, const ref::Val& b)
{
    const std::string what = a.str() + " " + ref::op_texts()[int(o)] + " " + b.str();
    c.show(what);
    const ref::Out want = ref::binary(a, o, b);
    compare(c, what, want, ref_out(bms::evaluate_binary_operator(lib_val(a), lib_op(o), lib_val(b))));
    compare(c, what + " (Value)", want,
            ref_out(bms::evaluate_binary_operator(bms::Value(lib_val(a)), lib_op(o),
                                                  bms::Value(lib_val(b)))));
    if (want.err != "type_error")
        c.nontrivial(what);
}
void do_unary(Ctx& c, char o, const ref::Val& a)
{
    const std::string what = std::string(1, o) + a.str();
    c.show(what);
    const ref::Out want = ref::unary(o, a);
    compare(c, what, want, ref_out(bms::evaluate_unary_operator(lib_unary(o), lib_val(a))));
    compare(c, what + " (Value)", want,
            ref_out(bms::evaluate_unary_operator(lib_unary(o), bms::Value(lib_val(a)))));
    if (want.err != "type_error")
        c.nontrivial(what);
}
void do_convert(Ctx& c, const ref::Val& a, ref::Type t)
{
    const std::string what = a.str() + " as " + t.str();
    c.show(what);
    const ref::Out want = ref::convert(a, t);
    compare(c, what, want, ref_out(bms::evaluate_conversion(lib_val(a), lib_type(t))));
    compare(c, what + " (Value)", want,
            ref_out(bms::evaluate_conversion(bms::Value(lib_val(a)), lib_type(t))));
    if (want.v) // the truncating conversion agrees where nothing is lost
        compare(c, what + " (truncating)", want,
                ref_out(lib_val(a).convert_to(lib_type(t), bms::Conversion_Type::truncating_numeric)));
    else if (want.err == "int_to_uint_range_error")
        compare(c, what + " (truncating)", ref::Val { t, ref::mod(a.v, t.w) },
                ref_out(lib_val(a).convert_to(lib_type(t), bms::Conversion_Type::truncating_numeric)));
    if (want.err != "type_error")
        c.nontrivial(what);
}
ref::Out ref_if(const ref::Val& a, const ref::Val& k, const ref::Val& b)
{
    const auto t = ref::common(a.t, b.t);
    if (k.t != ref::BOOL || !t)
        return "type_error";
    return ref::convert(k.v != 0 ? a : b, *t);
}
void do_if(Ctx& c, const ref::Val& a, const ref::Val& k, const ref::Val& b)
{
    const std::string what = a.str() + " if " + k.str() + " else " + b.str();
    c.show(what);
    const ref::Out want = ref_if(a, k, b);
    compare(c, what, want,
            ref_out(bms::evaluate_if_expression(lib_val(a), lib_val(k), lib_val(b))));
    compare(c, what + " (Value)", want,
            ref_out(bms::evaluate_if_expression(bms::Value(lib_val(a)), bms::Value(lib_val(k)),
                                                bms::Value(lib_val(b)))));
    if (want.err != "type_error")
        c.nontrivial(what);
}
void do_assert(Ctx& c, const std::vector<ref::Val>& args)
{
    std::vector<bms::Concrete_Value> cv;
    std::vector<bms::Value> vv;
    std::string what = "assert(";
    for (auto& a : args) {
        cv.push_back(lib_val(a));
        vv.push_back(cv.back());
        what += a.str() + ",";
    }
    what += ")";
    c.show(what);
    const ref::Out want = args.size() != 1 || args[0].t != ref::BOOL ? ref::Out("type_error")
        : args[0].v == 0                                            ? ref::Out("assertion_fail")
                                                                    : ref::Out(ref::Val { ref::VOID, 0 });
    const auto f = bms::Builtin_Function::assert;
    compare(c, what, want,
            ref_out(bms::evaluate_builtin_function(f, std::span<const bms::Concrete_Value>(cv))));
    compare(c, what + " (Value)", want,
            ref_out(bms::evaluate_builtin_function(f, std::span<const bms::Value>(vv))));
}

void any(Src& s, Ctx& c)
{
    switch (s.weighted({ 10, 3, 4, 3, 1 })) {
    case 0: {
        const auto [ta, tb] = gen_pair(s);
        const int n = ta.w ? ta.w : tb.w;
        const auto a = gen_val(s, ta, n), b = gen_val(s, tb, n);
        do_binary(c, a, gen_op_for(s, ta, tb), b);
        break;
    }
    case 1: {
        const auto t = gen_type(s);
        do_unary(c, s.pick_char("-~+!"), gen_val(s, t));
        break;
    }
    case 2: {
        const auto [ta, tb] = gen_pair(s);
        do_convert(c, gen_val(s, ta, tb.w), tb);
        break;
    }
    case 3: {
        const auto [ta, tb] = gen_pair(s);
        const auto a = gen_val(s, ta, tb.w);
        const auto k = s.chance(5) ? gen_val(s, gen_type(s)) : gen_val(s, ref::BOOL);
        do_if(c, a, k, gen_val(s, tb, ta.w));
        break;
    }
    default: {
        std::vector<ref::Val> args;
        for (int i = s.weighted({ 1, 8, 1 }); i > 0; --i)
            args.push_back(gen_val(s, s.chance(80) ? ref::BOOL : gen_type(s)));
        do_assert(c, args);
    }
    }
}

/// Whether the library refuses to do this.
template <class F>
bool refused(F f)
{
    try {
        (void)f();
    } catch (const bit_manipulation::Assertion_Error&) {
        return true;
    }
    return false;
}

/// What types and values say about themselves.
void described(Src& s, Ctx& c)
{
    using bit_manipulation::Big_Int;
    using bit_manipulation::Big_Uint;
    const auto [ta, tb] = gen_pair(s);
    const ref::Val a = gen_val(s, ta, tb.w);
    c.show(a.str() + ", " + tb.str());
    const auto t = lib_type(ta), o = lib_type(tb);
    c.check((t == o) == (ta == tb), "equality of types");
    c.check(t.width() == ta.w && t.is_uint() == (ta.k == 'U') && t.is_integer() == (ta.k == 'U' || ta.k == 'I'), "properties of the type");
    c.check(t.is_convertible_to(o) == (ta == tb || (ta.k == 'I' && tb.k == 'U')), "convertibility");
    const ref::Z mask = ta.k == 'V' ? ref::Z(0) : ta.k == 'B' ? ref::Z(1) : ref::pow2(ta.k == 'I' ? 128 : ta.w) - 1;
    c.check(ref::to_z((unsigned __int128)t.get_mask()) == mask, "the mask covers the bits of the type");
    const ref::Val n = gen_val(s, ref::INT, s.flag() ? ta.w : tb.w);
    if (n.v >= 0)
        c.check(t.can_represent(Big_Int(ref::from_z(n.v))) == (ta.k != 'V' && n.v <= mask), "representable: " + n.str());

    const bms::Value known(lib_val(a)), unknown = bms::Value::unknown_of_type(t);
    c.check(known.is_known() && bool(known) && !known.is_unknown() && !unknown.is_known() && !bool(unknown) && unknown.is_unknown(), "known or not");
    c.check(known.get_type() == t && unknown.get_type() == t, "the type of the value");
    c.check(ref_val(known.concrete_value()) == a, "the concrete value");
    c.check(refused([&] { return unknown.concrete_value(); }), "an unknown value has a concrete value");
    for (auto* v : { &known, &unknown }) {
        c.check(refused([&] { return v->as_bool(); }) == (ta.k != 'B' || v->is_unknown()), "as_bool accepts the wrong values");
        c.check(refused([&] { return v->as_int(); }) == (ta.k != 'I' || v->is_unknown()), "as_int accepts the wrong values");
        c.check(refused([&] { return v->as_uint(); }) == (ta.k != 'U' || v->is_unknown()), "as_uint accepts the wrong values");
    }
    if (ta.k == 'B')
        c.check(known.as_bool() == (a.v != 0), "as_bool");
    if (ta.k == 'I')
        c.check(ref::to_z_signed(known.as_int()) == a.v, "as_int");
    if (ta.k == 'U')
        c.check(ref::to_z((unsigned __int128)known.as_uint()) == a.v, "as_uint");

    const auto even = [](Big_Int x) { return Big_Int(x - x % 2); };
    const auto step = [](Big_Uint x) { return Big_Uint(x * 3 + 1); };
    if (ta.k == 'I' || ta.k == 'U') {
        if (ta.w != 128)
            c.check(ref_val(known.and_then(even).concrete_value()) == ref::Val { ta, a.v - a.v % 2 }, "and_then");
        c.check(unknown.and_then(even).is_unknown() && unknown.and_then(even).get_type() == t, "and_then of an unknown value");
    }
    if (ta.k == 'U') {
        const ref::Val want { ta, ref::mod(a.v * 3 + 1, ta.w) };
        c.check(ref_val(known.and_then_uint(step).concrete_value()) == want, "and_then_uint");
        c.check(ref_val(lib_val(a).transform_uint([](Big_Uint x) { return Big_Uint(x * 3 + 1); })) == want, "transform_uint");
        c.check(unknown.and_then_uint(step).is_unknown() && unknown.and_then_uint(step).get_type() == t, "and_then_uint of an unknown value");
    }
    std::ostringstream shown, type;
    shown << lib_val(a);
    type << t;
    c.check(type.str() == ta.str(), "the type is printed as " + type.str());
    c.check(shown.str() == (ta.k == 'V' || ta.k == 'B' ? a.str() : a.v.str()), "the value is printed as " + shown.str());
    c.nontrivial(a.str() + tb.str());
    c.label(std::string("described: ") + ta.k);
}

std::string literal(const ref::Val& v)
{
    if (v.t.k == 'B')
        return v.v != 0 ? "true" : "false";
    if (v.v >= 0)
        return v.v.str();
    return "-" + ref::Z(-v.v).str();
}

// The same through programs: operands are constants of the given types.
void program(Src& s, Ctx& c)
{
    auto scalar = [&] {
        ref::Type t = gen_type(s);
        return t.k == 'V' ? ref::INT : t;
    };
    auto [ta, tb] = gen_pair(s);
    if (ta.k == 'V')
        ta = scalar();
    if (tb.k == 'V')
        tb = scalar();
    const int n = ta.w ? ta.w : tb.w;
    auto a = gen_val(s, ta, n), b = gen_val(s, tb, n);
    for (auto* v : { &a, &b }) // literals are limited to 127 bits and a sign
        if (v->v >= ref::pow2(127) || v->v < -(ref::pow2(127) - 1))
            v->v = v->t.k == 'U' ? v->v - ref::pow2(127) : ref::Z(v->v + 1);
    std::string text = "const a: " + ta.str() + " = " + literal(a) + ";\nconst b: " + tb.str() + " = "
        + literal(b) + ";\nconst r = ";
    ref::Out want = "";
    switch (s.weighted({ 6, 2, 2, 2 })) {
    case 0: {
        const ref::Op o = gen_op_for(s, ta, tb);
        text += "a " + ref::op_texts()[int(o)] + " b";
        if (ref::is_log(o) && ref::type_binary(ta, o, tb) && (a.v != 0) == (o == ref::Op::lor))
            want = a; // short circuit
        else
            want = ref::binary(a, o, b);
        break;
    }
    case 1: {
        const char o = s.pick_char("-~+!");
        text += std::string(1, o) + "a";
        want = ref::unary(o, a);
        break;
    }
    case 2:
        text += "a as " + tb.str();
        want = ref::convert(a, tb);
        break;
    default: {
        const ref::Val k = gen_val(s, ref::BOOL);
        text += "a if " + k.str() + " else b";
        want = ref_if(a, k, b);
    }
    }
    text += ";\n";
    c.show(text);
    front::Program p(text);
    c.label(want.v ? "value" : want.err);
    if (want.v) {
        c.check(p.ok(), text + "expected " + want.str() + ", got " + p.verdict());
        const auto r = p.constant("r");
        c.check(r.has_value(), text + "no constant");
        c.check(ref_val(*r) == *want.v,
                text + "expected " + want.str() + ", got " + ref_val(*r).str());
    }
    else if (want.err == "type_error")
        c.check(!p.ok() && p.verdict().find("evaluation_error") == std::string::npos,
                text + "expected a type rule to be violated, got " + p.verdict());
    else
        c.check(p.verdict() == "analysis:evaluation_error:" + want.err,
                text + "expected " + want.err + ", got " + p.verdict());
    if (want.err != "type_error")
        c.nontrivial(text);
}

void exhaustive(Ctx& c)
{
    std::vector<ref::Val> vs;
    for (int w = 1; w <= 4; ++w)
        for (int v = 0; v < 1 << w; ++v)
            vs.push_back({ ref::UINT(w), v });
    for (int v = -10; v <= 17; ++v)
        vs.push_back({ ref::INT, v });
    vs.push_back({ ref::BOOL, 0 });
    vs.push_back({ ref::BOOL, 1 });
    vs.push_back({ ref::VOID, 0 });
    const std::vector<ref::Type> ts { ref::UINT(1), ref::UINT(2), ref::UINT(3), ref::UINT(4),
                                      ref::INT, ref::BOOL, ref::VOID };
    for (auto& a : vs) {
        for (auto& b : vs)
            for (int o = 0; o <= 17; ++o)
                do_binary(c, a, ref::Op(o), b);
        for (char o : { '+', '-', '~', '!' })
            do_unary(c, o, a);
        for (auto& t : ts)
            do_convert(c, a, t);
        do_assert(c, { a });
    }
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C05";
    p.rule = "Random operator, operand types (Void, Bool, Int, Uint(1..128), biased to compatible "
             "pairs and boundary widths) and operand values (small, near 2^k, near the maximum, "
             "random), compared with arbitrary-precision reference semantics through the concrete "
             "and the Value interface and through constants of whole programs; what types and values say "
             "about themselves (masks, ranges, accessors, printing); all operands of "
             "width 1..4 and Int -10..17 exhaustively. Non-trivial: operand types accepted by the "
             "type rules; distinct by operands and operator.";
    p.assumptions = { "Int is limited to 128 bits: results outside are to be reported as overflow" };
    p.fixed = { { "exhaustive small operands", exhaustive } };
    p.targets = {
        { "operators", any, 600000, 20000000 },
        { "programs", program, 60000, 2000000 },
        { "described", described, 100000, 2000000 },
    };
    return p;
}
