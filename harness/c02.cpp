#include "common/parse.hpp"

#include "front.hpp"
#include "pbt.hpp"

using namespace bit_manipulation;
using pbt::Ctx;
using pbt::Src;

namespace {

// Arbitrary-precision value of a digit string: little-endian base 2^16 digits.
struct Big {
    std::vector<std::uint32_t> d;
    void mul_add(std::uint32_t m, std::uint32_t a)
    {
        std::uint64_t carry = a;
        for (auto& x : d) {
            carry += std::uint64_t(x) * m;
            x = carry & 0xffff;
            carry >>= 16;
        }
        while (carry) {
            d.push_back(carry & 0xffff);
            carry >>= 16;
        }
    }
    void trim()
    {
        while (!d.empty() && d.back() == 0)
            d.pop_back();
    }
    bool fits(int bits) const
    {
        for (std::size_t i = 0; i < d.size(); ++i)
            for (int b = 0; b < 16; ++b)
                if (d[i] >> b & 1 && int(i) * 16 + b >= bits)
                    return false;
        return true;
    }
    unsigned __int128 low() const
    {
        unsigned __int128 r = 0;
        for (std::size_t i = 0; i < d.size() && i < 8; ++i)
            r |= (unsigned __int128)d[i] << (16 * i);
        return r;
    }
};

Big value_of(std::string_view lit)
{
    int base = 10;
    if (lit.substr(0, 2) == "0x") {
        base = 16;
        lit.remove_prefix(2);
    }
    else if (lit.substr(0, 2) == "0b") {
        base = 2;
        lit.remove_prefix(2);
    }
    else if (lit[0] == '0')
        base = 8;
    Big r;
    for (char c : lit)
        r.mul_add(base, c <= '9' ? c - '0' : c >= 'a' ? c - 'a' + 10 : c - 'A' + 10);
    r.trim();
    return r;
}

std::string show(unsigned __int128 v)
{
    std::string r;
    do
        r.insert(0, 1, char('0' + int(v % 10)));
    while ((v /= 10) != 0);
    return r;
}

// Renders a value in a base, with random letter case and leading zeros.
std::string render(Src& s, const Big& v, int base, bool zeros)
{
    Big x = v;
    std::string r;
    x.trim();
    const int upper = s.upto(2);
    while (!x.d.empty()) {
        std::uint64_t rem = 0;
        for (std::size_t i = x.d.size(); i-- > 0;) {
            rem = rem << 16 | x.d[i];
            x.d[i] = std::uint32_t(rem / base);
            rem %= base;
        }
        x.trim();
        const bool up = upper == 1 || (upper == 2 && s.flag());
        r.insert(0, 1, std::string_view(up ? "0123456789ABCDEF" : "0123456789abcdef")[rem]);
    }
    if (r.empty() && base != 8)
        r = "0";
    if (zeros && base != 10)
        r.insert(0, std::string(s.upto(40), '0'));
    if (base == 16 || base == 2) {
        if (r.empty())
            r = "0";
        return (base == 16 ? "0x" : "0b") + r;
    }
    if (base == 8)
        return "0" + (r.empty() ? "0" : r);
    return r;
}

std::string literal(Src& s, Ctx& c)
{
    if (s.chance(25)) {
        // plain random digits
        std::string r { s.pick({ "", "0x", "0b", "0" }) };
        const auto set = r == "0x" ? "0123456789abcdefABCDEF"
            : r == "0b"            ? "01"
            : r == "0"             ? "01234567"
                                   : "0123456789";
        if (r.empty())
            r += s.pick_char("123456789");
        for (int n = 1 + s.upto(s.chance(30) ? 140 : 12); n > 0; --n)
            r += s.pick_char(set);
        return r;
    }
    Big v;
    const int shape = s.weighted({ 4, 4, 3, 2 });
    if (shape == 0) { // small
        v.mul_add(1, s.draw32(1 + s.pick(std::vector<std::uint32_t> { 9, 99, 999, 65535, 1000000 })));
    }
    else if (shape == 1) { // 2^k + delta
        const int k = s.flag() ? 120 + s.upto(12) : s.upto(140);
        v.d.assign(k / 16 + 1, 0);
        v.d[k / 16] = 1u << (k % 16);
        const int delta = s.upto(5) - 2;
        if (delta > 0)
            v.mul_add(1, delta);
        else if (delta < 0) {
            std::size_t i = 0;
            int borrow = -delta;
            for (; borrow && i < v.d.size(); ++i) {
                const int x = int(v.d[i]) - borrow;
                borrow = x < 0;
                v.d[i] = x & 0xffff;
            }
            if (borrow)
                v.d.assign(1, 0);
        }
    }
    else { // random bits up to a width, or a multiple of 2^128 and near it
        const int w = shape == 2 ? 1 + s.upto(128) : 128 + s.upto(140);
        v.d.assign(w / 16 + 1, 0);
        for (int i = 0; i < w; ++i)
            if (s.flag())
                v.d[i / 16] |= 1u << (i % 16);
        if (shape == 3 && s.flag())
            for (int i = 1; i < 8; ++i)
                v.d[i] = 0; // high part and a small low part: wraps to a small value
    }
    v.trim();
    const int base = s.pick(std::vector<int> { 10, 16, 2, 8 });
    c.label("base " + std::to_string(base));
    return render(s, v, base, s.chance(20));
}

void exact(Src& s, Ctx& c)
{
    const std::string lit = literal(s, c);
    c.show(lit);
    const Big v = value_of(lit);
    const auto u = parse_uinteger_literal(lit);
    const auto i = parse_integer_literal(lit);
    if (v.fits(128)) {
        c.check(u.has_value(), "unsigned: representable literal rejected");
        c.check(*u == v.low(), "unsigned: evaluates to " + show(*u) + " not " + show(v.low()));
    }
    else
        c.check(!u, "unsigned: unrepresentable literal accepted");
    if (v.fits(127)) {
        c.check(i.has_value(), "signed: representable literal rejected");
        c.check(*i == (__int128)v.low(), "signed: wrong value");
        const auto neg = parse_integer_literal("-" + lit);
        c.check(neg.has_value() && *neg == -(__int128)v.low(), "negative: wrong value");
    }
    else
        c.check(!i, "signed: unrepresentable literal accepted");
    c.label(v.fits(64) ? "up to 64 bits" : v.fits(127) ? "65..127 bits" : "over 127 bits");
    if (!v.fits(3))
        c.nontrivial(lit);
}

void program(Src& s, Ctx& c)
{
    const std::string lit = literal(s, c);
    const std::string text = "const x = " + lit + ";";
    c.show(text);
    const Big v = value_of(lit);
    front::Program p(text);
    if (!v.fits(127)) {
        c.check(p.verdict() == "analysis:invalid_integer_literal",
                "program: unrepresentable literal gives " + p.verdict());
    }
    else {
        c.check(p.ok(), "program: representable literal rejected with " + p.verdict());
        const auto x = p.constant("x");
        c.check(x && x->type == bms::Concrete_Type::Int && x->int_value == (__int128)v.low(),
                "program: wrong constant value");
    }
    c.nontrivial("p" + lit);
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C02";
    p.rule = "Literals rendered in every base, letter case and with leading zeros from values that "
             "are small, near 2^k for k up to 140, random up to 268 bits, or that would wrap to a "
             "small value, plus random digit strings; checked against arbitrary-precision "
             "evaluation, directly and as the initializer of a constant. Non-trivial: value of at "
             "least 8; distinct by literal text.";
    p.assumptions = { "integers of more than 127 bits need not be representable" };
    p.targets = {
        { "exact", exact, 600000, 12000000 },
        { "program", program, 60000, 1500000 },
    };
    return p;
}
