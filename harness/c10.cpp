// C10: constant folding and the time of analysis do not change what functions compute.
#include "machine.hpp"
#include "pbt.hpp"
#include "prog.hpp"

using pbt::Ctx;
using pbt::Src;
using ref::Ptr;

namespace {

std::string literal(Src& s, const ref::Val& v)
{
    if (v.t.k == 'B')
        return v.v != 0 ? "true" : "false";
    if (v.v < 0)
        return v.v == -ref::pow2(127) ? "(-" + ref::Z(-(v.v + 1)).str() + " - 1)"
                                      : "(-" + gen::Prog_Gen::spell_int(s, -v.v) + ")";
    if (v.v >= ref::pow2(127))
        return "(~(" + ref::Z(ref::pow2(v.t.w) - 1 - v.v).str() + " as Uint(" + std::to_string(v.t.w) + ")))";
    return gen::Prog_Gen::spell_int(s, v.v);
}
Ptr parse_expr(const std::string& text)
{
    const auto lex = ref::lex("const x = " + text + ";");
    ref::Parser p(lex.tokens);
    return p.program()->kids[0]->kids[2];
}
Ptr value_node(Src& s, const ref::Val& v)
{
    auto e = parse_expr(literal(s, v));
    if (v.t.k == 'U')
        e = ref::node("Conv", "", { e, ref::node("Type", "Uint", { gen::Prog_Gen::lit(std::to_string(v.t.w)) }) });
    return e;
}

struct Side {
    front::Program p;
    std::unique_ptr<bit_manipulation::bms::Virtual_Machine> own;
    std::vector<machine::Entry> es;
    explicit Side(const std::string& t)
        : p(t)
    {
    }
    bit_manipulation::bms::Virtual_Machine& vm() { return own ? *own : p.analyzed->get_vm(); }
    void build(bool fresh, Ctx& c)
    {
        if (fresh)
            own = std::make_unique<bit_manipulation::bms::Virtual_Machine>(&p.memory);
        es = machine::lib_entries(p);
        machine::compile(vm(), es, !fresh, c);
    }
    machine::Entry* find(const std::string& label)
    {
        for (auto& e : es)
            if (e.label == label && machine::compiled(e))
                return &e;
        return nullptr;
    }
};

std::optional<machine::Outcome> want(const prog::Meaning& m, const std::string& f, const std::vector<ref::Val>& args)
{
    try {
        return machine::expected(m, m.sem->function(f), args);
    } catch (const ref::Unspecified&) {
        return {};
    }
}
bool agree(const machine::Outcome& a, const machine::Outcome& b)
{
    return a.value == b.value && a.error == b.error;
}

struct Subject {
    Ptr tree;
    std::string text;
    std::unique_ptr<prog::Meaning> m;
    std::vector<std::string> functions; // not bit-generic
};
Subject subject(Src& s, Ctx& c, int size)
{
    gen::Prog_Options o;
    o.runtime_errors = s.chance(50);
    o.size = size;
    o.functions = 3;
    o.constants = s.upto(3);
    o.generic_percent = 15;
    Subject r;
    r.tree = prog::gen_tree(s, o, 0);
    r.text = prog::plain(r.tree);
    c.show(r.text);
    try {
        r.m = std::make_unique<prog::Meaning>(r.text);
    } catch (const ref::Unspecified&) {
        c.discard();
    }
    if (!r.m->sem->ok())
        c.discard();
    for (auto* f : r.m->sem->functions())
        if (!f->generic)
            r.functions.push_back(f->fn->name);
    if (r.functions.empty())
        c.discard();
    return r;
}
const Ptr* function_node(const Ptr& tree, const std::string& name)
{
    for (auto& d : tree->kids)
        if (d->kind == "Function" && d->text == name)
            return &d;
    return nullptr;
}

// A parameter becomes a constant, a variable or a literal of the value of an argument.
void specialize(Src& s, Ctx& c)
{
    auto x = subject(s, c, 20 + s.upto(80));
    const auto f = s.pick(x.functions);
    auto* inst = x.m->sem->function(f);
    const auto ps = ref::Semantics::params(inst);
    if (ps.empty())
        c.discard();
    const std::size_t k = s.draw32(std::uint32_t(ps.size()));
    auto args = machine::gen_args(s, *x.m->sem, inst);
    const auto expect = want(*x.m, f, args);
    if (!expect)
        c.discard();
    auto t = ref::clone(x.tree);
    auto copy = ref::clone(*function_node(x.tree, f));
    copy->text = "special";
    const std::string name = ps[k]->text;
    const auto type = copy->kids[1]->kids[k]->kids[0];
    copy->kids[1]->kids.erase(copy->kids[1]->kids.begin() + long(k));
    if (copy->kids[1]->kids.empty())
        copy->kids[1] = nullptr;
    const auto v = value_node(s, args[k]);
    const int form = s.upto(3);
    auto& body = copy->kids[4]->kids;
    auto uses = [&](const Ptr& p) {
        std::vector<gen::Slot> r;
        gen::slots(p, r, [&](const Ptr& q) { return q->kind == "Id" && q->text == name; });
        return r;
    };
    int replaced = 1;
    if (form == 0)
        body.insert(body.begin(), ref::node("Let", name, { nullptr, type, v }));
    else if (form == 1)
        body.insert(body.begin(), ref::node("Const", name, { nullptr, s.flag() ? type : nullptr, v }));
    else { // in place, all or some of the uses
        auto us = uses(copy->kids[4]);
        replaced = 0;
        bool rest = false;
        for (auto& u : us)
            if (form == 2 || s.flag()) {
                u.get() = ref::clone(v);
                ++replaced;
            }
            else
                rest = true;
        if (rest)
            body.insert(body.begin(), ref::node("Let", name, { nullptr, type, v }));
    }
    if (replaced == 0)
        c.discard();
    t->kids.push_back(copy);
    const auto text2 = prog::plain(t);
    c.show(x.text + "\n---- " + f + machine::show_args(args) + " specialized\n"
           + text2.substr(text2.rfind("function special")));
    auto rest = args;
    rest.erase(rest.begin() + long(k));

    Side a(x.text), b(text2);
    if (!a.p.ok())
        c.discard(); // C07
    if (!b.p.ok()) {
        // assert(false) with a known operand is rejected wherever it is
        c.check(b.p.verdict() == "analysis:evaluation_error:assertion_fail" && form != 0,
                "rejected once specialized: " + b.p.verdict());
        c.label("known assertion");
        c.discard();
    }
    a.build(s.flag(), c);
    b.build(s.flag(), c);
    auto *ea = a.find(f), *eb = b.find("special");
    if (!ea || !eb)
        c.discard();
    const auto ra = machine::run(a.vm(), *ea, args, c), rb = machine::run(b.vm(), *eb, rest, c);
    c.check(agree(ra, rb), f + machine::show_args(args) + " yields " + ra.str() + ", specialized " + rb.str());
    c.label(form == 0 ? "variable" : form == 1 ? "constant" : "literals");
    c.label(ra.value ? "value" : ra.error);
    c.nontrivial(text2);
}

// Literals become variables or parameters.
void generalize(Src& s, Ctx& c)
{
    auto x = subject(s, c, 20 + s.upto(80));
    const auto f = s.pick(x.functions);
    auto* inst = x.m->sem->function(f);
    auto copy = ref::clone(*function_node(x.tree, f));
    copy->text = "general";
    // literals that are evaluated at run time
    std::vector<gen::Slot> lits;
    std::function<void(const Ptr&)> walk = [&](const Ptr& p) {
        for (std::size_t i = 0; i < p->kids.size(); ++i) {
            auto& k = p->kids[i];
            if (!k || k->kind == "Type" || k->kind == "Const" || k->kind == "Static_Assert" || k->kind == "Annots")
                continue;
            if (k->kind == "Literal")
                lits.push_back({ p.get(), i });
            else
                walk(k);
        }
    };
    walk(copy->kids[4]);
    if (lits.empty())
        c.discard();
    const bool params = s.flag();
    std::vector<Ptr> lets, extra_params;
    std::vector<ref::Val> extra;
    const int n = 1 + s.upto(2);
    std::set<ref::Node*> done;
    for (int i = 0; i < n; ++i) {
        auto& slot = s.pick(lits);
        auto& l = slot.get();
        if (l->kind != "Literal" || !done.insert(l.get()).second)
            continue;
        const std::string name = "lifted" + std::to_string(i);
        const bool b = l->text == "true" || l->text == "false";
        const auto type = ref::node("Type", b ? "Bool" : "Int", { nullptr });
        if (params) {
            extra_params.push_back(ref::node("Param", name, { type }));
            extra.push_back(b ? ref::Val { ref::BOOL, l->text == "true" }
                              : ref::Val { ref::INT, *ref::literal_value(l->text) });
        }
        else
            lets.push_back(ref::node("Let", name, { nullptr, s.flag() ? type : nullptr, l }));
        l = gen::Prog_Gen::id(name);
    }
    auto& body = copy->kids[4]->kids;
    body.insert(body.begin(), lets.begin(), lets.end());
    if (!extra_params.empty()) {
        auto& ps = copy->kids[1];
        if (!ps)
            ps = ref::node("Params", "");
        ps->kids.insert(ps->kids.end(), extra_params.begin(), extra_params.end());
    }
    auto t = ref::clone(x.tree);
    t->kids.push_back(copy);
    const auto text2 = prog::plain(t);
    c.show(x.text + "\n---- literals of " + f + " lifted\n" + text2.substr(text2.rfind("function general")));
    Side a(x.text), b(text2);
    if (!a.p.ok())
        c.discard();
    c.check(b.p.ok(), "rejected once literals are lifted: " + b.p.verdict());
    a.build(s.flag(), c);
    b.build(s.flag(), c);
    auto *ea = a.find(f), *eb = b.find("general");
    if (!ea || !eb)
        c.discard();
    for (int i = 0; i < 4; ++i) {
        const auto args = machine::gen_args(s, *x.m->sem, inst);
        if (!want(*x.m, f, args))
            continue;
        auto more = args;
        more.insert(more.end(), extra.begin(), extra.end());
        const auto ra = machine::run(a.vm(), *ea, args, c), rb = machine::run(b.vm(), *eb, more, c);
        c.check(agree(ra, rb), f + machine::show_args(args) + " yields " + ra.str() + ", with lifted literals " + rb.str());
        c.label(ra.value ? "value" : ra.error);
    }
    c.label(params ? "parameters" : "variables");
    c.nontrivial(text2);
}

// Functions are also called by constants, static assertions and functions before and after them.
void timing(Src& s, Ctx& c)
{
    auto x = subject(s, c, 30 + s.upto(120));
    std::string before, after;
    struct Call {
        std::string name, f;
        std::vector<ref::Val> args;
        machine::Outcome out;
    };
    std::vector<Call> calls;
    const int n = 1 + s.upto(3);
    bool fails = false;
    for (int i = 0; i < n && !fails; ++i) {
        Call k;
        k.f = s.pick(x.functions);
        auto* inst = x.m->sem->function(k.f);
        k.args = machine::gen_args(s, *x.m->sem, inst);
        const auto w = want(*x.m, k.f, k.args);
        if (!w)
            continue;
        k.out = *w;
        std::string e = k.f + "(";
        for (std::size_t j = 0; j < k.args.size(); ++j) {
            const auto l = literal(s, k.args[j]);
            e += (j ? ", " : "") + l;
        }
        e += ")";
        k.name = "extra" + std::to_string(i);
        std::string d;
        switch (s.upto(3)) {
        case 0: d = "const " + k.name + " = " + e + ";\n"; break;
        case 1:
            if (!w->value)
                d = "const " + k.name + " = " + e + ";\n";
            else if (w->value->t.k == 'V')
                d = "const " + k.name + " = " + e + ";\n";
            else
                d = "static_assert(" + e + " == " + literal(s, *w->value) + ");\n";
            break;
        default: { // a function that only calls it
            const auto rt = x.m->sem->return_type(inst);
            if (s.flag() || !w->value)
                d = "function " + k.name + "() -> " + rt.str() + " {\n    return " + e + ";\n}\n";
            else
                d = "function " + k.name + "() -> " + rt.str() + " {\n    const x = " + e + ";\n    return x;\n}\n";
            k.name += "!";
        }
        }
        if (d.starts_with("const") || d.starts_with("static"))
            fails |= !w->value;
        (s.flag() && (d.starts_with("function")) ? before : after) += d;
        calls.push_back(k);
    }
    if (calls.empty())
        c.discard();
    const auto text2 = before + x.text + after;
    c.show(x.text + "\n---- called from\n" + before + "...\n" + after);
    Side a(x.text), b(text2);
    if (!a.p.ok())
        c.discard();
    // recursive functions cannot be called in constant expressions
    if (b.p.verdict() == "analysis:codegen_call_to_unanalyzed")
        try {
            prog::Meaning m2(text2);
            if (!m2.sem->ok() && b.p.verdict() == "analysis:" + m2.sem->errors[0].code)
                c.discard();
        } catch (const ref::Unspecified&) {
        }
    // functions called from a constant expression inside of a function before the constants they use
    if (!before.empty() && b.p.verdict() == "analysis:use_of_undefined_constant")
        c.discard();
    if (fails) {
        const auto& k = calls.back();
        c.check(b.p.verdict() == "analysis:" + k.out.error,
                "constant call of " + k.f + machine::show_args(k.args) + " is " + b.p.verdict() + ", expected " + k.out.error);
        c.label("fails: " + k.out.error);
        c.nontrivial(text2);
        return;
    }
    c.check(b.p.ok(), "rejected when called from elsewhere: " + b.p.verdict());
    a.build(true, c);
    b.build(s.flag(), c);
    for (auto& k : calls) {
        if (auto v = b.p.constant(k.name))
            c.check(k.out.value && vals::ref_val(*v) == *k.out.value,
                    k.name + " is " + vals::ref_val(*v).str() + ", expected " + k.out.str());
        auto *ea = a.find(k.f), *eb = b.find(k.f);
        if (!ea || !eb)
            continue;
        for (int i = 0; i < 3; ++i) {
            const auto args = i == 0 ? k.args : machine::gen_args(s, *x.m->sem, x.m->sem->function(k.f));
            if (i && !want(*x.m, k.f, args))
                continue;
            const auto ra = machine::run(a.vm(), *ea, args, c), rb = machine::run(b.vm(), *eb, args, c);
            c.check(agree(ra, rb), k.f + machine::show_args(args) + " yields " + ra.str() + ", when called from elsewhere " + rb.str());
            c.label(ra.value ? "value" : ra.error);
        }
    }
    c.nontrivial(text2);
}

// One expression over operands that may make it fail; each operand is a parameter, or is known in some form.
struct Operands {
    Src& s;
    ref::Type num;
    struct Atom {
        std::string name;
        ref::Val v;
    };
    std::vector<Atom> atoms;

    std::string atom(const ref::Type& t)
    {
        static const std::vector<int> small { 0, 0, 1, 2, 7, 8, 9 };
        ref::Val v { t, 0 };
        if (t.k == 'B')
            v.v = s.flag();
        else if (s.chance(80))
            v.v = ref::Z(s.pick(small)) * (t.k == 'I' && s.chance(20) ? -1 : 1);
        else
            v = vals::gen_val(s, t);
        if (t.k == 'U')
            v.v = ref::mod(v.v, t.w);
        atoms.push_back({ "a" + std::to_string(atoms.size()), v });
        return atoms.back().name;
    }
    std::string number(int depth)
    {
        if (depth <= 0 || s.chance(25))
            return atom(num);
        switch (s.weighted({ 60, 15, 10 })) {
        case 0: {
            const auto op = num.k == 'U' ? std::string(s.pick({ "/", "%", "/", "%", "+", "-", "*", "<<", ">>" }))
                                         : std::string(s.pick({ "/", "%", "/", "%", "+", "-", "*" }));
            return "(" + number(depth - 1) + " " + op + " " + number(depth - 1) + ")";
        }
        case 1: return "(" + number(depth - 1) + " if " + boolean(depth - 1) + " else " + number(depth - 1) + ")";
        default: return "(-" + atom(num) + ")";
        }
    }
    std::string boolean(int depth)
    {
        if (depth <= 0 || s.chance(15))
            return atom(ref::BOOL);
        switch (s.weighted({ 30, 50, 10, 10 })) {
        case 0: return "(" + number(depth - 1) + " " + std::string(s.pick({ "==", "!=", "<", ">", "<=", ">=" })) + " " + number(depth - 1) + ")";
        case 1: return "(" + boolean(depth - 1) + (s.flag() ? " && " : " || ") + boolean(depth - 1) + ")";
        case 2: return "(" + boolean(depth - 1) + " if " + boolean(depth - 1) + " else " + boolean(depth - 1) + ")";
        default: return "(!" + atom(ref::BOOL) + ")";
        }
    }
};
void operations(Src& s, Ctx& c)
{
    Operands o { s, ref::INT, {} };
    if (s.chance(70))
        o.num = ref::Type { 'U', s.pick(std::vector { 1, 3, 8, 16, 64, 128 }) };
    const bool b = s.chance(65);
    const int depth = 1 + s.upto(2);
    const auto e = b ? o.boolean(depth) : o.number(depth);
    const auto result = (b ? ref::BOOL : o.num).str();

    const auto word = [&](std::string text, const std::function<std::string(std::size_t)>& of) {
        std::string r;
        for (std::size_t i = 0; i < text.size();) {
            if (text[i] != 'a') {
                r += text[i++];
                continue;
            }
            if (text.compare(i, 2, "as") == 0) {
                r += "as";
                i += 2;
                continue;
            }
            std::size_t n = 0;
            for (++i; i < text.size() && std::isdigit(static_cast<unsigned char>(text[i])); ++i)
                n = n * 10 + std::size_t(text[i] - '0');
            r += of(n);
        }
        return r;
    };
    // which operands are known, and how
    std::string ps, rest_ps, before, body;
    std::vector<std::string> spelled(o.atoms.size());
    std::vector<ref::Val> args, rest;
    int known = 0;
    const int percent = s.pick(std::vector { 30, 50, 80 });
    for (std::size_t i = 0; i < o.atoms.size(); ++i) {
        auto& a = o.atoms[i];
        const auto type = a.v.t.str();
        ps += (i ? ", " : "") + a.name + ": " + type;
        args.push_back(a.v);
        spelled[i] = a.name;
        if (!s.chance(percent)) {
            rest_ps += (rest.empty() ? "" : ", ") + a.name + ": " + type;
            rest.push_back(a.v);
            continue;
        }
        ++known;
        const auto value = a.v.t.k == 'U' ? "(" + literal(s, a.v) + " as " + type + ")" : literal(s, a.v);
        switch (s.upto(3)) {
        case 0: before += "const " + a.name + "c: " + type + " = " + value + ";\n"; spelled[i] = a.name + "c"; break;
        case 1: body += "    const " + a.name + " = " + value + ";\n"; break;
        case 2: body += "    let " + a.name + ": " + type + " = " + value + ";\n"; break;
        default: spelled[i] = value;
        }
    }
    if (known == 0)
        c.discard();
    const auto full = "function f(" + ps + ") -> " + result + " {\n    return " + e + ";\n}\n";
    const auto text = full + before + "function g(" + rest_ps + ") -> " + result + " {\n" + body + "    return "
        + word(e, [&](std::size_t n) { return spelled[n]; }) + ";\n}\n";
    c.show(text + "\n---- " + machine::show_args(args));
    prog::Meaning m(text);
    const auto expect = want(m, "f", args);
    if (!expect)
        c.discard();
    Side a(text);
    c.check(a.p.ok(), "rejected: " + a.p.verdict());
    a.build(s.flag(), c);
    auto *ef = a.find("f"), *eg = a.find("g");
    c.check(ef && eg, "a function cannot be called");
    const auto rf = machine::run(a.vm(), *ef, args, c), rg = machine::run(a.vm(), *eg, rest, c);
    c.check(agree(rf, *expect), "f" + machine::show_args(args) + " yields " + rf.str() + ", expected " + expect->str());
    c.check(agree(rf, rg), "f" + machine::show_args(args) + " yields " + rf.str() + ", with known operands " + rg.str());
    c.label(rf.value ? "value" : rf.error);
    c.nontrivial(text);
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C10";
    p.rule = "Generated well-typed programs. One function is copied with a parameter replaced by a "
             "variable, a constant or the literal value of one argument; or with literals replaced by "
             "variables or additional parameters; or one expression over operands that may make it fail has some of them known; or it is called from additional constants, static "
             "assertions and functions before and after it. The original and the changed function "
             "are run on the same values and must yield the same value or kind of error, constants "
             "must have the values that running yields, and failing constant calls must be rejected "
             "with the error that running yields. Non-trivial: both sides ran or the rejection was "
             "compared; distinct by text.";
    p.targets = { { "specialize", specialize, 6000, 150000 },
                  { "generalize", generalize, 5000, 150000 },
                  { "timing", timing, 5000, 150000 },
                  { "operations", operations, 16000, 400000 } };
    p.assumptions = { "assert of an operand that is known to be false is rejected during analysis even where it is not executed",
                      "recursive functions cannot be called in constant expressions" };
    return p;
}
