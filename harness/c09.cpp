// C09: virtual machine code against the reference semantics.
#include "machine.hpp"
#include "pbt.hpp"
#include "prog.hpp"

using pbt::Ctx;
using pbt::Src;

namespace {

void judge(Src& s, Ctx& c, const std::string& text, int calls)
{
    c.show(text);
    std::optional<prog::Meaning> m;
    try {
        m.emplace(text);
    } catch (const ref::Unspecified&) {
        c.discard();
    }
    if (!m->sem->ok())
        c.discard();
    front::Program p(text);
    if (!p.ok())
        c.discard(); // C07 decides that
    auto es = machine::entries(p, *m->sem, c);
    const int mode = s.upto(1);
    bit_manipulation::bms::Virtual_Machine own(&p.memory);
    auto& vm = mode == 0 ? p.analyzed->get_vm() : own;
    if (s.flag())
        std::reverse(es.begin(), es.end());
    machine::compile(vm, es, mode == 0, c);
    std::erase_if(es, [](auto& e) { return e.fn->vm_address == machine::ast::Function::invalid_vm_address; });
    if (es.empty())
        c.discard();
    bool interesting = false;
    std::string log;
    for (int i = 0; i < calls; ++i) {
        auto& e = es[i < int(es.size()) ? std::size_t(i) : s.draw32(std::uint32_t(es.size()))];
        const auto args = machine::gen_args(s, *m->sem, e.meaning);
        machine::Outcome want;
        const int before = m->sem->steps;
        try {
            want = machine::expected(*m, e.meaning, args);
        } catch (const ref::Unspecified&) {
            c.label("unspecified");
            continue;
        }
        log += e.label + machine::show_args(args) + "; ";
        const auto got = machine::run(vm, e, args, c);
        c.check(machine::same(want, got),
                e.label + machine::show_args(args) + " yields " + got.str() + ", expected " + want.str()
                    + "\ncalls so far: " + log);
        c.label(want.value ? "value" : want.error);
        interesting |= m->sem->steps - before >= 8;
    }
    if (interesting)
        c.nontrivial(prog::key(m->tree));
}

void programs(Src& s, Ctx& c)
{
    gen::Prog_Options o;
    o.deep_percent = 4;
    o.runtime_errors = s.chance(60);
    o.size = 60 + s.upto(300);
    o.constants = s.upto(4);
    const auto t = prog::gen_tree(s, o, 0);
    judge(s, c, prog::named(s, prog::plain(t), 8), 12);
}
// Small bodies, so that single constructs decide the result.
void small(Src& s, Ctx& c)
{
    gen::Prog_Options o;
    o.deep_percent = 4;
    o.runtime_errors = true;
    o.size = 8 + s.upto(40);
    o.constants = s.upto(2);
    o.functions = 1 + s.upto(1);
    o.static_asserts = false;
    o.max_width = s.flag() ? 128 : 8;
    o.partial_percent = s.chance(30) ? 80 : 0;
    judge(s, c, prog::named(s, prog::plain(prog::gen_tree(s, o, 0)), 8), 8);
}
void edited(Src& s, Ctx& c)
{
    gen::Prog_Options o;
    o.deep_percent = 4;
    o.size = 20 + s.upto(80);
    o.functions = 1 + s.upto(2);
    o.constants = s.upto(2);
    o.static_asserts = false;
    judge(s, c, prog::plain(prog::gen_tree(s, o, 1)), 8);
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C09";
    p.rule = "Generated well-typed programs (see C07), whole, small, and with one random edit that "
             "keeps them well-formed; every function and every instance of a bit-generic function is "
             "compiled, in source or reverse order, into the machine that analysis used or into a "
             "fresh one, and called several times in sequence on random arguments (small, extreme and "
             "random values). Value, type, number of values left, and error kind and position must "
             "equal those of a tree-walking interpreter over arbitrary-precision integers. "
             "Non-trivial: at least one call that takes 8 interpreter steps; distinct by syntax tree.";
    p.targets = { { "programs", programs, 4000, 150000 },
                  { "small", small, 8000, 300000 },
                  { "edited", edited, 6000, 200000 } };
    p.assumptions = { "reading a variable that is declared again without a value in a later iteration is unspecified",
                      "calls of more than 20000 steps or a call depth of 60 are left out",
                      "mutually recursive functions have no code generation order and are left out" };
    return p;
}
