// C11: bit-generic functions against programs in which every instance is written out by hand.
#include "bms/instantiate.hpp"
#include "machine.hpp"
#include "pbt.hpp"
#include "prog.hpp"

using pbt::Ctx;
using pbt::Src;

namespace {

// Substitutes the widths in the body of an instance and names the instances it calls.
struct Writer {
    ref::Semantics& sem;
    const ref::Semantics::Inst* inst;
    std::map<std::string, int> widths;

    static std::string name(const ref::Semantics::Inst* i)
    {
        std::string r = i->fn->name;
        for (int w : i->widths)
            r += "_" + std::to_string(w);
        return r;
    }
    ref::Ptr copy(const ref::Ptr& p) const
    {
        if (!p)
            return p;
        if (p->kind == "Id") {
            const auto it = widths.find(p->text);
            if (it != widths.end())
                return gen::Prog_Gen::lit(std::to_string(it->second));
        }
        auto r = std::make_shared<ref::Node>(*p);
        for (auto& k : r->kids)
            k = copy(k);
        if (p->kind == "Call") {
            const auto it = inst->targets.find(p.get());
            if (it != inst->targets.end())
                r->text = name(it->second);
        }
        return r;
    }
};

std::map<std::string, int> names_of(const ref::Semantics::Inst* i)
{
    std::map<std::string, int> r;
    for (auto& [e, w] : i->width_of)
        r[e->name] = w;
    return r;
}

ref::Ptr written_out(const prog::Meaning& m)
{
    // Copies go to the end: a bit-generic function is only analyzed when it is called.
    auto r = ref::node("Program", "");
    std::vector<ref::Ptr> copies;
    for (auto& d : m.tree->kids) {
        if (d->kind != "Function") {
            r->kids.push_back(Writer { *m.sem, m.sem->top_scope(), {} }.copy(d));
            continue;
        }
        auto* f = m.sem->function(d->text);
        std::vector<ref::Semantics::Inst*> is = f->instances;
        std::sort(is.begin(), is.end(), [](auto* a, auto* b) { return a->widths < b->widths; });
        if (!f->generic)
            is = { f };
        for (auto* i : is) {
            auto c = Writer { *m.sem, i, names_of(i) }.copy(d);
            c->text = Writer::name(i);
            (f->generic ? copies : r->kids).push_back(c);
        }
    }
    r->kids.insert(r->kids.end(), copies.begin(), copies.end());
    return r;
}

void judge(Src& s, Ctx& c, const std::string& text, int calls)
{
    c.show(text);
    std::optional<prog::Meaning> m;
    try {
        m.emplace(text);
    } catch (const ref::Unspecified&) {
        c.discard();
    }
    if (!m->sem->ok() || m->sem->instances_made == 0)
        c.discard();
    const auto copy_text = prog::plain(written_out(*m));
    front::Program p(text), q(copy_text);
    c.check(p.verdict() == q.verdict(),
            "verdict is " + p.verdict() + ", but " + q.verdict() + " when written out:\n" + copy_text);
    c.check(p.ok(), "rejected with " + p.verdict());
    for (auto& [name, v] : m->sem->constants) {
        const auto a = p.constant(name), b = q.constant(name);
        c.check(a && b && vals::ref_val(*a) == vals::ref_val(*b),
                name + " differs when written out:\n" + copy_text);
    }
    machine::entries(p, *m->sem, c); // instances: one for each list of widths
    auto pe = machine::lib_entries(p), qe = machine::lib_entries(q);
    for (auto* es : { &pe, &qe })
        std::sort(es->begin(), es->end(), [](auto& a, auto& b) { return a.label < b.label; });
    c.check(pe.size() == qe.size(), "number of instances differs");
    bit_manipulation::bms::Virtual_Machine own(&p.memory);
    const bool fresh = s.flag();
    auto& pv = fresh ? own : p.analyzed->get_vm();
    auto& qv = q.analyzed->get_vm();
    machine::compile(pv, pe, !fresh, c);
    machine::compile(qv, qe, true, c);
    bool ran = false;
    for (int i = 0; i < calls; ++i) {
        const std::size_t k = i < int(pe.size()) ? std::size_t(i) : s.draw32(std::uint32_t(pe.size()));
        if (!machine::compiled(pe[k]) || !machine::compiled(qe[k]))
            continue;
        const auto pt = machine::param_types(pe[k]), qt = machine::param_types(qe[k]);
        c.check(pt == qt && pe[k].label == qe[k].label, "parameters of " + pe[k].label + " differ");
        std::vector<ref::Val> args;
        for (auto& t : pt)
            args.push_back(vals::gen_val(s, t));
        auto* inst = m->sem->function(std::string(pe[k].fn->get_name()));
        for (auto* x : inst->instances)
            if (Writer::name(x) == pe[k].label)
                inst = x;
        try {
            machine::expected(*m, inst, args); // terminates
        } catch (const ref::Unspecified&) {
            continue;
        }
        const auto a = machine::run(pv, pe[k], args, c), b = machine::run(qv, qe[k], args, c);
        c.check(a.value == b.value && a.error == b.error,
                pe[k].label + machine::show_args(args) + " yields " + a.str() + ", but " + b.str()
                    + " when written out:\n" + copy_text);
        c.label(a.value ? "value" : a.error);
        ran |= pe[k].label != std::string(pe[k].fn->get_name());
    }
    c.label("instances " + std::to_string(std::min(m->sem->instances_made, 9)));
    if (ran)
        c.nontrivial(prog::key(m->tree));
}

gen::Prog_Options options(Src& s)
{
    gen::Prog_Options o;
    o.generic_percent = 85;
    o.generic_call_percent = 60;
    o.runtime_errors = s.chance(40);
    o.min_functions = 3;
    o.functions = 5;
    o.size = 40 + s.upto(200);
    o.constants = s.upto(3);
    return o;
}
void programs(Src& s, Ctx& c) { judge(s, c, prog::plain(prog::gen_tree(s, options(s), 0)), 10); }
void edited(Src& s, Ctx& c) { judge(s, c, prog::plain(prog::gen_tree(s, options(s), 1)), 8); }

// A function that calls f at the given widths; widths that are missing are drawn.
template <class F, class Draw>
std::string caller(const std::string& name, const F& f, std::map<std::string, int>& widths, Draw draw, bool direct)
{
    std::string params, args;
    for (std::size_t k = 0; k < f.params.size(); ++k) {
        const auto& t2 = f.params[k].second;
        std::string ty = t2.k == 'B' ? "Bool" : t2.k == 'I' ? "Int" : "";
        if (t2.k == 'U') {
            int w = t2.w.off;
            if (!t2.w.base.empty()) {
                auto [it, fresh] = widths.try_emplace(t2.w.base, 0);
                if (fresh)
                    it->second = draw();
                w += it->second;
            }
            ty = "Uint(" + std::to_string(w) + ")";
        }
        params += (k ? ", a" : "a") + std::to_string(k) + ": " + ty;
        args += (k ? ", a" : "a") + std::to_string(k);
    }
    const std::string call = f.name + "(" + args + ")";
    std::string rt = f.ret.k == 'V' ? "Void" : f.ret.k == 'B' ? "Bool" : f.ret.k == 'I' ? "Int" : "";
    if (f.ret.k == 'U')
        rt = "Uint(" + std::to_string(f.ret.w.base.empty() ? f.ret.w.off : widths[f.ret.w.base] + f.ret.w.off) + ")";
    return "function " + name + "(" + params + ") -> " + rt + " {\n"
        + (direct || f.ret.k == 'V' ? "    return " + call + ";\n" : "    let x = " + call + ";\n    return x;\n")
        + "}\n";
}

// Several widths for each function, from constants and from functions.
void many_widths(Src& s, Ctx& c)
{
    auto o = options(s);
    o.min_functions = 1;
    o.functions = 1 + s.upto(2);
    o.static_asserts = false;
    o.requires_ = s.flag();
    o.size = 30 + s.upto(80);
    gen::Prog_Gen g(s, o);
    const auto t = g.program();
    std::string text = prog::plain(t);
    const int n = 2 + s.upto(4);
    std::map<std::string, std::map<std::string, int>> used; // the widths of the last call of each function
    for (int i = 0; i < n; ++i) {
        const auto& f = s.pick(g.functions);
        std::map<std::string, int> widths;
        if (used.count(f.name) && s.chance(60)) {
            widths = used[f.name]; // again, but for one of them
            if (!widths.empty() && s.chance(90))
                std::next(widths.begin(), s.upto(int(widths.size()) - 1))->second = 1 + s.upto(126);
        }
        const std::string d = caller(
            "g" + std::to_string(i), f, widths,
            [&] { return s.chance(60) ? s.pick(std::vector<int> { 8, 1, 32, 127, 128 }) : 1 + s.upto(127); },
            s.flag());
        used[f.name] = widths;
        text = s.chance(30) ? d + text : text + d;
    }
    judge(s, c, text, 12);
}


// Every bit-generic function instantiated from outside, against a program that calls each at these widths.
void from_outside(Src& s, Ctx& c)
{
    auto o = options(s);
    o.min_functions = 1;
    o.functions = 1 + s.upto(3);
    o.static_asserts = s.chance(20);
    o.size = 30 + s.upto(100);
    gen::Prog_Gen g(s, o);
    const auto t = g.program();
    const std::string text = prog::plain(t);
    std::string with_callers;
    std::vector<int> ws;
    const bool same = s.flag();
    for (int i = 0; i < 12; ++i)
        ws.push_back(same && i ? ws[0] : s.chance(60) ? s.pick(std::vector<int> { 8, 1, 32, 64, 128 }) : 1 + s.upto(127));
    // Constants cannot be used in functions before them, so each caller stands directly before its function.
    std::map<std::string, std::string> callers;
    int k = 0;
    bool generic = false;
    for (auto& f : g.functions) {
        std::map<std::string, int> widths;
        std::size_t n = 0;
        const auto d = caller("g_caller_" + std::to_string(k++), f, widths, [&] { return ws[n++]; }, true);
        if (n == 0)
            continue;
        callers[f.name] = d;
        generic = true;
    }
    for (auto& d : t->kids) {
        if (d->kind == "Function" && callers.count(d->text))
            with_callers += callers[d->text];
        auto one = ref::node("Program", "");
        one->kids = { d };
        with_callers += prog::plain(one);
    }
    std::string log = "at widths";
    for (int w : ws)
        log += " " + std::to_string(w);
    c.show(log + "\n" + text + "\nwith callers:\n" + with_callers);
    std::optional<prog::Meaning> m;
    try {
        m.emplace(with_callers);
    } catch (const ref::Unspecified&) {
        c.discard();
    }
    front::Program q(with_callers);
    front::Program p(text, front::Stage::parse);
    std::vector<std::pmr::vector<int>> keep;
    {
        auto note = [&](auto&& r) {
            if (!r) {
                p.failed_at = front::Stage::analyze;
                p.analysis_error = r.error();
            }
            return r.has_value();
        };
        namespace bms = bit_manipulation::bms;
        const bms::Widths w = same ? bms::Widths(ws[0]) : bms::Widths(std::span<const int>(ws));
        std::pmr::monotonic_buffer_resource scratch;
        note(bms::resolve_annotations(*p.analyzed, *p.parsed)) && note(bms::analyze_name_lookup(*p.analyzed, &scratch))
            && note(bms::instantiate_all(*p.analyzed, &scratch, w))
            && (!s.chance(30) || note(bms::instantiate_all(*p.analyzed, &scratch, w))) // nothing new
            && note(bms::analyze_semantics(*p.analyzed, &scratch));
    }
    c.check(p.ok() == q.ok(), "verdict is " + p.verdict() + ", but " + q.verdict() + " with callers");
    c.check(q.ok() == m->sem->ok(), "with callers, the verdict is " + q.verdict() + ", expected " + m->codes());
    c.label(p.ok() ? "accepted" : "rejected");
    if (!p.ok()) {
        if (generic)
            c.nontrivial(log + prog::key(t));
        return;
    }
    auto pe = machine::lib_entries(p);
    auto qe = machine::entries(q, *m->sem, c);
    auto qf = machine::lib_entries(q);
    machine::compile(p.analyzed->get_vm(), pe, true, c);
    machine::compile(q.analyzed->get_vm(), qf, true, c);
    std::map<std::string, machine::Entry*> by_name;
    for (auto& e : pe)
        c.check(by_name.emplace(e.label, &e).second, e.label + " exists twice");
    std::size_t expected = 0;
    for (auto& f : qf)
        expected += !std::string(f.fn->get_name()).starts_with("g_caller_");
    c.check(expected == pe.size(), "the number of functions and instances is " + std::to_string(pe.size()) + ", not "
                + std::to_string(expected));
    for (auto& [name, v] : m->sem->constants) {
        const auto a = p.constant(name);
        c.check(a && vals::ref_val(*a) == v, name + " has the wrong value");
    }
    for (auto& f : qf) {
        if (std::string(f.fn->get_name()).starts_with("g_caller_"))
            continue;
        const auto it = by_name.find(f.label);
        c.check(it != by_name.end(), f.label + " is missing");
        auto& e = *it->second;
        const auto types = machine::param_types(f);
        c.check(types == machine::param_types(e), "the parameter types of " + f.label + " differ");
        c.check(machine::compiled(e) == machine::compiled(f), "only one of both can be compiled: " + f.label);
        if (!machine::compiled(e))
            continue;
        ref::Semantics::Inst* meaning = nullptr;
        for (auto& x : qe)
            if (x.node == f.node)
                meaning = x.meaning;
        for (int i = 0; i < 3; ++i) {
            std::vector<ref::Val> args;
            for (auto& ty : types)
                args.push_back(vals::gen_val(s, ty));
            try {
                machine::expected(*m, meaning, args);
            } catch (const ref::Unspecified&) {
                continue;
            }
            const auto a = machine::run(p.analyzed->get_vm(), e, args, c), b = machine::run(q.analyzed->get_vm(), f, args, c);
            c.check(a.value == b.value && a.error == b.error,
                    f.label + machine::show_args(args) + " yields " + a.str() + ", but " + b.str() + " with callers");
        }
    }
    if (generic)
        c.nontrivial(log + prog::key(t));
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C11";
    p.rule = "Generated programs in which most functions are bit-generic (one to four widths, derived "
             "widths, requires-clauses, static assertions and constants over the widths, calls of "
             "other bit-generic functions, forward references), some with one edit or with "
             "added callers at two to six sets of widths. Each is compared with the program in which "
             "every instance is written out as a function of its own: verdict, constants, set of "
             "instances, and value or error of calls of every instance on random arguments. "
             "Also, all bit-generic functions instantiated from outside (instantiate_all, one or several "
             "widths) against the program in which each is called at these widths. "
             "Non-trivial: an instance was run; distinct by syntax tree.";
    p.targets = { { "programs", programs, 4000, 100000 },
                  { "edited", edited, 2500, 80000 },
                  { "many_widths", many_widths, 4000, 100000 },
                  { "from outside", from_outside, 3000, 100000 } };
    return p;
}
