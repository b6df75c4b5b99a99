// Compiles the functions of an analyzed program into a virtual machine and runs them.
#ifndef VERIF_MACHINE_HPP
#define VERIF_MACHINE_HPP
#include "bms/vm/codegen.hpp"
#include "prog.hpp"

namespace machine {
namespace bm = bit_manipulation;
namespace bms = bit_manipulation::bms;
namespace ast = bms::ast;

struct Entry {
    ast::Some_Node* node;
    ast::Function* fn;
    ref::Semantics::Inst* meaning;
    std::string label;
};

/// Every concrete function (and instance) of a program that was accepted.
inline std::vector<Entry> entries(front::Program& p, ref::Semantics& sem, pbt::Ctx& c)
{
    std::vector<Entry> r;
    auto& root = bm::get<ast::Program>(*p.analyzed->get_root());
    for (ast::Some_Node* n : root.get_children()) {
        auto* f = bm::get_if<ast::Function>(n);
        if (!f)
            continue;
        auto* m = sem.function(std::string(f->get_name()));
        if (!m)
            throw std::logic_error("no reference function");
        c.check(f->is_generic == m->generic,
                std::string(f->get_name()) + (f->is_generic ? " is" : " is not") + " treated as bit-generic");
        if (!f->is_generic) {
            r.push_back({ n, f, m, std::string(f->get_name()) });
            continue;
        }
        std::set<std::vector<int>> seen;
        for (auto& i : f->instances) {
            const std::vector<int> w(i.widths.begin(), i.widths.end());
            std::string label = std::string(f->get_name()) + "<";
            for (int x : w)
                label += std::to_string(x) + ",";
            label.back() = '>';
            c.check(seen.insert(w).second, label + " is instantiated twice");
            ref::Semantics::Inst* found = nullptr;
            for (auto* x : m->instances)
                if (x->widths == w)
                    found = x;
            c.check(found, label + " is instantiated but never called");
            r.push_back({ i.handle, &bm::get<ast::Function>(*i.handle), found, label });
        }
        for (auto* x : m->instances)
            c.check(seen.count(x->widths), std::string(f->get_name()) + " is called at widths without an instance");
    }
    return r;
}

/// The same without a reference; instances are ordered by their widths.
inline std::vector<Entry> lib_entries(front::Program& p)
{
    std::vector<Entry> r;
    auto& root = bm::get<ast::Program>(*p.analyzed->get_root());
    for (ast::Some_Node* n : root.get_children()) {
        auto* f = bm::get_if<ast::Function>(n);
        if (!f)
            continue;
        if (!f->is_generic) {
            r.push_back({ n, f, nullptr, std::string(f->get_name()) });
            continue;
        }
        std::map<std::vector<int>, ast::Some_Node*> sorted;
        for (auto& i : f->instances)
            sorted[{ i.widths.begin(), i.widths.end() }] = i.handle;
        for (auto& [w, h] : sorted) {
            std::string label = std::string(f->get_name());
            for (int x : w)
                label += "_" + std::to_string(x);
            r.push_back({ h, &bm::get<ast::Function>(*h), nullptr, label });
        }
    }
    return r;
}
inline bool compiled(const Entry& e) { return e.fn->vm_address != ast::Function::invalid_vm_address; }
inline std::vector<ref::Type> param_types(const Entry& e)
{
    std::vector<ref::Type> r;
    for (auto& q : e.fn->get_parameters())
        r.push_back(vals::ref_type(q.get_type().concrete_type().value()));
    return r;
}

/// Compiles everything that can be compiled (all but mutually recursive functions).
inline void compile(bms::Virtual_Machine& vm, const std::vector<Entry>& es, bool keep_existing, pbt::Ctx& c)
{
    std::vector<const Entry*> todo;
    for (auto& e : es) {
        if (!keep_existing)
            e.fn->vm_address = ast::Function::invalid_vm_address;
        if (e.fn->vm_address == ast::Function::invalid_vm_address)
            todo.push_back(&e);
    }
    for (bool progress = true; progress && !todo.empty();) {
        progress = false;
        for (std::size_t i = 0; i < todo.size();) {
            auto& e = *todo[i];
            const auto before = vm.instruction_count();
            e.fn->vm_address = before;
            auto r = bms::generate_code(vm.instructions(), e.node, *e.fn);
            if (r) {
                todo.erase(todo.begin() + long(i));
                progress = true;
                continue;
            }
            e.fn->vm_address = ast::Function::invalid_vm_address;
            c.check(vm.instruction_count() == before,
                    "code generation of " + e.label + " fails, but leaves instructions behind");
            c.check(r.error().code() == bms::Analysis_Error_Code::codegen_call_to_unanalyzed,
                    "code generation of " + e.label + " fails with "
                        + std::string(bms::analysis_error_code_name(r.error().code())));
            ++i;
        }
    }
    // what is left calls itself through others
}

struct Outcome {
    std::optional<ref::Val> value;
    std::string error; // evaluation_error:<code> or execution_error:<code>
    std::optional<std::size_t> pos;
    std::string str() const
    {
        return value ? value->str() : error + (pos ? " at offset " + std::to_string(*pos) : " nowhere");
    }
};

inline Outcome run(bms::Virtual_Machine& vm, const Entry& e, const std::vector<ref::Val>& args, pbt::Ctx& c)
{
    vm.reset();
    for (auto& a : args)
        vm.push(vals::lib_val(a));
    vm.jump_to(e.fn->vm_address);
    for (long i = 0;; ++i) {
        if (i > 1000000)
            c.fail(e.label + " does not terminate");
        auto r = vm.cycle();
        if (r)
            continue;
        const auto& x = r.error();
        if (x.code == bms::Execution_Error_Code::pop_call) {
            c.check(vm.stack_size() == 1, e.label + " leaves " + std::to_string(vm.stack_size()) + " values");
            const auto v = vm.pop();
            return { vals::ref_val(v), "", {} };
        }
        Outcome o;
        o.error = x.code == bms::Execution_Error_Code::evaluation
            ? "evaluation_error:" + std::string(bms::evaluation_error_code_name(x.evaluation_error))
            : "execution_error:" + std::string(bms::execution_error_code_name(x.code));
        if (x.debug_info.pos)
            o.pos = x.debug_info.pos->begin;
        return o;
    }
}

/// What the program means. Throws Unspecified.
inline Outcome expected(const prog::Meaning& m, ref::Semantics::Inst* f, const std::vector<ref::Val>& args)
{
    m.sem->budget = 20000;
    try {
        return { m.sem->call(f, args), "", {} };
    } catch (const ref::Run_Error& e) {
        return { {}, e.code, m.toks.at(e.tok).begin };
    }
}
inline bool same(const Outcome& a, const Outcome& b)
{
    if (a.value || b.value)
        return a.value && b.value && *a.value == *b.value;
    return a.error == b.error && a.pos == b.pos;
}

inline std::vector<ref::Val> gen_args(pbt::Src& s, ref::Semantics& sem, ref::Semantics::Inst* f)
{
    std::vector<ref::Val> r;
    const auto n = ref::Semantics::params(f).size();
    for (std::size_t i = 0; i < n; ++i)
        r.push_back(vals::gen_val(s, sem.param_type(f, i)));
    return r;
}
inline std::string show_args(const std::vector<ref::Val>& a)
{
    std::string r = "(";
    for (auto& x : a)
        r += (r.size() > 1 ? ", " : "") + x.str();
    return r + ")";
}

} // namespace machine
#endif
