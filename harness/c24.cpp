#include <algorithm>
#include <deque>
#include <sstream>

#include "bms/vm/vm.hpp"
#include "vals.hpp"

using pbt::Ctx;
using pbt::Src;
using namespace vals;

namespace {

namespace ins = bms::ins;
using bms::Instruction;

const char keys[5] = {};

struct Op {
    enum Kind {
        load, store, push, pop, jump, jump_if, symbolic_break, symbolic_continue, ret, missing_return,
        convert, unary, binary, call, check
    } kind;
    int n = 0; // key, offset, address
    bool expected = false;
    ref::Val v {};
    ref::Type t {};
    ref::Op o {};
    char u = '+';

    std::string str() const
    {
        const auto N = std::to_string(n);
        switch (kind) {
        case load: return "load " + N;
        case store: return "store " + N;
        case push: return "push " + v.str();
        case pop: return "pop";
        case jump: return "jump " + N;
        case jump_if: return std::string("jump if ") + (expected ? "true " : "false ") + N;
        case symbolic_break: return "break";
        case symbolic_continue: return "continue";
        case ret: return "return";
        case missing_return: return "missing return";
        case convert: return "convert " + t.str();
        case unary: return std::string("unary ") + u;
        case binary: return "binary " + ref::op_texts()[int(o)];
        case call: return "call " + N;
        case check: return "assert";
        }
        return "?";
    }

    Instruction lib(std::size_t index) const
    {
        const bit_manipulation::Source_Position pos { { index, 2 * index, 3 * index }, "f.bms" };
        const ins::detail::Base base { bms::Debug_Info(bms::Construct::literal, pos, "d") };
        switch (kind) {
        case load: return ins::Load { base, keys + n };
        case store: return ins::Store { base, keys + n };
        case push: return ins::Push { base, lib_val(v) };
        case pop: return ins::Pop { base };
        case jump: return ins::Relative_Jump { base, n };
        case jump_if: return ins::Relative_Jump_If { base, n, expected };
        case symbolic_break: return ins::Break { base };
        case symbolic_continue: return ins::Continue { base };
        case ret: return ins::Return { base };
        case missing_return: return ins::Missing_Return { base };
        case convert: return ins::Convert { base, lib_type(t) };
        case unary: return ins::Unary_Operate { base, lib_unary(u) };
        case binary: return ins::Binary_Operate { base, lib_op(o) };
        case call: return ins::Call { base, bit_manipulation::Size(n) };
        default: return ins::Builtin_Call { base, bms::Builtin_Function::assert };
        }
    }
};

/// What the instructions are documented to do.
struct Model {
    std::deque<Op> program;
    std::vector<ref::Val> stack;
    struct Frame {
        std::size_t back = 0;
        std::map<int, ref::Val> vars;
    };
    std::vector<Frame> frames { 1 };
    std::size_t at = 0;
    struct Compared {
        ref::Val l, r;
        ref::Op o;
    };
    std::optional<Compared> compared; // by the instruction executed last
    bool compared_known = true;
    bool stale = false; // moved away between a comparison and its assertion

    void reset()
    {
        stack.clear();
        frames.assign(1, {});
        at = 0;
        compared.reset();
        compared_known = true;
        stale = false;
    }

    /// Empty upon success, otherwise the error; "?" if the documentation leaves it open.
    std::string cycle()
    {
        const Op& i = program.at(at);
        const auto before = at;
        if (i.kind != Op::check) {
            compared.reset();
            compared_known = true;
        }
        auto take = [&] {
            ref::Val v = stack.back();
            stack.pop_back();
            return v;
        };
        auto inside = [&](long long target) { return target >= 0 && target < (long long)program.size(); };
        std::size_t next = at + 1;
        switch (i.kind) {
        case Op::load: {
            const auto v = frames.back().vars.find(i.n);
            if (v == frames.back().vars.end())
                return "load_uninitialized";
            stack.push_back(v->second);
            break;
        }
        case Op::store:
            if (stack.empty())
                return "pop";
            frames.back().vars[i.n] = take();
            break;
        case Op::push: stack.push_back(i.v); break;
        case Op::pop:
            if (stack.empty())
                return "pop";
            stack.pop_back();
            break;
        case Op::jump:
        case Op::jump_if: {
            const long long target = (long long)at + i.n + 1;
            if (i.kind == Op::jump_if) {
                if (stack.empty())
                    return "pop";
                const auto v = take();
                if (v.t != ref::BOOL)
                    return "jump_if_not_bool";
                if ((v.v != 0) != i.expected) {
                    if (!inside(target))
                        return "?";
                    break;
                }
            }
            if (!inside(target))
                return "jump_out_of_program";
            next = std::size_t(target);
            break;
        }
        case Op::symbolic_break:
        case Op::symbolic_continue: return "symbolic_jump";
        case Op::missing_return: return "missing_return";
        case Op::ret:
            if (frames.size() == 1)
                return "pop_call";
            at = frames.back().back;
            frames.pop_back();
            return "";
        case Op::call:
            if (!inside(i.n))
                return "call_out_of_program";
            frames.push_back({ at + 1, {} });
            next = std::size_t(i.n);
            break;
        case Op::convert:
        case Op::unary: {
            if (stack.empty())
                return "pop";
            const auto v = take();
            const auto r = i.kind == Op::unary ? ref::unary(i.u, v) : ref::convert(v, i.t);
            if (!r.v)
                return "evaluation:" + r.err;
            stack.push_back(*r.v);
            break;
        }
        case Op::binary: {
            if (stack.size() < 2)
                return "pop";
            const auto y = take(), x = take();
            const auto r = ref::binary(x, i.o, y);
            if (!r.v)
                return "evaluation:" + r.err;
            stack.push_back(*r.v);
            compared = Compared { x, y, i.o };
            break;
        }
        case Op::check: {
            if (stack.empty())
                return "pop";
            const auto v = take();
            if (v.t != ref::BOOL)
                return "evaluation:type_error";
            if (v.v == 0)
                return "evaluation:assertion_fail";
            compared.reset();
            compared_known = true;
            stale = false;
            stack.push_back({ ref::VOID, 0 });
            break;
        }
        }
        at = next;
        return at == before ? "infinite_loop" : "";
    }
};

std::vector<Op> gen_section(Src& s, const std::vector<int>& starts)
{
    std::vector<Op> r;
    const int n = 1 + s.upto(14);
    std::vector<ref::Type> stack; // the types, if executed in order
    std::map<int, ref::Type> vars;
    for (int k = 0; k < n; ++k) {
        Op o {};
        auto top = [&](std::size_t d) { return stack.size() > d ? stack[stack.size() - 1 - d] : ref::VOID; };
        auto drop = [&] {
            if (!stack.empty())
                stack.pop_back();
        };
        int kind = s.weighted({ 12, 7, 8, 4, 2, 3, 4, 10, 4, 5, 2, 1 });
        if (s.chance(95)) { // most likely executable
            const std::size_t needs = kind == 7 ? 2 : kind == 1 || kind == 3 || kind == 6 || kind == 9 || kind == 10;
            if (stack.size() < needs || (kind == 2 && vars.empty()) || (kind == 3 && top(0).k != 'B'))
                kind = 0;
        }
        switch (kind) {
        default:
        case 0: {
            auto [a, b] = gen_pair(s);
            if (stack.empty() || s.chance(40))
                b = gen_type(s);
            else if (s.chance(80))
                b = s.chance(25) && top(0).k == 'U' ? ref::INT : top(0);
            o = { Op::push };
            o.v = gen_val(s, b, top(0).w);
            stack.push_back(b);
            break;
        }
        case 1:
            o = { Op::store, s.upto(4) };
            vars[o.n] = top(0);
            drop();
            break;
        case 2:
            o = { Op::load, s.upto(4) };
            if (!vars.empty() && s.chance(90))
                o.n = std::next(vars.begin(), s.upto(int(vars.size()) - 1))->first;
            stack.push_back(vars.contains(o.n) ? vars[o.n] : ref::INT);
            break;
        case 3:
            o = { s.chance(15) ? Op::pop : Op::check };
            drop();
            if (o.kind == Op::check)
                stack.push_back(ref::VOID);
            break;
        case 4: o = { Op::jump, s.chance(85) ? s.upto(2) : int(s.range(-12, 12)) }; break;
        case 5:
            o = { Op::jump_if, s.chance(70) ? s.upto(4) : int(s.range(-12, 12)) };
            o.expected = s.flag();
            if (s.chance(50) && top(0).k != 'B') { // make it a condition
                Op p { Op::push };
                p.v = { ref::BOOL, s.flag() };
                r.push_back(p);
            }
            else
                drop();
            break;
        case 6: o = { Op::convert };
            o.t = s.chance(80) && top(0).k != 'I' ? top(0) : s.chance(60) ? ref::UINT(1 + s.upto(127)) : gen_type(s);
            if (!stack.empty())
                stack.back() = o.t;
            break;
        case 7:
            o = { Op::binary };
            o.o = gen_op_for(s, top(1), top(0));
            if (auto t = ref::type_binary(top(1), o.o, top(0))) {
                drop();
                drop();
                stack.push_back(*t);
            }
            if (s.chance(40) && !stack.empty() && stack.back().k == 'B') {
                r.push_back(o);
                o = { Op::check };
                stack.back() = ref::VOID;
            }
            break;
        case 8:
            o = { Op::call, s.chance(90) ? s.pick(starts) : s.upto(70) };
            break;
        case 9:
            o = { Op::unary };
            o.u = s.pick_char("-~+!");
            for (int i = 0; i < 3 && !ref::type_unary(o.u, top(0)); ++i)
                o.u = s.pick_char("-~+!");
            break;
        case 10: o = { Op::pop }; drop(); break;
        case 11: o = { std::vector { Op::symbolic_break, Op::symbolic_continue, Op::missing_return, Op::ret }[s.draw32(4)] }; break;
        }
        r.push_back(o);
    }
    if (s.chance(90))
        r.push_back({ Op::ret });
    return r;
}

std::string error_text(const bms::Execution_Error& e)
{
    const auto name = std::string(bms::execution_error_code_name(e.code));
    if (e.code != bms::Execution_Error_Code::evaluation)
        return name;
    return name + ":" + std::string(bms::evaluation_error_code_name(e.evaluation_error));
}

void history(Src& s, Ctx& c)
{
    std::pmr::unsynchronized_pool_resource memory;
    bms::Virtual_Machine vm(&memory);
    Model m;
    std::string log;
    auto note = [&](const std::string& t) {
        log += t;
        c.show(log);
    };
    std::vector<int> starts { 0 };
    auto grow = [&] {
        const auto sections = 1 + s.upto(3);
        for (int k = 0; k < sections; ++k) {
            starts.push_back(int(m.program.size()));
            const auto ops = gen_section(s, starts);
            std::vector<Instruction> lib;
            std::string t;
            for (auto& o : ops) {
                t += std::to_string(m.program.size()) + ": " + o.str() + "\n";
                lib.push_back(o.lib(m.program.size()));
                m.program.push_back(o);
            }
            note(t);
            const auto at = vm.add_instructions(lib);
            c.check(at == m.program.size() - ops.size(), "add_instructions returns the wrong address");
            c.check(vm.instruction_count() == m.program.size(), "wrong number of instructions");
        }
    };
    grow();
    int budget = 5 + s.upto(120);
    if (s.chance(5)) {
        // A large stack, or a deep one of frames.
        for (int k = s.upto(300); k-- > 0;) {
            const auto v = gen_val(s, gen_type(s));
            vm.push(lib_val(v));
            m.stack.push_back(v);
        }
        note(std::to_string(m.stack.size()) + " outside pushes\n");
        m.compared_known = m.stack.empty() && m.compared_known;
    }
    if (s.chance(5)) {
        const auto a = m.program.size();
        const Op endless { Op::call, int(a) };
        note(std::to_string(a) + ": " + endless.str() + "\n");
        const std::vector<Instruction> lib { endless.lib(a) };
        vm.add_instructions(lib);
        m.program.push_back(endless);
        starts.push_back(int(a));
        budget += 300;
    }
    int executed = 0, calls = 0;
    unsigned kinds = 0;
    auto compare_stack = [&] {
        c.check(vm.stack_size() == m.stack.size(),
                "stack has " + std::to_string(vm.stack_size()) + " values, expected " + std::to_string(m.stack.size()));
    };
    auto drain = [&] {
        compare_stack();
        while (!m.stack.empty()) {
            const auto v = ref_val(vm.pop());
            c.check(v == m.stack.back(), "popped " + v.str() + ", expected " + m.stack.back().str());
            m.stack.pop_back();
        }
        compare_stack();
    };
    for (int i = 0; i < budget; ++i) {
        if (m.at >= m.program.size() || s.chance(6)) { // from outside
            switch (s.weighted({ 4, 4, 2, 2, 1, 1, 1 })) {
            case 0: {
                const auto a = s.chance(70) ? s.pick(starts) : s.upto(int(m.program.size()) - 1);
                note("jump to " + std::to_string(a) + "\n");
                vm.jump_to(std::size_t(a));
                m.at = std::size_t(a);
                m.compared_known = false;
                m.stale |= m.compared.has_value();
                break;
            }
            case 1: {
                const auto v = gen_val(s, gen_type(s));
                note("outside push " + v.str() + "\n");
                vm.push(lib_val(v));
                m.stack.push_back(v);
                m.compared_known = false;
                break;
            }
            case 2:
                if (!m.stack.empty()) {
                    note("outside pop\n");
                    const auto v = ref_val(vm.pop());
                    c.check(v == m.stack.back(), "popped " + v.str() + ", expected " + m.stack.back().str());
                    m.stack.pop_back();
                    m.compared_known = false;
                }
                break;
            case 3:
                note("drain\n");
                drain();
                m.compared_known = false;
                break;
            case 4:
                note("reset\n");
                vm.reset();
                m.reset();
                compare_stack();
                break;
            case 5:
                if (m.program.size() < 120)
                    grow();
                break;
            default:
                note("clear\n");
                vm.clear();
                m.reset();
                m.program.clear();
                starts = { 0 };
                c.check(vm.instruction_count() == 0, "instructions left after clear");
                compare_stack();
                grow();
            }
            continue;
        }
        const auto at = m.at;
        const Op op = m.program[at];
        const auto compared = m.compared;
        const bool compared_known = m.compared_known && !m.stale;
        note("@" + std::to_string(at) + " " + op.str() + "\n");
        const std::string want = m.cycle();
        const auto got = vm.cycle();
        ++executed;
        kinds |= 1u << op.kind;
        if (want == "?")
            return;
        const std::string have = got ? "" : error_text(got.error());
        c.check(have == want, "instruction " + std::to_string(at) + ", " + op.str() + ": "
                    + (have.empty() ? "success" : have) + ", expected " + (want.empty() ? "success" : want));
        c.label(want.empty() ? "ok: " + op.str().substr(0, op.str().find(' ')) : want);
        calls += op.kind == Op::call && want.empty();
        if (!want.empty()) {
            const auto& e = got.error();
            c.check(e.debug_info.pos && e.debug_info.pos->line == at && e.debug_info.pos->begin == 3 * at,
                    "the error is not attributed to instruction " + std::to_string(at));
            if (want == "evaluation:assertion_fail" && compared_known) {
                c.check(e.comparison_failure.has_value() == compared.has_value(),
                        compared ? "no comparison failure" : "unexpected comparison failure");
                if (compared)
                    c.check(ref_val(e.comparison_failure->left) == compared->l
                                && ref_val(e.comparison_failure->right) == compared->r
                                && e.comparison_failure->op == lib_op(compared->o),
                            "wrong comparison failure");
            }
            // Execution does not continue after an error.
            note("reset\n");
            vm.reset();
            m.reset();
            compare_stack();
            const auto a = s.chance(60) ? s.pick(starts) : s.upto(int(m.program.size()) - 1);
            note("jump to " + std::to_string(a) + "\n");
            vm.jump_to(std::size_t(a));
            m.at = std::size_t(a);
            m.compared_known = false;
            continue;
        }
        compare_stack();
    }
    drain();
    std::ostringstream text;
    bms::dump_program(text, vm.instructions());
    const auto lines = text.str();
    c.check(std::size_t(std::count(lines.begin(), lines.end(), '\n')) == m.program.size(),
            "the listing does not have one line per instruction");
    std::size_t begin = 0;
    for (auto& o : m.program) {
        const auto line = lines.substr(begin, lines.find('\n', begin) - begin);
        begin += line.size() + 1;
        std::string operand;
        switch (o.kind) {
        case Op::push: operand = o.v.t.k == 'V' || o.v.t.k == 'B' ? o.v.str() : o.v.v.str(); break;
        case Op::jump:
        case Op::jump_if: operand = (o.n >= 0 ? "+" : "") + std::to_string(o.n); break;
        case Op::convert: operand = o.t.str(); break;
        case Op::unary: operand = std::string(1, o.u); break;
        case Op::binary: operand = ref::op_texts()[int(o.o)]; break;
        case Op::call: operand = std::to_string(o.n); break;
        case Op::check: operand = "assert"; break;
        default: break;
        }
        c.check(operand.empty() || line.ends_with(" " + operand),
                "listing of '" + o.str() + "' is '" + line + "'");
    }
    if (executed >= 10 && __builtin_popcount(kinds) >= 4)
        c.nontrivial(log);
    if (calls)
        c.label("with calls");
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C24";
    p.rule = "Random instruction sequences (sections of up to 15 instructions, mostly type-correct for "
             "the values on the stack, calling and jumping among each other, in part with wrong "
             "targets, types or missing operands) executed cycle by cycle, interleaved with operations "
             "from outside (push, pop, jump, reset, clear, adding instructions), against a reference "
             "machine with arbitrary-precision values; compared after every cycle: success or the "
             "error, its instruction, the failed comparison, the stack depth, and all values popped. "
             "Non-trivial: at least ten cycles of four kinds of instruction; distinct by history.";
    p.assumptions = { "execution is not continued after an error without a reset, nor past the last instruction",
                      "a conditional jump that is not taken and whose target is outside the program is left open" };
    p.targets = { { "histories", history, 60000, 3000000 } };
    return p;
}
