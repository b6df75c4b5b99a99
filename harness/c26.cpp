// C26: programs as objects: stages, diagnostics consumers, introspection, moves and memory.
#include <sstream>

#include "annot.hpp"
#include "bms/basic_diagnostic_consumer.hpp"
#include "bms/instantiate.hpp"
#include "bms/vm/instructions.hpp"
#include "lib_tree.hpp"
#include "machine.hpp"
#include "pbt.hpp"
#include "prog.hpp"

using pbt::Ctx;
using pbt::Src;

namespace {

namespace bm = bit_manipulation;
namespace bms = bit_manipulation::bms;
namespace ast = bms::ast;

// Every allocation must come back, to where it came from.
struct Tracking final : std::pmr::memory_resource {
    std::map<void*, std::pair<std::size_t, std::size_t>> live;
    std::string wrong;
    void* do_allocate(std::size_t n, std::size_t align) override
    {
        void* p = ::operator new(n, std::align_val_t(align));
        live[p] = { n, align };
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t align) override
    {
        const auto it = live.find(p);
        if (it == live.end()) {
            wrong = "memory is returned to a memory resource that it does not come from";
            return; // leaked; the case fails anyway
        }
        if (it->second != std::pair { n, align })
            wrong = "memory is returned with the wrong size or alignment";
        live.erase(it);
        ::operator delete(p, std::align_val_t(align));
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};

// A program text; discards those whose constant evaluation might not end.
std::string program_text(Src& s, Ctx& c)
{
    std::string r;
    switch (s.weighted({ 6, 4, 3, 2 })) {
    case 0: {
        gen::Prog_Options o;
        o.size = 15 + s.upto(80);
        o.functions = 1 + s.upto(3);
        o.constants = s.upto(4);
        r = prog::plain(prog::gen_tree(s, o, 0));
        break;
    }
    case 1: {
        gen::Prog_Options o;
        o.size = 15 + s.upto(60);
        o.functions = 1 + s.upto(2);
        o.constants = s.upto(3);
        r = prog::plain(prog::gen_tree(s, o, 1 + s.upto(1)));
        break;
    }
    case 2: r = annot::program(s); break;
    case 3: r = annot::single(s); break;
    }
    try {
        prog::Meaning m(r);
    } catch (const ref::Unspecified&) {
        c.discard();
    }
    // Faults of the earlier stages.
    if (s.chance(15)) {
        const auto at = std::size_t(s.upto(int(r.size())));
        r.insert(at, std::string(s.pick({ "#", "/*", "0x", "}", ";", "let", "(", "\"", "1x", "function" })));
        const auto lex = ref::lex(r);
        bool ok = lex.ok;
        if (ok) {
            ref::Parser p(lex.tokens);
            try {
                p.program();
            } catch (const ref::Syntax_Error&) {
                ok = false;
            }
        }
        if (ok)
            c.discard(); // by chance still a program, which was not looked at
    }
    return r;
}

std::string place(const bm::Local_Source_Position& p)
{
    return std::to_string(p.line) + ":" + std::to_string(p.column) + "@" + std::to_string(p.begin);
}
std::string print(const bms::Debug_Info& d)
{
    return std::to_string(int(d.construct)) + " " + std::string(d.name)
        + (d.pos ? " " + place(*d.pos) + " in " + std::string(d.pos->file_name) : "");
}
std::string print(const bms::Tokenize_Error& e) { return std::to_string(int(e.code)) + " " + place(e.pos); }
std::string print(const bms::Parse_Error& e)
{
    std::string r = std::to_string(int(e.fail_rule)) + " " + std::to_string(int(e.fail_token.type)) + " "
        + place(e.fail_token.pos) + "+" + std::to_string(e.fail_token.pos.length);
    for (auto t : e.expected_tokens)
        r += " " + std::to_string(int(t));
    return r;
}
std::string print(const bms::Analysis_Error& e)
{
    std::string r(bms::analysis_error_code_name(e.code()));
    if (e.code() == bms::Analysis_Error_Code::evaluation_error)
        r += " " + std::to_string(int(e.evaluation_error()));
    if (e.code() == bms::Analysis_Error_Code::execution_error)
        r += " " + std::to_string(int(e.execution_error()));
    r += "; fail " + print(e.fail());
    if (e.cause())
        r += "; cause " + print(*e.cause());
    if (auto f = e.comparison_failure())
        r += "; comparison " + front::show(f->left) + " " + std::to_string(int(f->op)) + " " + front::show(f->right);
    if (auto w = e.wrong_argument())
        r += "; argument " + std::string(w->name) + " " + std::to_string(int(w->expected)) + " "
            + std::to_string(int(w->actual)) + " " + std::string(w->value_constraints);
    return r;
}

std::string print(const bms::Parsed_Program& p, std::span<const bms::Token> tokens)
{
    front::Tree_Builder b(p, tokens);
    return ref::dump(b.build(p.get_root_handle()), true) + "\n" + std::to_string(p.get_node_count()) + " nodes\n"
        + std::string(p.get_source());
}

// What can be seen of an analyzed program.
std::string print(bms::Analyzed_Program& p)
{
    std::string r = std::string(p.get_file_name()) + "\n" + std::string(p.get_source()) + "\n";
    auto& root = bm::get<ast::Program>(*p.get_root());
    for (ast::Some_Node* n : root.get_children()) {
        if (auto* f = bm::get_if<ast::Function>(n)) {
            r += "function " + std::string(f->get_name()) + (f->is_generic ? " generic" : "") + " "
                + std::to_string(f->get_parameter_count()) + " " + std::to_string(int(f->analysis_so_far)) + " "
                + std::to_string(f->vm_address) + "\n";
            for (auto& i : f->instances) {
                r += "  instance";
                for (int w : i.widths)
                    r += " " + std::to_string(w);
                auto& g = bm::get<ast::Function>(*i.handle);
                r += " " + std::to_string(int(g.analysis_so_far)) + " " + std::to_string(g.vm_address) + "\n";
            }
        }
        else if (auto* k = bm::get_if<ast::Const>(n)) {
            r += "const " + std::string(k->get_name()) + " ";
            if (k->const_value() && k->const_value()->is_known())
                r += front::show(k->const_value()->concrete_value());
            r += "\n";
        }
        else
            r += "other\n";
    }
    return r + std::to_string(p.get_vm().instruction_count());
}

// Finding things by their names, against the reference tree.
void introspect(const bms::Analyzed_Program& p, const ref::Node& tree, Src& s, Ctx& c)
{
    std::map<std::string, const ref::Node*> globals;
    std::set<std::string> twice;
    std::vector<std::string> names { "", "nowhere", "assert", "f0x", "Uint", "c", "N" };
    std::function<void(const ref::Node&)> all = [&](const ref::Node& n) {
        if (n.text.size() < 30)
            names.push_back(n.text);
        for (auto& k : n.kids)
            if (k)
                all(*k);
    };
    for (auto& d : tree.kids) {
        if ((d->kind == "Function" || d->kind == "Const") && !globals.emplace(d->text, d.get()).second)
            twice.insert(d->text);
        all(*d);
    }
    std::vector<std::string> asked;
    for (auto& [n, d] : globals)
        asked.push_back(n);
    for (int i = 0; i < 6; ++i)
        asked.push_back(s.pick(names));
    std::erase_if(asked, [](auto& n) { return n.size() > 1000; });
    using bms::Introspection_Error_Code;
    auto outcome = [](auto& r) {
        return r ? "found" : r.error() == Introspection_Error_Code::nothing_found ? "nothing_found" : "wrong_entity";
    };
    // The caller may keep all names in the same memory, one after another.
    const bool same_memory = s.flag();
    std::vector<char> shared(1000);
    for (auto& n : asked) {
        if (twice.count(n))
            continue;
        // exactly sized, and not the text of the program itself
        std::vector<char> exact(n.begin(), n.end());
        std::copy(n.begin(), n.end(), shared.begin());
        const std::string_view name(same_memory ? shared.data() : exact.data(), n.size());
        const auto it = globals.find(n);
        const auto entity = p.find_entity(name);
        const auto fn = p.find_global_function_node(name), kn = p.find_global_constant_node(name);
        const auto f = p.find_global_function(name);
        const auto k = p.find_global_constant(name);
        const std::string kind = it == globals.end() ? "" : it->second->kind;
        auto expect = [&](const char* what, std::string got, bool found) {
            const std::string e = found ? "found" : kind.empty() ? "nothing_found" : "wrong_entity";
            c.check(got == e, std::string(what) + "(\"" + n + "\") is " + got + ", not " + e);
        };
        expect("find_entity", outcome(entity), !kind.empty());
        expect("find_global_function_node", outcome(fn), kind == "Function");
        expect("find_global_constant_node", outcome(kn), kind == "Const");
        expect("find_global_function", outcome(f), kind == "Function");
        expect("find_global_constant", outcome(k), kind == "Const");
        if (kind == "Function") {
            c.check(*fn == *entity && bm::get_if<ast::Function>(*entity) == *f, "different nodes for one function");
            c.check((*f)->get_name() == name, "a function of another name is found");
        }
        else if (kind == "Const") {
            c.check(*kn == *entity && bm::get_if<ast::Const>(*entity) == *k, "different nodes for one constant");
            c.check((*k)->get_name() == name, "a constant of another name is found");
        }
        c.label(kind.empty() ? "asked for nothing" : "asked for " + kind);
    }
}

void stages(Src& s, Ctx& c)
{
    const auto text = program_text(s, c);
    c.show(text);
    const std::string file_name(s.pick({ "file.bms", "", "some/where/x.bms", "a b" }));
    Tracking memory, other;
    {
        std::vector<char> exact(text.begin(), text.end());
        const std::string_view source(exact.data(), exact.size());
        bms::Basic_Diagnostic_Consumer seen;
        // A consumer that has seen errors before.
        const std::size_t before = s.chance(20) ? 1 + std::size_t(s.upto(1)) : 0;
        for (std::size_t i = 0; i < before; ++i) {
            if (i == 0)
                seen(bms::Tokenize_Error { bms::Tokenize_Error_Code::illegal_character, {} });
            else
                seen(bms::Parse_Error {});
        }
        const auto old_t = seen.tokenize_errors.size(), old_p = seen.parse_errors.size();
        auto count = [&](std::size_t t, std::size_t p, std::size_t a) {
            c.check(seen.tokenize_errors.size() == old_t + t && seen.parse_errors.size() == old_p + p
                        && seen.analysis_errors.size() == a,
                    "the diagnostics consumer received other errors than the one expected");
            c.check(seen.error_count() == before + t + p + a, "error_count is wrong");
            c.check(seen.ok() == (before + t + p + a == 0), "ok() is wrong");
        };
        auto finish = [&](const char* at) {
            seen.clear();
            c.check(seen.error_count() == 0 && seen.ok(), "errors remain after clear");
            c.label(std::string("ends: ") + at);
            c.nontrivial(text);
        };

        std::pmr::vector<bms::Token> tokens(&memory), tokens2(&other);
        const auto tr = bms::tokenize(tokens, source);
        const bool tb = bms::tokenize(tokens2, source, seen);
        c.check(tb == tr.has_value(), "tokenize with a diagnostics consumer has another result");
        count(!tb, 0, 0);
        if (!tr) {
            c.check(print(tr.error()) == print(seen.tokenize_errors.back()), "another tokenize error is reported");
            return finish("tokenize");
        }
        c.check(tokens == tokens2, "tokenize with a diagnostics consumer yields other tokens");
        bms::Parsed_Program parsed(source, &memory), parsed2(source, &other);
        c.check(parsed.get_memory() == &memory, "a parsed program does not know its memory resource");
        const auto pr = bms::parse(parsed, tokens);
        const bool pb = bms::parse(parsed2, tokens2, seen);
        c.check(pb == pr.has_value(), "parse with a diagnostics consumer has another result");
        count(0, !pb, 0);
        if (!pr) {
            c.check(print(pr.error()) == print(seen.parse_errors.back()), "another parse error is reported");
            return finish("parse");
        }
        const auto tree = print(parsed, tokens);
        c.check(tree == print(parsed2, tokens2), "parse with a diagnostics consumer yields another tree");
        const auto ref_lex = ref::lex(text);
        ref::Parser ref_parser(ref_lex.tokens);
        const auto ref_tree = ref_parser.program();

        // The same parsed program is analyzed several times, in different ways.
        std::vector<std::string> results;
        const bool share = s.flag();
        for (int way = 0; way < 4; ++way) {
            bms::Analyzed_Program a(way == 3 ? parsed2 : parsed, file_name, share ? &memory : &other);
            c.check(a.get_file_name() == file_name, "get_file_name is wrong");
            c.check(a.get_source() == text, "get_source is wrong");
            if (way == 0)
                introspect(a, *ref_tree, s, c);
            std::optional<bms::Analysis_Error> error;
            {
                std::pmr::monotonic_buffer_resource scratch(&memory);
                auto note = [&](const bm::Result<void, bms::Analysis_Error>& r) {
                    if (!r)
                        error = r.error();
                    return r.has_value();
                };
                switch (way) {
                case 0:
                case 3: note(bms::analyze(a, way == 3 ? parsed2 : parsed, &scratch)); break;
                case 1: {
                    const bool ok = bms::analyze(a, parsed, &scratch, seen);
                    count(0, 0, !ok);
                    if (!ok)
                        error = seen.analysis_errors.back();
                    break;
                }
                case 2:
                    note(bms::resolve_annotations(a, parsed)) && note(bms::analyze_name_lookup(a, &scratch))
                        && note(bms::analyze_semantics(a, &scratch));
                    break;
                }
            }
            if (error) {
                if (error->fail_pos())
                    c.check(error->fail_pos()->file_name == file_name, "the error is in another file");
                results.push_back(print(*error));
            }
            else
                results.push_back(print(a));
            introspect(a, *ref_tree, s, c);
            c.check(results.back() == results.front(),
                    "analysis number " + std::to_string(way + 1) + " (1: analyze, 2: with diagnostics consumer, 3: in stages, 4: of "
                    "another parsed program) yields:\n"
                        + results.back() + "\ninstead of:\n" + results.front());
            c.check(print(parsed, tokens) == tree, "analysis changes the parsed program");
        }
        finish(seen.analysis_errors.empty() ? "done" : "analyze");
    }
    c.check(memory.wrong.empty() && other.wrong.empty(), memory.wrong + other.wrong);
    c.check(memory.live.empty() && other.live.empty(),
            "memory is not given back: " + std::to_string(memory.live.size() + other.live.size()) + " allocations");
}

// Parsed and analyzed programs are moved around between variables and memory resources.
void moves(Src& s, Ctx& c)
{
    struct Text {
        std::vector<char> exact;
        std::string_view source;
        std::vector<bms::Token> tokens;
        std::string tree, analyzed; // as seen without any moves
        bool ok;
    };
    std::vector<Text> texts(2);
    std::string log;
    for (auto& t : texts) {
        const auto text = program_text(s, c);
        log += text + "----\n";
        front::Program p(text);
        if (p.failed_at == front::Stage::tokenize || p.failed_at == front::Stage::parse)
            c.discard();
        t.exact.assign(text.begin(), text.end());
        t.source = { t.exact.data(), t.exact.size() };
        t.tokens.assign(p.tokens.begin(), p.tokens.end());
        t.tree = print(*p.parsed, p.tokens);
        t.ok = p.ok();
        t.analyzed = p.ok() ? print(*p.analyzed) : print(*p.analysis_error);
    }
    c.show(log);
    Tracking memory[3];
    bool moved = false;
    {
        struct P {
            std::optional<bms::Parsed_Program> p;
            int text = -1; // -1: none, or moved from
        };
        struct A {
            std::optional<bms::Analyzed_Program> p;
            int text = -1;
        };
        P ps[3];
        A as[3];
        auto look = [&] {
            for (auto& x : ps)
                if (x.text >= 0) {
                    auto& t = texts[std::size_t(x.text)];
                    c.check(x.p->get_source().data() == t.source.data(), "the source of a parsed program changes");
                    c.check(print(*x.p, t.tokens) == t.tree, "a parsed program changes when it is moved");
                }
            for (auto& x : as)
                if (x.text >= 0)
                    c.check(print(*x.p) == texts[std::size_t(x.text)].analyzed, "an analyzed program changes when it is moved");
            for (auto& m : memory)
                c.check(m.wrong.empty(), m.wrong);
        };
        auto note = [&](std::string what) {
            log += what + "\n";
            c.show(log);
        };
        auto move_slot = [&](auto& slots, const char* name) {
            const int i = s.upto(2), j = s.upto(2);
            if (!slots[i].p || slots[i].text < 0)
                return;
            const auto from = std::string(name) + std::to_string(i), to = std::string(name) + std::to_string(j);
            moved = true;
            if (i == j) {
                note(to + " = move(" + to + ")");
                auto& same = *slots[i].p;
                *slots[i].p = std::move(same);
                return;
            }
            if (slots[j].p && s.chance(75)) {
                note(to + " = move(" + from + ")");
                *slots[j].p = std::move(*slots[i].p);
                c.label("move assignments");
            }
            else {
                note("new " + to + "(move(" + from + "))");
                slots[j].p.emplace(std::move(*slots[i].p));
            }
            slots[j].text = slots[i].text;
            slots[i].text = -1;
            if (s.chance(30)) {
                note("destroy " + from);
                slots[i].p.reset();
            }
        };
        for (int n = 4 + s.upto(12); n-- > 0;) {
            switch (s.weighted({ 4, 4, 4, 4, 2 })) {
            case 0: {
                const int i = s.upto(2), t = s.upto(1), m = s.upto(2);
                note("parse text " + std::to_string(t) + " into parsed" + std::to_string(i) + ", memory " + std::to_string(m));
                bms::Parsed_Program fresh(texts[std::size_t(t)].source, &memory[m]);
                const auto r = bms::parse(fresh, texts[std::size_t(t)].tokens);
                c.check(r.has_value(), "parsing fails the second time");
                if (ps[i].p && s.flag())
                    *ps[i].p = std::move(fresh);
                else
                    ps[i].p.emplace(std::move(fresh));
                ps[i].text = t;
                c.check(ps[i].p->get_memory() == &memory[m], "get_memory is another memory resource after a move");
                break;
            }
            case 1: {
                const int i = s.upto(2), j = s.upto(2), m = s.upto(2), m2 = s.upto(2);
                if (ps[i].text < 0)
                    break;
                note("analyze parsed" + std::to_string(i) + " into analyzed" + std::to_string(j) + ", memory " + std::to_string(m));
                auto& t = texts[std::size_t(ps[i].text)];
                bms::Analyzed_Program fresh(*ps[i].p, "file.bms", &memory[m]);
                const auto r = bms::analyze(fresh, *ps[i].p, &memory[m2]);
                c.check(r.has_value() == t.ok && (r || print(r.error()) == t.analyzed), "analysis has another result");
                if (!r)
                    break;
                if (as[j].p && s.flag())
                    *as[j].p = std::move(fresh);
                else
                    as[j].p.emplace(std::move(fresh));
                as[j].text = ps[i].text;
                break;
            }
            case 2: move_slot(ps, "parsed"); break;
            case 3: move_slot(as, "analyzed"); break;
            case 4: {
                const int i = s.upto(2);
                if (s.flag()) {
                    note("destroy parsed" + std::to_string(i));
                    ps[i].p.reset();
                    ps[i].text = -1;
                }
                else {
                    note("destroy analyzed" + std::to_string(i));
                    as[i].p.reset();
                    as[i].text = -1;
                }
                break;
            }
            }
            look();
        }
    }
    for (auto& m : memory) {
        c.check(m.wrong.empty(), m.wrong);
        c.check(m.live.empty(), "memory is not given back: " + std::to_string(m.live.size()) + " allocations");
    }
    if (moved)
        c.nontrivial(log);
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C26";
    p.rule = "Generated programs (well-typed, edited, annotated, or with a fault of an earlier stage) are taken "
             "through the stages by every route: results or a diagnostics consumer, analyze or its three "
             "stages one by one, several analyses of one parsed program, different memory resources; all "
             "routes must agree in tokens, tree, verdict, error (code, places, file), constants, instances "
             "and addresses, the parsed program must stay as it is, and every name is looked up from "
             "outside and compared with the reference tree. Random histories of parsing, analyzing, "
             "moving, self-moving and destroying programs in three memory resources: what is seen of "
             "each program stays the same, and all memory returns to where it came from. Non-trivial: "
             "a program was taken as far as it goes, or moved; distinct by text and history.";
    p.assumptions = { "the source text outlives the programs" };
    p.targets = { { "stages", stages, 6000, 200000 }, { "moves", moves, 6000, 200000 } };
    return p;
}
