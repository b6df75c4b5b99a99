// C22: verdict, constants and results under changes of the text that do not change its meaning.
#include "machine.hpp"
#include "pbt.hpp"
#include "prog.hpp"

using pbt::Ctx;
using pbt::Src;

namespace {

struct Names {
    std::map<std::string, std::string> to;
    Src& s;
    std::set<std::string> taken { "assert", "undefined_name" };

    std::string stem; // that all names share

    explicit Names(Src& s)
        : s(s)
    {
        if (s.chance(12)) {
            const std::size_t sizes[] { 7, 15, 22, 31, 63, 127, 255, 1023 };
            stem = std::string(sizes[s.draw32(8)] - 1 + s.draw32(3), s.pick_char("vX_"));
        }
    }
    const std::string& of(const std::string& n)
    {
        auto [it, fresh] = to.try_emplace(n, n);
        if (!fresh || n == "assert" || n == "undefined_name")
            return it->second;
        std::string r;
        do {
            r = stem + std::string(s.pick({ "x", "_", "If", "constant", "Uint8", "a1", "truex", "functional", "v", "p",
                                     "z", "returned", "N", "asserts", "true_", "as_", "iff" }));
            const int n2 = s.upto(3);
            for (int i = 0; i < n2; ++i)
                r += s.pick_char("abcXYZ019_");
        } while (!taken.insert(r).second || is_keyword(r));
        return it->second = r;
    }
    static bool is_keyword(const std::string& w)
    {
        for (auto& [t, n] : ref::keywords())
            if (t == w)
                return true;
        return false;
    }
};

struct Change {
    bool layout = false, rename = false, bases = false, parens = false, reorder = false;
    std::string str() const
    {
        return std::string(layout ? " layout" : "") + (rename ? " names" : "") + (bases ? " bases" : "")
            + (parens ? " parentheses" : "") + (reorder ? " order" : "");
    }
};

void rewrite(Src& s, const ref::Ptr& p, const Change& ch, Names& names)
{
    if (!p || p->kind == "Annots")
        return;
    static const std::set<std::string> named { "Id", "Let", "Const", "Function", "Param", "Assign", "Call" };
    if (ch.rename && named.count(p->kind))
        p->text = names.of(p->text);
    if (ch.bases && p->kind == "Literal" && isdigit((unsigned char)p->text[0]))
        if (auto v = ref::literal_value(p->text))
            p->text = gen::Prog_Gen::spell_int(s, *v);
    for (auto& k : p->kids)
        rewrite(s, k, ch, names);
}

void judge(Src& s, Ctx& c, const ref::Ptr& tree)
{
    const auto text = prog::plain(tree);
    std::optional<prog::Meaning> m;
    try {
        m.emplace(text);
    } catch (const ref::Unspecified&) {
        c.discard();
    }
    Change ch;
    while (!ch.layout && !ch.rename && !ch.bases && !ch.parens && !ch.reorder) {
        ch.layout = s.chance(50);
        ch.rename = s.chance(40);
        ch.bases = s.chance(40);
        ch.parens = s.chance(40);
        ch.reorder = m->sem->ok() && s.chance(30);
    }
    auto other = ref::clone(tree);
    Names names(s);
    rewrite(s, other, ch, names);
    // functions trade places with functions next to them
    std::vector<std::size_t> order(tree->kids.size());
    for (std::size_t i = 0; i < order.size(); ++i)
        order[i] = i;
    if (ch.reorder)
        for (std::size_t n = 0; n < order.size(); ++n)
            for (std::size_t i = 0; i + 1 < order.size(); ++i)
                if (other->kids[i]->kind == "Function" && other->kids[i + 1]->kind == "Function" && s.flag()) {
                    std::swap(other->kids[i], other->kids[i + 1]);
                    std::swap(order[i], order[i + 1]);
                }
    const auto words = ref::unparse(other, ch.parens ? std::function<bool()>([&] { return s.chance(12); })
                                                     : std::function<bool()>());
    const auto text2 = ch.layout ? gen::layout(s, words, 15) : ref::pretty(words);
    c.show(text + "\n---- changed:" + ch.str() + "\n" + text2);

    front::Program p(text), q(text2);
    c.check(p.verdict() == q.verdict(), "verdict is " + p.verdict() + ", after the change " + q.verdict());
    for (auto name : { "layout", "names", "bases", "parentheses", "order" })
        if (ch.str().find(name) != std::string::npos)
            c.label(name);
    c.label(p.ok() ? "accepted" : "rejected");
    if (!p.ok()) {
        if (m->toks.size() > 15)
            c.nontrivial(text2);
        return;
    }
    if (!m->sem->ok())
        c.discard(); // C07 decides that
    for (auto& [name, v] : m->sem->constants) {
        const auto a = p.constant(name), b = q.constant(ch.rename ? names.of(name) : name);
        c.check(bool(a) == bool(b) && (!a || vals::ref_val(*a) == vals::ref_val(*b)),
                name + " has another value after the change");
    }
    auto pe = machine::lib_entries(p), qe = machine::lib_entries(q);
    c.check(pe.size() == qe.size(), "number of functions or instances differs");
    // bring the entries of q into the order of p
    {
        std::map<std::string, std::string> rename_label;
        auto label = [&](const machine::Entry& e, bool map) {
            const std::string n(e.fn->get_name());
            return (map && ch.rename ? names.of(n) : n) + e.label.substr(n.size());
        };
        std::vector<machine::Entry> sorted;
        for (auto& e : pe) {
            const auto want = label(e, true);
            for (auto& x : qe)
                if (label(x, false) == want)
                    sorted.push_back(x);
        }
        c.check(sorted.size() == pe.size(), "functions or instances differ");
        qe = sorted;
    }
    bit_manipulation::bms::Virtual_Machine fresh(&q.memory);
    auto& pv = p.analyzed->get_vm();
    const bool use_fresh = s.flag();
    auto& qv = use_fresh ? fresh : q.analyzed->get_vm();
    machine::compile(pv, pe, true, c);
    machine::compile(qv, qe, !use_fresh, c);
    for (std::size_t i = 0; i < 2 * pe.size(); ++i) {
        const auto k = i % pe.size();
        c.check(machine::compiled(pe[k]) == machine::compiled(qe[k]), "only one of " + pe[k].label + " has code");
        if (!machine::compiled(pe[k]))
            continue;
        const auto types = machine::param_types(pe[k]);
        c.check(types == machine::param_types(qe[k]), "parameters of " + pe[k].label + " differ");
        std::vector<ref::Val> args;
        for (auto& t : types)
            args.push_back(vals::gen_val(s, t));
        auto* inst = m->sem->function(std::string(pe[k].fn->get_name()));
        for (auto* x : inst->instances) {
            std::string l = x->fn->name;
            for (int w : x->widths)
                l += "_" + std::to_string(w);
            if (l == pe[k].label)
                inst = x;
        }
        try {
            machine::expected(*m, inst, args); // terminates
        } catch (const ref::Unspecified&) {
            continue;
        }
        const auto a = machine::run(pv, pe[k], args, c), b = machine::run(qv, qe[k], args, c);
        c.check(a.value == b.value && a.error == b.error,
                pe[k].label + machine::show_args(args) + " yields " + a.str() + ", after the change " + b.str());
    }
    if (m->toks.size() > 15)
        c.nontrivial(text2);
}

void programs(Src& s, Ctx& c)
{
    gen::Prog_Options o;
    o.deep_percent = 4;
    o.runtime_errors = s.chance(30);
    o.size = 30 + s.upto(200);
    judge(s, c, prog::gen_tree(s, o, s.weighted({ 6, 3, 1 })));
}

// Syntactically invalid text stays invalid under changes of layout.
void sentences(Src& s, Ctx& c)
{
    auto k = gen::sentence(s, 6 + s.upto(10), 40);
    gen::edit(s, k);
    std::vector<std::string> w;
    for (auto& x : k)
        w.push_back(gen::spell(s, x));
    const auto a = gen::layout(s, w, 0), b = gen::layout(s, w, 30);
    c.show(a + "\n---- changed layout\n" + b);
    front::Program p(a, front::Stage::parse), q(b, front::Stage::parse);
    c.check(p.verdict() == q.verdict(), "verdict is " + p.verdict() + ", after the change " + q.verdict());
    if (!p.ok() && p.parse_error && q.parse_error) {
        auto index = [](const front::Program& x) {
            std::size_t n = 0;
            for (auto& t : x.tokens)
                if (t.pos.begin < x.parse_error->fail_token.pos.begin
                    && t.type != bit_manipulation::bms::Token_Type::block_comment
                    && t.type != bit_manipulation::bms::Token_Type::line_comment)
                    ++n;
            return n;
        };
        c.check(index(p) == index(q), "the error moves to another token");
    }
    c.label(p.ok() ? "parses" : "does not parse");
    if (w.size() > 6)
        c.nontrivial(b);
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C22";
    p.rule = "Generated programs, accepted ones and ones broken by edits, paired with a variant that "
             "has other layout and comments, consistently renamed names, literals in other bases, "
             "redundant parentheses, or adjacent functions swapped. Verdict and error kind, all "
             "constants, the set of functions and instances, and the value or error of calls on random "
             "arguments must agree; token sequences that do not parse must keep failing at the same "
             "token. Non-trivial: more than 15 tokens (6 for token sequences); distinct by text.";
    p.targets = { { "programs", programs, 9000, 250000 }, { "sentences", sentences, 6000, 100000 } };
    return p;
}
