// Reference syntax for BMS: the documented grammar as data (used to generate sentences, to decide
// acceptance and the earliest error with an Earley recognizer) and a parser that builds the tree.
#ifndef VERIF_REF_PARSE_HPP
#define VERIF_REF_PARSE_HPP
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include "ref_lex.hpp"

namespace ref {

// ---- the grammar as data ----

inline const char* grammar_text()
{
    return R"(
program = decl | program decl
decl = oannots keyword_const identifier otype init semicolon
decl = oannots keyword_function identifier left_parenthesis oparams right_parenthesis right_arrow type oreq block
decl = sassert
otype = | colon type
init = assign expr
oparams = | params
params = param | params comma param
param = identifier colon type
oreq = | keyword_requires expr
sassert = keyword_static_assert paren semicolon
oannots = | annots
annots = annot | annots annot
annot = at identifier
annot = at identifier left_parenthesis oannotargs right_parenthesis
oannotargs = | annotargs
annotargs = annotarg | annotargs comma annotarg
annotarg = lit | identifier assign lit
lit = intlit | boollit | string_literal
intlit = decimal_literal | hexadecimal_literal | binary_literal | octal_literal
boollit = keyword_true | keyword_false
block = left_brace stmts right_brace
stmts = | stmts stmt
stmt = oannots keyword_let identifier colon type semicolon
stmt = oannots keyword_let identifier otype init semicolon
stmt = oannots keyword_const identifier otype init semicolon
stmt = sassert
stmt = oannots identifier assign expr semicolon
stmt = call semicolon
stmt = keyword_break semicolon | keyword_continue semicolon
stmt = keyword_return semicolon | keyword_return expr semicolon
stmt = if | oannots keyword_while expr block | block
if = oannots keyword_if expr block oelse
oelse = | keyword_else if | keyword_else block
expr = prefix keyword_as type | ifexpr
ifexpr = binary | binary keyword_if binary keyword_else ifexpr
binary = prefix | prefix binop prefix | arith cmpop arith
arith = prefix | prefix arithop prefix
prefix = postfix | unop postfix
postfix = call | primary
call = identifier left_parenthesis oexprs right_parenthesis oannots
oexprs = | exprs
exprs = expr | exprs comma expr
primary = intlit | boollit | identifier | paren
paren = left_parenthesis expr right_parenthesis
binop = arithop | cmpop | logical_and | logical_or | shift_left | shift_right | bitwise_and | bitwise_or | bitwise_xor
arithop = plus | minus | multiplication | division | remainder
cmpop = equals | not_equals | less_than | greater_than | less_or_equal | greater_or_equal
unop = plus | minus | logical_not | bitwise_not
type = keyword_bool | keyword_int | keyword_void | keyword_uint paren
)";
}

struct Grammar {
    // symbols: nonterminals are >= 0, terminals are negative
    std::vector<std::string> nonterminals, terminals;
    struct Rule {
        int lhs;
        std::vector<int> rhs;
    };
    std::vector<Rule> rules;
    std::vector<std::vector<int>> by_lhs;
    std::vector<bool> nullable;
    std::vector<int> min_depth; // per nonterminal
    std::vector<int> rule_depth;

    static constexpr int inf = 1 << 20;
    Grammar()
    {
        std::map<std::string, int> nt;
        std::vector<std::pair<std::string, std::vector<std::string>>> raw;
        std::istringstream in(grammar_text());
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream l(line);
            std::string lhs, eq, w;
            if (!(l >> lhs >> eq))
                continue;
            if (!nt.contains(lhs)) {
                nt[lhs] = int(nonterminals.size());
                nonterminals.push_back(lhs);
            }
            raw.push_back({ lhs, {} });
            while (l >> w) {
                if (w == "|")
                    raw.push_back({ lhs, {} });
                else
                    raw.back().second.push_back(w);
            }
        }
        std::map<std::string, int> t;
        by_lhs.resize(nonterminals.size());
        for (auto& [lhs, rhs] : raw) {
            Rule r { nt[lhs], {} };
            for (auto& s : rhs) {
                if (nt.contains(s))
                    r.rhs.push_back(nt[s]);
                else {
                    if (!t.contains(s)) {
                        terminals.push_back(s);
                        t[s] = -int(terminals.size());
                    }
                    r.rhs.push_back(t[s]);
                }
            }
            by_lhs[r.lhs].push_back(int(rules.size()));
            rules.push_back(r);
        }
        term = t;
        nullable.assign(nonterminals.size(), false);
        min_depth.assign(nonterminals.size(), inf);
        rule_depth.assign(rules.size(), inf);
        for (bool change = true; change;) {
            change = false;
            for (std::size_t i = 0; i < rules.size(); ++i) {
                auto& r = rules[i];
                bool n = true;
                int d = 0;
                for (int s : r.rhs) {
                    n = n && s >= 0 && nullable[s];
                    d = std::max(d, s >= 0 ? min_depth[s] : 0);
                }
                if (n && !nullable[r.lhs])
                    nullable[r.lhs] = change = true;
                if (d + 1 < rule_depth[i]) {
                    rule_depth[i] = d + 1;
                    change = true;
                }
                if (rule_depth[i] < min_depth[r.lhs]) {
                    min_depth[r.lhs] = rule_depth[i];
                    change = true;
                }
            }
        }
    }
    std::map<std::string, int> term;
    int terminal(const std::string& kind) const
    {
        auto it = term.find(kind);
        return it == term.end() ? -inf : it->second;
    }
    static const Grammar& get()
    {
        static const Grammar g;
        return g;
    }
};

struct Recognized {
    bool accepted = false;
    /// index of the first token no program can continue with; the number of tokens if the input
    /// is a proper prefix of a program
    std::size_t error_at = 0;
    /// kinds that could continue at error_at (for rejected inputs)
    std::set<std::string> viable;
};

inline Recognized recognize(const std::vector<std::string>& kinds)
{
    const Grammar& g = Grammar::get();
    struct Item {
        int rule;
        unsigned dot, origin;
        bool operator<(const Item& o) const
        {
            return std::tie(rule, dot, origin) < std::tie(o.rule, o.dot, o.origin);
        }
    };
    std::vector<std::vector<Item>> sets(kinds.size() + 1);
    std::vector<std::set<Item>> seen(kinds.size() + 1);
    auto add = [&](std::size_t i, Item it) {
        if (seen[i].insert(it).second)
            sets[i].push_back(it);
    };
    for (int r : g.by_lhs[0])
        add(0, { r, 0, 0 });
    Recognized res;
    for (std::size_t i = 0; i <= kinds.size(); ++i) {
        for (std::size_t k = 0; k < sets[i].size(); ++k) {
            const Item it = sets[i][k];
            auto& rule = g.rules[it.rule];
            if (it.dot == rule.rhs.size()) {
                for (std::size_t j = 0; j < sets[it.origin].size(); ++j) {
                    const Item o = sets[it.origin][j];
                    auto& orule = g.rules[o.rule];
                    if (o.dot < orule.rhs.size() && orule.rhs[o.dot] == rule.lhs)
                        add(i, { o.rule, o.dot + 1, o.origin });
                }
            }
            else if (const int s = rule.rhs[it.dot]; s >= 0) {
                for (int r : g.by_lhs[s])
                    add(i, { r, 0, unsigned(i) });
                if (g.nullable[s])
                    add(i, { it.rule, it.dot + 1, it.origin });
            }
            else if (i < kinds.size() && s == g.terminal(kinds[i]))
                add(i + 1, { it.rule, it.dot + 1, it.origin });
        }
        const bool last = i == kinds.size();
        if (last)
            for (auto& it : sets[i])
                if (g.rules[it.rule].lhs == 0 && it.origin == 0
                    && it.dot == g.rules[it.rule].rhs.size())
                    res.accepted = true;
        if ((last && !res.accepted) || (!last && sets[i + 1].empty())) {
            res.error_at = i;
            for (auto& it : sets[i]) {
                auto& rule = g.rules[it.rule];
                if (it.dot < rule.rhs.size() && rule.rhs[it.dot] < 0)
                    res.viable.insert(g.terminals[-rule.rhs[it.dot] - 1]);
            }
            return res;
        }
    }
    return res;
}

// ---- the tree ----

struct Node;
using Ptr = std::shared_ptr<Node>;

struct Node {
    std::string kind;
    std::string text; // name, operator, literal
    std::vector<Ptr> kids;
    std::size_t tok = 0; // the token this node is positioned at
    std::string extra;   // argument values; "statement" for calls
    // annotations of the checker
    std::string kid_text(std::size_t i) const { return kids.at(i) ? kids[i]->text : ""; }
};

inline Ptr node(std::string kind, std::string text, std::vector<Ptr> kids = {}, std::size_t tok = 0)
{
    return std::make_shared<Node>(Node { std::move(kind), std::move(text), std::move(kids), tok, "" });
}

inline Ptr clone(const Ptr& p)
{
    if (!p)
        return p;
    auto r = std::make_shared<Node>(*p);
    for (auto& k : r->kids)
        k = clone(k);
    return r;
}

inline void dump(std::string& out, const Ptr& p, bool positions)
{
    if (!p) {
        out += '-';
        return;
    }
    out += '(' + p->kind;
    if (!p->text.empty())
        out += ':' + p->text;
    if (!p->extra.empty())
        out += '=' + p->extra;
    if (positions)
        out += '@' + std::to_string(p->tok);
    for (auto& k : p->kids) {
        out += ' ';
        dump(out, k, positions);
    }
    out += ')';
}
inline std::string dump(const Ptr& p, bool positions = false)
{
    std::string r;
    dump(r, p, positions);
    return r;
}

struct Syntax_Error {
    std::size_t at;
};

struct Parser {
    std::vector<Tok> t; // without comments
    std::size_t i = 0;

    explicit Parser(const std::vector<Tok>& tokens)
    {
        for (auto& x : tokens)
            if (!x.is_comment())
                t.push_back(x);
    }
    [[noreturn]] void bad() const { throw Syntax_Error { i }; }
    std::string kind(std::size_t n = 0) const { return i + n < t.size() ? t[i + n].kind : "eof"; }
    bool is(std::string_view k) const { return kind() == k; }
    bool is(std::initializer_list<std::string_view> ks) const
    {
        for (auto k : ks)
            if (is(k))
                return true;
        return false;
    }
    bool accept(std::string_view k)
    {
        if (!is(k))
            return false;
        ++i;
        return true;
    }
    std::string need(std::string_view k)
    {
        if (!is(k))
            bad();
        return t[i++].text;
    }

    Ptr program()
    {
        std::vector<Ptr> d;
        do
            d.push_back(declaration(true));
        while (i < t.size());
        const auto first = d[0]->tok;
        return node("Program", "", std::move(d), first);
    }
    Ptr annots()
    {
        if (!is("at"))
            return nullptr;
        std::vector<Ptr> as;
        const auto first = i;
        while (is("at")) {
            const auto at = i++;
            auto a = node("Annot", need("identifier"), {}, at);
            if (accept("left_parenthesis")) {
                if (!is("right_parenthesis"))
                    do {
                        auto arg = node("Arg", "", {}, i);
                        if (is("identifier")) {
                            arg->text = t[i++].text;
                            need("assign");
                        }
                        if (!int_literal() && !is({ "keyword_true", "keyword_false", "string_literal" }))
                            bad();
                        const auto& v = t[i++];
                        arg->extra = v.kind + ":"
                            + (v.kind == "string_literal" ? v.text.substr(1, v.text.size() - 2)
                                                          : v.text);
                        a->kids.push_back(arg);
                    } while (accept("comma"));
                need("right_parenthesis");
            }
            as.push_back(a);
        }
        return node("Annots", "", std::move(as), first);
    }
    bool int_literal() const
    {
        return is({ "decimal_literal", "hexadecimal_literal", "binary_literal", "octal_literal" });
    }
    Ptr declaration(bool top)
    {
        auto a = annots();
        if (!a && is("keyword_static_assert")) {
            const auto at = i++;
            auto e = paren();
            need("semicolon");
            return node("Static_Assert", "", { e }, at);
        }
        if (is("keyword_const")) {
            const auto at = i++;
            const auto name = need("identifier");
            Ptr ty;
            if (accept("colon"))
                ty = type();
            need("assign");
            auto e = expr();
            need("semicolon");
            return node("Const", name, { a, ty, e }, at);
        }
        if (top && is("keyword_function")) {
            const auto at = i++;
            const auto name = need("identifier");
            need("left_parenthesis");
            Ptr params;
            if (!is("right_parenthesis")) {
                std::vector<Ptr> ps;
                const auto first = i;
                do {
                    const auto p = i;
                    const auto n = need("identifier");
                    need("colon");
                    ps.push_back(node("Param", n, { type() }, p));
                } while (accept("comma"));
                params = node("Params", "", std::move(ps), first);
            }
            need("right_parenthesis");
            need("right_arrow");
            auto ret = type();
            Ptr req;
            if (accept("keyword_requires"))
                req = expr();
            return node("Function", name, { a, params, ret, req, block() }, at);
        }
        if (top)
            bad();
        // statements
        const auto at = i;
        if (accept("keyword_let")) {
            const auto name = need("identifier");
            Ptr ty, e;
            if (accept("colon"))
                ty = type();
            if (accept("assign"))
                e = expr();
            else if (!ty)
                bad();
            need("semicolon");
            return node("Let", name, { a, ty, e }, at);
        }
        if (is("keyword_if"))
            return if_statement(a);
        if (accept("keyword_while")) {
            auto c = expr();
            return node("While", "", { a, c, block() }, at);
        }
        if (is("identifier")) {
            if (!a && kind(1) == "left_parenthesis") {
                auto c = call();
                c->extra = "statement";
                need("semicolon");
                return c;
            }
            const auto name = t[i++].text;
            need("assign");
            auto e = expr();
            need("semicolon");
            return node("Assign", name, { a, e }, at);
        }
        if (a)
            bad();
        if (is("left_brace"))
            return block();
        if (accept("keyword_break")) {
            need("semicolon");
            return node("Break", "", {}, at);
        }
        if (accept("keyword_continue")) {
            need("semicolon");
            return node("Continue", "", {}, at);
        }
        if (accept("keyword_return")) {
            Ptr e;
            if (!is("semicolon"))
                e = expr();
            need("semicolon");
            return node("Return", "", { e }, at);
        }
        bad();
    }
    Ptr if_statement(Ptr a)
    {
        const auto at = i;
        need("keyword_if");
        auto c = expr();
        auto b = block();
        Ptr e;
        if (accept("keyword_else")) {
            auto ea = annots();
            e = ea || is("keyword_if") ? if_statement(ea) : block();
        }
        return node("If", "", { a, c, b, e }, at);
    }
    Ptr block()
    {
        const auto at = i;
        need("left_brace");
        std::vector<Ptr> s;
        while (!is("right_brace"))
            s.push_back(declaration(false));
        ++i;
        return node("Block", "", std::move(s), at);
    }
    Ptr type()
    {
        const auto at = i;
        if (accept("keyword_void"))
            return node("Type", "Void", { nullptr }, at);
        if (accept("keyword_bool"))
            return node("Type", "Bool", { nullptr }, at);
        if (accept("keyword_int"))
            return node("Type", "Int", { nullptr }, at);
        need("keyword_uint");
        return node("Type", "Uint", { paren() }, at);
    }
    Ptr paren()
    {
        need("left_parenthesis");
        auto e = expr();
        need("right_parenthesis");
        return e;
    }
    Ptr expr()
    {
        auto p = prefix();
        if (accept("keyword_as"))
            return node("Conv", "", { p, type() }, p->tok);
        return if_expr(p);
    }
    Ptr if_expr(Ptr first)
    {
        auto l = binary(first);
        if (!accept("keyword_if"))
            return l;
        auto c = binary(prefix());
        need("keyword_else");
        auto r = if_expr(prefix());
        return node("If_Expr", "", { l, c, r }, l->tok);
    }
    bool arith_op() const { return is({ "plus", "minus", "multiplication", "division", "remainder" }); }
    bool cmp_op() const
    {
        return is({ "equals", "not_equals", "less_than", "greater_than", "less_or_equal",
                    "greater_or_equal" });
    }
    Ptr comparison(Ptr l)
    {
        const auto op = i++;
        auto r = prefix();
        if (arith_op()) {
            const auto op2 = i++;
            r = node("Binary", t[op2].text, { r, prefix() }, op2);
        }
        return node("Binary", t[op].text, { l, r }, op);
    }
    Ptr binary(Ptr l)
    {
        if (cmp_op())
            return comparison(l);
        if (arith_op()) {
            const auto op = i++;
            l = node("Binary", t[op].text, { l, prefix() }, op);
            return cmp_op() ? comparison(l) : l;
        }
        if (is({ "logical_and", "logical_or", "shift_left", "shift_right", "bitwise_and",
                 "bitwise_or", "bitwise_xor" })) {
            const auto op = i++;
            return node("Binary", t[op].text, { l, prefix() }, op);
        }
        return l;
    }
    Ptr prefix()
    {
        if (is({ "plus", "minus", "logical_not", "bitwise_not" })) {
            const auto op = i++;
            return node("Prefix", t[op].text, { postfix() }, op);
        }
        return postfix();
    }
    Ptr call()
    {
        const auto at = i;
        const auto name = need("identifier");
        need("left_parenthesis");
        std::vector<Ptr> args;
        if (!is("right_parenthesis"))
            do
                args.push_back(expr());
            while (accept("comma"));
        need("right_parenthesis");
        args.push_back(annots());
        return node("Call", name, std::move(args), at);
    }
    Ptr postfix()
    {
        const auto at = i;
        if (is("identifier"))
            return kind(1) == "left_parenthesis" ? call() : node("Id", t[i++].text, {}, at);
        if (int_literal() || is({ "keyword_true", "keyword_false" }))
            return node("Literal", t[i++].text, {}, at);
        return paren();
    }
};

} // namespace ref
#endif
