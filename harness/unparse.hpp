// Reference tree -> words of the language, with exactly the parentheses the grammar needs plus
// redundant ones on request.
#ifndef VERIF_UNPARSE_HPP
#define VERIF_UNPARSE_HPP
#include <functional>
#include <string>
#include <vector>

#include "ref_parse.hpp"
#include "ref_val.hpp"

namespace ref {

class Unparser {
public:
    std::vector<std::string> out;
    std::function<bool()> redundant; // whether to add parentheses around the next expression

    void program(const Ptr& p)
    {
        for (auto& d : p->kids)
            statement(d);
    }
    void statement(const Ptr& p)
    {
        const Node& n = *p;
        if (n.kind == "Const" || n.kind == "Let") {
            annots(n.kids[0]);
            w(n.kind == "Const" ? "const" : "let");
            w(n.text);
            if (n.kids[1]) {
                w(":");
                type(n.kids[1]);
            }
            if (n.kids[2]) {
                w("=");
                expr(n.kids[2], 0);
            }
            w(";");
        }
        else if (n.kind == "Static_Assert") {
            w("static_assert");
            w("(");
            expr(n.kids[0], 0);
            w(")");
            w(";");
        }
        else if (n.kind == "Function") {
            annots(n.kids[0]);
            w("function");
            w(n.text);
            w("(");
            if (n.kids[1])
                for (std::size_t i = 0; i < n.kids[1]->kids.size(); ++i) {
                    auto& q = *n.kids[1]->kids[i];
                    if (i)
                        w(",");
                    w(q.text);
                    w(":");
                    type(q.kids[0]);
                }
            w(")");
            w("->");
            type(n.kids[2]);
            if (n.kids[3]) {
                w("requires");
                expr(n.kids[3], 0);
            }
            statement(n.kids[4]);
        }
        else if (n.kind == "Block") {
            w("{");
            for (auto& k : n.kids)
                statement(k);
            w("}");
        }
        else if (n.kind == "If") {
            annots(n.kids[0]);
            w("if");
            expr(n.kids[1], 0);
            statement(n.kids[2]);
            if (n.kids[3]) {
                w("else");
                statement(n.kids[3]);
            }
        }
        else if (n.kind == "While") {
            annots(n.kids[0]);
            w("while");
            expr(n.kids[1], 0);
            statement(n.kids[2]);
        }
        else if (n.kind == "Break" || n.kind == "Continue") {
            w(n.kind == "Break" ? "break" : "continue");
            w(";");
        }
        else if (n.kind == "Return") {
            w("return");
            if (n.kids[0])
                expr(n.kids[0], 0);
            w(";");
        }
        else if (n.kind == "Assign") {
            annots(n.kids[0]);
            w(n.text);
            w("=");
            expr(n.kids[1], 0);
            w(";");
        }
        else if (n.kind == "Call") {
            expr(p, 9);
            w(";");
        }
        else
            throw std::logic_error("unparse " + n.kind);
    }
    void annots(const Ptr& p)
    {
        if (!p)
            return;
        for (auto& a : p->kids) {
            w("@");
            w(a->text);
            if (a->kids.empty() && a->extra.empty())
                continue;
            w("(");
            for (std::size_t i = 0; i < a->kids.size(); ++i) {
                if (i)
                    w(",");
                auto& arg = *a->kids[i];
                if (!arg.text.empty()) {
                    w(arg.text);
                    w("=");
                }
                const auto c = arg.extra.find(':');
                const auto v = arg.extra.substr(c + 1);
                w(arg.extra.substr(0, c) == "string_literal" ? '"' + v + '"' : v);
            }
            w(")");
        }
    }
    void type(const Ptr& p)
    {
        w(p->text);
        if (p->text == "Uint") {
            w("(");
            expr(p->kids[0], 0);
            w(")");
        }
    }
    // level: 0 expr, 1 ifexpr, 2 binary, 3 arith, 4 prefix, 5 postfix, 9 call statement
    void expr(const Ptr& p, int level)
    {
        const Node& n = *p;
        int own = 5;
        bool cmp = false;
        if (n.kind == "Conv")
            own = 0;
        else if (n.kind == "If_Expr")
            own = 1;
        else if (n.kind == "Binary") {
            const auto& o = n.text;
            own = o == "+" || o == "-" || o == "*" || o == "/" || o == "%" ? 3 : 2;
            cmp = o == "==" || o == "!=" || o == "<" || o == ">" || o == "<=" || o == ">=";
        }
        else if (n.kind == "Prefix")
            own = 4;
        if (level != 9 && (own < level || (redundant && redundant()))) {
            w("(");
            expr(p, 0);
            w(")");
            return;
        }
        if (n.kind == "Conv") {
            expr(n.kids[0], 4);
            w("as");
            type(n.kids[1]);
        }
        else if (n.kind == "If_Expr") {
            expr(n.kids[0], 2);
            w("if");
            expr(n.kids[1], 2);
            w("else");
            expr(n.kids[2], 1);
        }
        else if (n.kind == "Binary") {
            expr(n.kids[0], cmp ? 3 : 4);
            w(n.text);
            expr(n.kids[1], cmp ? 3 : 4);
        }
        else if (n.kind == "Prefix") {
            w(n.text);
            expr(n.kids[0], 5);
        }
        else if (n.kind == "Literal" || n.kind == "Id")
            w(n.text);
        else if (n.kind == "Call") {
            w(n.text);
            w("(");
            bool first = true;
            for (auto& k : n.kids) {
                if (!k || k->kind == "Annots")
                    continue;
                if (!first)
                    w(",");
                first = false;
                expr(k, 0);
            }
            w(")");
            if (!n.kids.empty() && n.kids.back() && n.kids.back()->kind == "Annots")
                annots(n.kids.back());
        }
        else
            throw std::logic_error("unparse " + n.kind);
    }

private:
    void w(std::string s) { out.push_back(std::move(s)); }
};

inline std::vector<std::string> unparse(const Ptr& program, std::function<bool()> redundant = {})
{
    Unparser u;
    u.redundant = std::move(redundant);
    u.program(program);
    return u.out;
}

/// Readable text, one statement a line.
inline std::string pretty(const std::vector<std::string>& words)
{
    std::string r;
    int depth = 0, paren = 0;
    bool bol = true;
    for (std::size_t i = 0; i < words.size(); ++i) {
        const auto& x = words[i];
        if (x == "}" && depth)
            --depth;
        if (bol)
            r.append(std::size_t(depth) * 4, ' ');
        else if (x != ";" && x != ")" && x != "," && x != ":" && !(x == "(" && r.size() && (isalnum((unsigned char)r.back()) || r.back() == '_'))
                 && r.back() != '(')
            r += ' ';
        r += x;
        bol = false;
        if (x == "(")
            ++paren;
        if (x == ")")
            --paren;
        if (x == "{")
            ++depth;
        if (x == "{" || x == "}" || (x == ";" && !paren)) {
            r += '\n';
            bol = true;
        }
    }
    return r;
}

} // namespace ref
#endif
