// C27: the tree that users of the library walk: it mirrors the program, copies for instances are
// complete and closed, and every name in it is resolved.
#include <algorithm>

#include "bms/analyze.hpp"
#include "bms/deduction.hpp"
#include "bms/expression_type.hpp"
#include "bms/instantiate.hpp"
#include "bms/tokenization/token_type.hpp"
#include "lib_tree.hpp"
#include "machine.hpp"
#include "pbt.hpp"
#include "prog.hpp"

using pbt::Ctx;
using pbt::Src;

namespace {

namespace bm = bit_manipulation;
namespace bms = bit_manipulation::bms;
namespace ast = bms::ast;
using bm::get;
using bm::get_if;
using ref::Semantics;
using Inst = Semantics::Inst;
using Entity = Semantics::Entity;

std::string_view kind_of(const std::string& k)
{
    static const std::map<std::string_view, std::string_view> m {
        { "Program", "Program" },       { "Function", "Function" },
        { "Type", "Type" },             { "Const", "Const" },
        { "Let", "Let" },               { "Static_Assert", "Static_Assert" },
        { "If", "If_Statement" },       { "While", "While_Statement" },
        { "Break", "Control_Statement" }, { "Continue", "Control_Statement" },
        { "Return", "Control_Statement" }, { "Assign", "Assignment" },
        { "Block", "Block_Statement" }, { "Conv", "Conversion_Expression" },
        { "If_Expr", "If_Expression" }, { "Binary", "Binary_Expression" },
        { "Prefix", "Prefix_Expression" }, { "Call", "Function_Call_Expression" },
        { "Id", "Id_Expression" },      { "Literal", "Literal" },
    };
    return m.at(k);
}
bms::Construct construct_of(const std::string& k)
{
    using enum bms::Construct;
    static const std::map<std::string, bms::Construct> m {
        { "Program", program },
        { "Function", function },
        { "Type", type },
        { "Const", constant },
        { "Let", variable },
        { "Static_Assert", static_assertion },
        { "If", if_statement },
        { "While", while_statement },
        { "Break", break_statement },
        { "Continue", continue_statement },
        { "Return", return_statement },
        { "Assign", assignment },
        { "Block", block_statement },
        { "Conv", conversion_expression },
        { "If_Expr", if_expression },
        { "Binary", binary_expression },
        { "Prefix", prefix_expression },
        { "Call", function_call_expression },
        { "Id", id_expression },
        { "Literal", literal },
    };
    return m.at(k);
}

/// What the library says about an operator: as a token and as a kind of expression.
/// Empty if all of it is right, else what is wrong.
std::string operator_facts(bms::Expression_Type e, const std::string& text, bool prefix)
{
    const auto in = [&](std::initializer_list<std::string_view> l) {
        return std::find(l.begin(), l.end(), text) != l.end();
    };
    const bool equality = in({ "==", "!=" }), relational = in({ "<", ">", "<=", ">=" }),
               arithmetic = in({ "+", "-", "*", "/", "%" }), logical = in({ "&&", "||", "!" }),
               bits = in({ "&", "|", "^", "~", "<<", ">>" });
    const auto t = bms::expression_type_token(e);
    if (bms::token_type_code_name(t) != text || bms::expression_type_code_name(e) != text)
        return "is spelled '" + std::string(bms::expression_type_code_name(e)) + "'";
    if (bms::token_type_readable_name(t) != "'" + text + "'")
        return "is called " + std::string(bms::token_type_readable_name(t));
    if (bms::token_type_length(t) != text.size())
        return "has another length";
    if (bms::is_comment(t))
        return "is a comment";
    const auto eq = [](bool a, bool b) { return a == b; };
    // As a token, which may be used as a prefix and between operands.
    if (!eq(bms::is_unary_operator(t), in({ "+", "-", "!", "~" })))
        return "is mistaken as a token about being a unary operator";
    if (!eq(bms::is_binary_operator(t), !in({ "!", "~" })))
        return "is mistaken as a token about being a binary operator";
    if (!eq(bms::is_arithmetic_operator(t), arithmetic))
        return "is mistaken as a token about being arithmetic";
    if (!eq(bms::is_bitwise_operator(t), bits))
        return "is mistaken as a token about being bitwise";
    if (!eq(bms::is_logical_operator(t), logical))
        return "is mistaken as a token about being logical";
    if (!eq(bms::is_comparison_operator(t), equality || relational))
        return "is mistaken as a token about being a comparison";
    if (!eq(bms::is_relational_comparison_operator(t), relational))
        return "is mistaken as a token about being a relational comparison";
    // As an expression.
    if (bms::is_primary(e) || bms::is_postfix_unary(e))
        return "is mistaken about being primary or a call";
    if (!eq(bms::is_prefix_unary(e), prefix) || !eq(bms::is_binary(e), !prefix))
        return "is mistaken about the number of its operands";
    if (!eq(bms::is_equality_comparison(e), equality) || !eq(bms::is_relational_comparison(e), relational)
        || !eq(bms::is_binary_comparison(e), equality || relational))
        return "is mistaken about being a comparison";
    if (!eq(bms::is_unary_arithmetic(e), arithmetic && prefix)
        || !eq(bms::is_binary_arithmetic(e), arithmetic && !prefix) || !eq(bms::is_arithmetic(e), arithmetic))
        return "is mistaken about being arithmetic";
    if (!eq(bms::is_binary_bitwise(e), bits && !prefix) || !eq(bms::is_bitwise(e), bits))
        return "is mistaken about being bitwise";
    if (!eq(bms::is_binary_logical(e), logical && !prefix))
        return "is mistaken about being logical";
    return "";
}
/// The same for expressions that are no operator.
std::string other_facts(bms::Expression_Type e, bool primary, bool call)
{
    if (bms::is_primary(e) != primary)
        return "is mistaken about being primary";
    if (bms::is_postfix_unary(e) != call)
        return "is mistaken about being a call";
    if (bms::is_prefix_unary(e) || bms::is_binary_comparison(e) || bms::is_equality_comparison(e)
        || bms::is_relational_comparison(e) || bms::is_arithmetic(e) || bms::is_unary_arithmetic(e)
        || bms::is_binary_arithmetic(e) || bms::is_bitwise(e) || bms::is_binary_bitwise(e)
        || bms::is_binary_logical(e))
        return "is taken for an operator";
    return "";
}

/// How far the program has been taken.
enum struct Depth { converted, looked_up, analyzed };

struct Walk {
    Ctx& c;
    const prog::Meaning& m;
    const bms::Analyzed_Program& p;
    Depth depth;
    std::size_t nodes = 0, copies = 0, resolved = 0, typed = 0, valued = 0;

    std::map<const ref::Node*, const ast::Some_Node*> globals; // declarations
    // of the copy at hand
    const ast::Function* fn = nullptr;
    const Inst* inst = nullptr;
    std::string where = {};
    std::map<const ref::Node*, const ast::Some_Node*> locals; // Let, Const, width Id
    std::set<const ast::Some_Node*> seen = {};

    std::string at(const ref::Node& n) const
    {
        const auto& t = m.toks.at(n.tok);
        return n.kind + " at " + std::to_string(t.line + 1) + ":" + std::to_string(t.column + 1)
            + (where.empty() ? "" : " in " + where);
    }
    void check(bool ok, const ref::Node& n, const std::string& what)
    {
        if (!ok)
            c.fail(at(n) + ": " + what);
    }

    void place(const std::optional<bm::Source_Span>& pos, const ref::Node& n)
    {
        check(pos.has_value(), n, "has no position");
        const auto& t = m.toks.at(n.tok);
        check(pos->begin == t.begin && pos->line == t.line && pos->column == t.column, n,
              "is said to be at " + std::to_string(pos->line + 1) + ":" + std::to_string(pos->column + 1));
        check(pos->file_name == "file.bms", n, "is in no file");
    }

    // What is common to all nodes.
    void head(const ast::Some_Node* h, const ref::Node& n, const ast::Some_Node* parent)
    {
        ++nodes;
        check(h != nullptr, n, "is missing");
        check(seen.insert(h).second, n, "is shared between places");
        check(ast::get_node_name(*h) == kind_of(n.kind), n, "is a " + std::string(ast::get_node_name(*h)));
        if (!m.toks.empty() && n.kind != "Program")
            place(ast::get_source_position(*h), n);
        check(ast::get_parent(*h) == parent, n, "its parent is not the node that contains it");
        check(parent || n.kind == "Program", n, "no parent");
        const auto d = ast::get_debug_info(*h);
        check(d.construct == construct_of(n.kind), n, "describes itself as another construct");
        check(d.name == (n.kind == "Function" || n.kind == "Const" || n.kind == "Let" || n.kind == "Assign"
                                 || n.kind == "Call" || n.kind == "Id"
                             ? std::string_view(n.text)
                             : std::string_view()),
              n, "describes itself with the name '" + std::string(d.name) + "'");
        check(d.pos.has_value() == ast::get_source_position(*h).has_value()
                  && (!d.pos || d.pos->begin == ast::get_source_position(*h)->begin),
              n, "describes itself as being elsewhere");
        if (n.kind != "Program" && n.kind != "Function") {
            check(ast::get_surrounding<ast::Program>(*h) == get_if<ast::Program>(p.get_root()), n,
                  "is not in the program");
            check(ast::get_surrounding<ast::Function>(*h) == fn, n,
                  fn ? "is not in its function" : "is in a function");
        }
    }

    void absent(const ast::Some_Node* h, const ref::Node& n, const char* what)
    {
        check(h == nullptr, n, std::string("has a ") + what);
    }
    void node(const ast::Some_Node* h, const ref::Ptr& q, const ref::Node& parent_node,
              const ast::Some_Node* parent)
    {
        if (!q) {
            absent(h, parent_node, "child that is not there");
            return;
        }
        if (!h)
            check(false, *q, "is missing");
        node(*h, h, *q, parent);
    }
    void node(const ast::Some_Node& s, const ast::Some_Node* h, const ref::Node& n, const ast::Some_Node* parent)
    {
        head(h, n, parent);
        std::vector<const ast::Some_Node*> kids;
        for (const auto* k : ast::get_children(s))
            kids.push_back(k);
        const auto arity = [&](std::size_t k) {
            check(kids.size() == k, n, "has " + std::to_string(kids.size()) + " children");
        };
        const auto kid = [&](std::size_t i, const ref::Ptr& q, const ast::Some_Node* accessed) {
            check(kids.at(i) == accessed, n, "child " + std::to_string(i) + " is not what its name says");
            node(kids.at(i), q, n, h);
        };
        if (n.kind == "Type") {
            auto& t = get<ast::Type>(s);
            arity(1);
            static const std::map<std::string, bms::Type_Type> types { { "Void", bms::Type_Type::Void },
                                                                        { "Bool", bms::Type_Type::Bool },
                                                                        { "Int", bms::Type_Type::Int },
                                                                        { "Uint", bms::Type_Type::Uint } };
            check(t.get_type() == types.at(n.text), n, "is another type");
            kid(0, n.kids.empty() ? nullptr : n.kids[0], t.get_width_node());
            if (n.text != "Uint") {
                check(t.concrete_type() == bms::Concrete_Type { t.get_type() }, n, "has another concrete type");
                return;
            }
            if (!inst)
                return;
            const auto it = inst->types.find(&n);
            if (it == inst->types.end())
                return;
            const auto ct = t.concrete_type();
            check(ct.has_value(), n, "has no known width");
            check(vals::ref_type(*ct) == it->second, n,
                  "is " + vals::ref_type(*ct).str() + ", expected " + it->second.str());
            ++typed;
            return;
        }
        if (n.kind == "Const") {
            auto& k = get<ast::Const>(s);
            arity(2);
            check(k.get_name() == n.text, n, "has another name");
            kid(0, n.kids[1], k.get_type_node());
            kid(1, n.kids[2], k.get_initializer_node());
            (fn ? locals : globals)[&n] = h;
            if (n.kids[1])
                check(&k.get_type() == get_if<ast::Type>(k.get_type_node()), n, "has another type");
            if (const auto v = constant_of(n)) {
                const auto& got = ast::get_const_value(s);
                check(got && got->is_known() && vals::ref_val(got->concrete_value()) == *v, n,
                      "does not have the value " + v->str());
                ++valued;
            }
            return;
        }
        if (n.kind == "Let") {
            auto& l = get<ast::Let>(s);
            arity(2);
            check(l.get_name() == n.text, n, "has another name");
            if (fn)
                locals[&n] = h;
            kid(0, n.kids[1], l.get_type_node());
            kid(1, n.kids[2], l.get_initializer_node());
            if (n.kids[1])
                check(&l.get_type() == get_if<ast::Type>(l.get_type_node()), n, "has another type");
            return;
        }
        if (n.kind == "Static_Assert") {
            arity(1);
            kid(0, n.kids[0], get<ast::Static_Assert>(s).get_expression_node());
            return;
        }
        if (n.kind == "If") {
            auto& i = get<ast::If_Statement>(s);
            arity(3);
            kid(0, n.kids[1], i.get_condition_node());
            kid(1, n.kids[2], i.get_if_block_node());
            kid(2, n.kids[3], i.get_else_node());
            check(&i.get_if_block() == get_if<ast::Block_Statement>(kids[1]), n, "has another block");
            return;
        }
        if (n.kind == "While") {
            auto& w = get<ast::While_Statement>(s);
            arity(2);
            kid(0, n.kids[1], w.get_condition_node());
            kid(1, n.kids[2], w.get_block_node());
            check(&w.get_block() == get_if<ast::Block_Statement>(kids[1]), n, "has another block");
            return;
        }
        if (n.kind == "Break" || n.kind == "Continue" || n.kind == "Return") {
            auto& k = get<ast::Control_Statement>(s);
            arity(1);
            check(k.is_break() == (n.kind == "Break") && k.is_continue() == (n.kind == "Continue")
                      && k.is_return() == (n.kind == "Return"),
                  n, "is another kind of control statement");
            check(ast::control_statement_type_code_name(k.get_type())
                      == (n.kind == "Break" ? "break" : n.kind == "Continue" ? "continue" : "return"),
                  n, "has another keyword");
            kid(0, n.kind == "Return" ? n.kids[0] : nullptr, k.get_expression_node());
            return;
        }
        if (n.kind == "Assign") {
            auto& a = get<ast::Assignment>(s);
            arity(1);
            check(a.get_name() == n.text, n, "has another name");
            lookup(a.lookup_result, n);
            kid(0, n.kids[1], a.get_expression_node());
            return;
        }
        if (n.kind == "Block") {
            arity(n.kids.size());
            check(get<ast::Block_Statement>(s).is_empty() == n.kids.empty(), n, "is mistaken about being empty");
            for (std::size_t i = 0; i < kids.size(); ++i)
                node(kids[i], n.kids[i], n, h);
            return;
        }
        if (n.kind == "Call") {
            auto& k = get<ast::Function_Call_Expression>(s);
            std::vector<ref::Ptr> args;
            for (auto& a : n.kids)
                if (a && a->kind != "Annots")
                    args.push_back(a);
            arity(args.size());
            check(k.get_argument_count() == args.size() && k.get_argument_nodes().size() == args.size(), n,
                  "has " + std::to_string(k.get_argument_count()) + " arguments");
            check(k.get_name() == n.text, n, "calls another name");
            check(k.is_statement() == (n.extra == "statement"), n, "is mistaken about being a statement");
            check(k.get_expression_type() == bms::Expression_Type::function_call, n, "is another expression");
            lookup(k.lookup_result, n);
            for (std::size_t i = 0; i < kids.size(); ++i)
                kid(i, args[i], k.get_argument_node(i));
        }
        else if (n.kind == "Conv") {
            auto& k = get<ast::Conversion_Expression>(s);
            arity(2);
            kid(0, n.kids[0], k.get_expression_node());
            kid(1, n.kids[1], k.get_target_type_node());
            check(&k.get_target_type() == get_if<ast::Type>(kids[1]), n, "has another type");
            check(k.get_expression_type() == bms::Expression_Type::conversion, n, "is another expression");
        }
        else if (n.kind == "If_Expr") {
            auto& k = get<ast::If_Expression>(s);
            arity(3);
            kid(0, n.kids[0], k.get_left_node());
            kid(1, n.kids[1], k.get_condition_node());
            kid(2, n.kids[2], k.get_right_node());
            check(k.get_expression_type() == bms::Expression_Type::if_expression, n, "is another expression");
        }
        else if (n.kind == "Binary") {
            auto& k = get<ast::Binary_Expression>(s);
            arity(2);
            check(front::Tree_Builder::op(k.get_op()) == n.text, n, "is another operator");
            check(k.get_expression_type() == vals::lib_op(*ref::op_of(n.text)), n, "is another expression");
            kid(0, n.kids[0], k.get_left_node());
            kid(1, n.kids[1], k.get_right_node());
        }
        else if (n.kind == "Prefix") {
            auto& k = get<ast::Prefix_Expression>(s);
            arity(1);
            check(front::Tree_Builder::op(k.get_op()) == n.text, n, "is another operator");
            check(k.get_expression_type() == vals::lib_unary(n.text[0]), n, "is another expression");
            kid(0, n.kids[0], k.get_expression_node());
        }
        else if (n.kind == "Id") {
            auto& k = get<ast::Id_Expression>(s);
            arity(0);
            check(k.get_identifier() == n.text, n, "is another name");
            check(k.get_expression_type() == bms::Expression_Type::id, n, "is another expression");
            const bool width = depth != Depth::converted && m.sem->introduces_width(n);
            check(k.bit_generic == width, n, width ? "does not introduce a width" : "introduces a width");
            if (width) {
                locals[&n] = h;
                check(!k.lookup_result, n, "introduces a width, but refers to something");
                if (inst) {
                    const auto& v = ast::get_const_value(s);
                    check(v && v->is_known() && v->get_type() == bms::Concrete_Type::Int, n, "is no number");
                    check(vals::ref_val(v->concrete_value()).v == inst->width_of.at(m.sem->entity(n)), n,
                          "is another width");
                }
                return;
            }
            lookup(k.lookup_result, n);
        }
        else if (n.kind == "Literal") {
            auto& k = get<ast::Literal>(s);
            arity(0);
            check(k.get_literal() == n.text, n, "is another literal");
            check(bms::token_type_name(k.get_type()) == m.toks.at(n.tok).kind, n, "is another kind of literal");
            check(k.get_expression_type() == bms::Expression_Type::literal, n, "is another expression");
        }
        else
            throw std::logic_error("walk " + n.kind);
        check(ast::is_expression(s), n, "is no expression");
        const auto e = ast::get_expression_type(s);
        const auto wrong = n.kind == "Binary" || n.kind == "Prefix"
            ? operator_facts(e, n.text, n.kind == "Prefix")
            : other_facts(e, n.kind == "Id" || n.kind == "Literal", n.kind == "Call");
        check(wrong.empty(), n, wrong);
        if (n.kind == "Conv")
            check(bms::expression_type_code_name(e) == "as", n, "is not 'as'");
        if (n.kind == "If_Expr")
            check(bms::expression_type_code_name(e) == "if", n, "is not 'if'");
        check(ast::get_expression_type(s)
                  == bm::visit(
                      []<class T>(const T& x) {
                          if constexpr (T::is_expression)
                              return x.get_expression_type();
                          else
                              return bms::Expression_Type::id;
                      },
                      s),
              n, "has two expression types");
        expression(s, n);
    }

    std::optional<ref::Val> constant_of(const ref::Node& n)
    {
        if (!inst)
            return {};
        for (auto& [e, v] : inst->const_vals)
            if (e->decl == &n)
                return v;
        return {};
    }

    // What analysis knows about an expression: no less and nothing else than what follows from the rules.
    void expression(const ast::Some_Node& s, const ref::Node& n)
    {
        if (!inst)
            return;
        const auto it = inst->infos.find(&n);
        if (it == inst->infos.end())
            return;
        const auto& v = ast::get_const_value(s);
        check(v.has_value(), n, "was not analyzed");
        const auto t = vals::ref_type(v->get_type());
        check(t == it->second.t, n, "has the type " + t.str() + ", expected " + it->second.t.str());
        ++typed;
        if (v->is_known()) {
            ++valued;
            const auto got = vals::ref_val(v->concrete_value());
            check(it->second.v.has_value(), n, "is known to be " + got.str() + ", which depends on how it is called");
            check(got == *it->second.v, n, "is known to be " + got.str() + ", expected " + it->second.v->str());
        }
        else
            check(!it->second.v, n, "is not known to be " + it->second.v.value_or(ref::Val {}).str());
    }

    // A name refers to the declaration in this very copy.
    void lookup(const bms::Optional_Lookup_Result& r, const ref::Node& n)
    {
        if (depth == Depth::converted) {
            check(!r, n, "refers to something before names are looked up");
            return;
        }
        check(bool(r), n, n.text + " is not resolved");
        ++resolved;
        const auto* e = m.sem->entity(n);
        if (!e)
            throw std::logic_error("unresolved in the reference: " + n.text);
        const auto refers = [&](const ast::Some_Node* to, const char* what) {
            const auto* const* got = reinterpret_cast<const ast::Some_Node* const*>(get_if<ast::Some_Node*>(&r));
            check(got && *got == to, n, n.text + " does not refer to the " + what);
        };
        switch (e->k) {
        case Entity::Builtin: {
            const auto* b = get_if<bms::Builtin_Function>(&r);
            check(b && *b == bms::Builtin_Function::assert, n, "does not refer to the built-in function");
            return;
        }
        case Entity::Param: {
            auto* const* q = get_if<bms::Parameter*>(&r);
            check(q != nullptr, n, n.text + " is no parameter");
            const auto ps = fn->get_parameters();
            std::size_t i = 0;
            while (i < ps.size() && &ps[i] != *q)
                ++i;
            check(i < ps.size(), n, n.text + " refers to a parameter of another function or copy");
            check(ps[i].get_name() == n.text, n, n.text + " refers to the parameter " + std::string(ps[i].get_name()));
            return;
        }
        case Entity::Let: refers(locals.at(e->decl), "variable in this copy"); return;
        case Entity::Width: refers(locals.at(e->decl), "width of this copy"); return;
        case Entity::Const: {
            const auto it = locals.find(e->decl);
            if (it != locals.end())
                refers(it->second, "constant in this copy");
            else
                refers(globals.at(e->decl), "global constant");
            return;
        }
        case Entity::Fn: {
            if (depth == Depth::analyzed && inst) {
                const auto t = inst->targets.find(&n);
                if (t != inst->targets.end() && !t->second->widths.empty()) {
                    const auto& f = get<ast::Function>(*globals.at(e->decl));
                    const auto* i = f.find_instance(bms::Widths(std::span<const int>(t->second->widths)));
                    check(i != nullptr, n, "calls an instance that is not there");
                    refers(i->handle, "instance for its arguments");
                    return;
                }
                if (t == inst->targets.end())
                    return; // never looked at
            }
            refers(globals.at(e->decl), "function");
            return;
        }
        }
    }

    void function(const ast::Some_Node* h, const ref::Node& n, const ast::Some_Node* parent, const Inst* i,
                  std::string label)
    {
        ++copies;
        where = std::move(label);
        locals.clear();
        const auto* f = get_if<ast::Function>(h);
        check(f != nullptr, n, "is no function");
        fn = f;
        inst = i;
        head(h, n, parent);
        check(f->get_name() == n.text, n, "has another name");
        const auto ps = f->get_parameters();
        const std::size_t count = n.kids[1] ? n.kids[1]->kids.size() : 0;
        check(ps.size() == count && f->get_parameter_count() == count, n,
              "has " + std::to_string(ps.size()) + " parameters");
        for (std::size_t k = 0; k < count; ++k) {
            auto& q = *n.kids[1]->kids[k];
            check(ps[k].get_name() == q.text, q, "has another name");
            place(ps[k].get_position(), q);
            const auto d = ps[k].get_debug_info();
            check(d.construct == bms::Construct::parameter && d.name == q.text, q, "describes itself as something else");
            node(ps[k].get_type_node(), q.kids[0], q, h);
            check(&ps[k].get_type() == get_if<ast::Type>(ps[k].get_type_node()), q, "has another type");
        }
        node(f->get_return_type_node(), n.kids[2], n, h);
        check(&f->get_return_type() == get_if<ast::Type>(f->get_return_type_node()), n, "has another return type");
        node(f->get_requires_clause_node(), n.kids[3], n, h);
        node(f->get_body_node(), n.kids[4], n, h);
        check(&f->get_body() == get_if<ast::Block_Statement>(f->get_body_node()), n, "has another body");
        fn = nullptr;
        inst = nullptr;
        where.clear();
    }

    void program()
    {
        const auto* root = p.get_root();
        const auto& r = get<ast::Program>(*root);
        head(root, *m.tree, nullptr);
        const auto kids = r.get_children();
        check(kids.size() == m.tree->kids.size(), *m.tree,
              "has " + std::to_string(kids.size()) + " declarations");
        for (std::size_t i = 0; i < kids.size(); ++i)
            globals[m.tree->kids[i].get()] = kids[i];
        for (std::size_t i = 0; i < kids.size(); ++i) {
            auto& d = *m.tree->kids[i];
            if (d.kind != "Function") {
                inst = depth == Depth::analyzed ? m.sem->top_scope() : nullptr;
                node(kids[i], m.tree->kids[i], *m.tree, root);
                inst = nullptr;
                continue;
            }
            auto* meaning = m.sem->function(d.text);
            const auto* f = get_if<ast::Function>(kids[i]);
            check(f != nullptr, d, "is no function");
            check(f->is_generic == (depth != Depth::converted && meaning->generic), d,
                  f->is_generic ? "is bit-generic" : "is not bit-generic");
            function(kids[i], d, root, depth == Depth::analyzed && !meaning->generic ? meaning : nullptr, d.text);
            if (depth != Depth::analyzed)
                check(f->instances.empty(), d, "has instances");
            std::set<std::vector<int>> known;
            for (auto& x : f->instances) {
                const std::vector<int> w(x.widths.begin(), x.widths.end());
                check(known.insert(w).second, d, "has the same instance twice");
                const Inst* mi = nullptr;
                for (auto* y : meaning->instances)
                    if (y->widths == w)
                        mi = y;
                check(mi != nullptr, d, "has an instance that is not called");
                std::string label = d.text + " for";
                for (int k : w)
                    label += " " + std::to_string(k);
                check(!get<ast::Function>(*x.handle).is_generic, d, "its instance is bit-generic");
                check(get<ast::Function>(*x.handle).instances.empty(), d, "its instance has instances");
                function(x.handle, d, root, mi, label);
            }
        }
    }
};

void run(Src& s, Ctx& c, const gen::Prog_Options& o)
{
    auto t = prog::gen_tree(s, o, 0);
    std::unique_ptr<prog::Meaning> m;
    const auto text = prog::named(s, prog::plain(t));
    try {
        m = std::make_unique<prog::Meaning>(text);
    } catch (const ref::Unspecified&) {
        c.discard();
    }
    c.show(text);
    if (!m->sem->ok())
        c.discard();
    const auto go = [&](const bms::Analyzed_Program& p, Depth d, const char* when) {
        Walk w { c, *m, p, d, 0, 0, 0, 0, 0, {}, nullptr, nullptr, {}, {}, {} };
        try {
            w.program();
        } catch (const pbt::Failure& f) {
            c.fail(std::string(when) + ", " + f.msg);
        }
        return w;
    };
    front::Program p(text, front::Stage::parse);
    c.check(p.ok(), "verdict is " + p.verdict());
    // Only converted, then with names, then as a whole.
    go(*p.analyzed, Depth::converted, "before analysis");
    std::pmr::monotonic_buffer_resource scratch;
    c.check(bool(bms::resolve_annotations(*p.analyzed, *p.parsed)), "annotations are not accepted");
    c.check(bool(bms::analyze_name_lookup(*p.analyzed, &scratch)), "names are not accepted");
    go(*p.analyzed, Depth::looked_up, "after the lookup of names");
    if (s.flag())
        c.check(bool(bms::analyze_semantics(*p.analyzed, &scratch)), "not accepted");
    else {
        p.analyzed = std::make_unique<bms::Analyzed_Program>(*p.parsed, "file.bms", &p.memory);
        c.check(bool(bms::analyze(*p.analyzed, *p.parsed, &scratch)), "not accepted");
    }
    const auto w = go(*p.analyzed, Depth::analyzed, "after analysis");
    c.label(w.copies > m->sem->functions().size() ? "instances" : "no instances");
    if (w.resolved && w.typed)
        c.nontrivial(prog::key(t));
}

void programs(Src& s, Ctx& c)
{
    gen::Prog_Options o;
    o.deep_percent = 4;
    o.size = 20 + s.upto(200);
    o.functions = 1 + s.upto(4);
    o.constants = s.upto(5);
    run(s, c, o);
}
void generic(Src& s, Ctx& c)
{
    gen::Prog_Options o;
    o.deep_percent = 4;
    o.size = 30 + s.upto(160);
    o.functions = 2 + s.upto(3);
    o.min_functions = 2;
    o.constants = s.upto(3);
    o.generic_percent = 85;
    o.generic_call_percent = 70;
    run(s, c, o);
}

// Which operators bind tighter than others, against which of them the grammar lets stand next to
// each other without parentheses.
void precedence(Ctx& c)
{
    struct Kind {
        bms::Expression_Type type;
        std::string root, text, op;
        int operands; // that may be replaced
    };
    std::vector<Kind> kinds {
        { bms::Expression_Type::literal, "Literal", "1", "1", 0 },
        { bms::Expression_Type::id, "Id", "a", "a", 0 },
        { bms::Expression_Type::function_call, "Call", "f(a)", "f", 0 },
        { bms::Expression_Type::conversion, "Conv", "@ as Int", "", 1 },
        { bms::Expression_Type::if_expression, "If_Expr", "@ if @ else @", "", 3 },
    };
    for (const char* o : { "-", "+", "!", "~" })
        kinds.push_back({ vals::lib_unary(o[0]), "Prefix", std::string(o) + "@", o, 1 });
    for (const auto& o : ref::op_texts())
        kinds.push_back({ vals::lib_op(*ref::op_of(std::string(o))), "Binary", "@ " + std::string(o) + " @",
                          std::string(o), 2 });
    const auto fill = [](std::string t, int which, const std::string& with) {
        for (int i = 0; t.find('@') != t.npos; ++i)
            t.replace(t.find('@'), 1, i == which ? with : "a");
        return t;
    };
    // Every operand of x may be a y without parentheses.
    const auto nests = [&](const Kind& x, const Kind& y) {
        for (int i = 0; i < x.operands; ++i) {
            const auto text = "const k = " + fill(x.text, i, fill(y.text, -1, "")) + ";";
            try {
                const auto l = ref::lex(text);
                ref::Parser parser(l.tokens);
                const auto tree = parser.program();
                const auto& root = *tree->kids.at(0)->kids.at(2);
                if (root.kind != x.root || (!x.op.empty() && root.text != x.op))
                    return false;
                std::vector<const ref::Node*> operands;
                for (auto& k : root.kids)
                    if (k)
                        operands.push_back(k.get());
                const auto& inner = *operands.at(std::size_t(i));
                if (inner.kind != y.root || (!y.op.empty() && inner.text != y.op))
                    return false;
            } catch (const ref::Syntax_Error&) {
                return false;
            }
        }
        return x.operands != 0;
    };
    for (auto& x : kinds)
        for (auto& y : kinds) {
            if (x.operands == 0 && y.operands == 0)
                continue; // neither contains the other
            if ((x.root == "Conv" && y.root == "Binary") || (x.root == "Binary" && y.root == "Conv"))
                continue; // ordered, but always in need of parentheses
            const auto got = bms::compare_precedence(x.type, y.type);
            const bool in = nests(x, y), out = nests(y, x);
            const auto say = [](auto o) {
                return o < 0 ? "less" : o > 0 ? "greater" : o == 0 ? "equivalent" : "unordered";
            };
            const auto expected = in && !out ? std::partial_ordering::less
                : out && !in                 ? std::partial_ordering::greater
                                             : std::partial_ordering::unordered;
            c.check(got == expected, "compare_precedence(" + x.text + ", " + y.text + ") is " + say(got) + ", not "
                        + say(expected));
        }
    c.nontrivial("precedence");
}

} // namespace

pbt::Property pbt::make_property()
{
    Property p;
    p.id = "C27";
    p.rule = "Generated accepted programs, half of them mostly of bit-generic functions. The library's tree is walked "
             "together with the tree of an independent parser, before analysis, after the lookup of "
             "names, and after analysis (as a whole or in stages): the program and every instance of every "
             "bit-generic function. Compared are kinds, names, operators, literals, order, accessors against "
             "children, positions and self-descriptions; the parent and the surrounding function of every "
             "node; what every name refers to (in this copy; for calls, the instance for the types of the "
             "arguments); the concrete type of every type, the type of every analyzed expression, and that "
             "its value, if it is said to be known, is what the reference computes. "
             "Non-trivial: names were resolved and types compared; distinct by syntax tree.";
    p.targets = { { "programs", programs, 5000, 150000 }, { "generic", generic, 5000, 150000 } };
    p.fixed = { { "precedence", precedence } };
    return p;
}
