// The library's syntax tree in the form of the reference tree.
#ifndef VERIF_LIB_TREE_HPP
#define VERIF_LIB_TREE_HPP
#include <stdexcept>

#include "front.hpp"
#include "ref_parse.hpp"

namespace front {

struct Tree_Builder {
    const bms::Parsed_Program& program;
    std::map<std::size_t, std::size_t> tok_at; // byte offset -> index among non-comment tokens
    std::vector<std::string> op_text;

    Tree_Builder(const bms::Parsed_Program& p, std::span<const bms::Token> tokens)
        : program(p)
    {
        std::size_t n = 0;
        for (auto& t : tokens)
            if (!bms::is_comment(t.type))
                tok_at[t.pos.begin] = n++;
    }

    std::size_t tok(const bm::Local_Source_Span& pos) const
    {
        auto it = tok_at.find(pos.begin);
        return it == tok_at.end() ? 999999 : it->second;
    }
    static std::string op(bms::Token_Type t)
    {
        const std::string name(bms::token_type_name(t));
        for (auto& [text, kind] : ref::punctuation())
            if (kind == name)
                return text;
        return "?" + name;
    }
    ref::Ptr build(bms::astp::Handle h) const
    {
        namespace a = bms::astp;
        if (h == a::Handle::null)
            return nullptr;
        auto& n = program.get_node(h);
        auto kids = [&](std::span<const a::Handle> hs) {
            std::vector<ref::Ptr> r;
            for (auto k : hs)
                r.push_back(build(k));
            return r;
        };
        auto r = visit(
            [&]<class T>(const T& x) -> ref::Ptr {
                auto make = [&](std::string kind, std::string_view text) {
                    return ref::node(kind, std::string(text), kids(x.get_children()), tok(x.pos));
                };
                if constexpr (std::is_same_v<T, a::Program>)
                    return make("Program", "");
                else if constexpr (std::is_same_v<T, a::Function>)
                    return make("Function", x.name);
                else if constexpr (std::is_same_v<T, a::Parameter_List>)
                    return make("Params", "");
                else if constexpr (std::is_same_v<T, a::Parameter>)
                    return make("Param", x.name);
                else if constexpr (std::is_same_v<T, a::Type>)
                    return make("Type",
                                x.type == bms::Type_Type::Void       ? "Void"
                                    : x.type == bms::Type_Type::Bool ? "Bool"
                                    : x.type == bms::Type_Type::Int  ? "Int"
                                                                     : "Uint");
                else if constexpr (std::is_same_v<T, a::Const>)
                    return make("Const", x.name);
                else if constexpr (std::is_same_v<T, a::Let>)
                    return make("Let", x.name);
                else if constexpr (std::is_same_v<T, a::Static_Assert>)
                    return make("Static_Assert", "");
                else if constexpr (std::is_same_v<T, a::Annotation_List>)
                    return make("Annots", "");
                else if constexpr (std::is_same_v<T, a::Annotation>)
                    return make("Annot", x.name);
                else if constexpr (std::is_same_v<T, a::Annotation_Argument>) {
                    auto r = make("Arg", x.key);
                    r->extra = std::string(bms::token_type_name(x.value_type)) + ":"
                        + std::string(x.value);
                    return r;
                }
                else if constexpr (std::is_same_v<T, a::If_Statement>)
                    return make("If", "");
                else if constexpr (std::is_same_v<T, a::While_Statement>)
                    return make("While", "");
                else if constexpr (std::is_same_v<T, a::Break>)
                    return make("Break", "");
                else if constexpr (std::is_same_v<T, a::Continue>)
                    return make("Continue", "");
                else if constexpr (std::is_same_v<T, a::Return_Statement>)
                    return make("Return", "");
                else if constexpr (std::is_same_v<T, a::Assignment>)
                    return make("Assign", x.name);
                else if constexpr (std::is_same_v<T, a::Block_Statement>)
                    return make("Block", "");
                else if constexpr (std::is_same_v<T, a::Conversion_Expression>)
                    return make("Conv", "");
                else if constexpr (std::is_same_v<T, a::If_Expression>)
                    return make("If_Expr", "");
                else if constexpr (std::is_same_v<T, a::Binary_Expression>)
                    return make("Binary", op(x.op));
                else if constexpr (std::is_same_v<T, a::Prefix_Expression>)
                    return make("Prefix", op(x.op));
                else if constexpr (std::is_same_v<T, a::Function_Call_Expression>) {
                    auto r = make("Call", x.function);
                    if (x.is_statement)
                        r->extra = "statement";
                    return r;
                }
                else if constexpr (std::is_same_v<T, a::Id_Expression>)
                    return make("Id", x.identifier);
                else {
                    static_assert(std::is_same_v<T, a::Literal>);
                    return make("Literal", x.literal);
                }
            },
            n);
        return r;
    }
    ref::Ptr build() const { return build(program.get_root_handle()); }
};

} // namespace front
#endif
