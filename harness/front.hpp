// Thin driver over the public API of the BMS front end.
#ifndef VERIF_FRONT_HPP
#define VERIF_FRONT_HPP
#include <memory>
#include <memory_resource>
#include <optional>
#include <string>
#include <vector>

#include "bms/analysis_error.hpp"
#include "bms/analyze.hpp"
#include "bms/analyzed_program.hpp"
#include "bms/ast.hpp"
#include "bms/concrete_value.hpp"
#include "bms/evaluation/evaluation_error.hpp"
#include "bms/parsing/astp.hpp"
#include "bms/parsing/parse.hpp"
#include "bms/parsing/parse_error.hpp"
#include "bms/tokenization/token.hpp"
#include "bms/tokenization/token_type.hpp"
#include "bms/tokenization/tokenize.hpp"
#include "bms/tokenization/tokenize_error.hpp"
#include "bms/vm/execution_error.hpp"
#include "bms/vm/vm.hpp"

namespace front {
namespace bm = bit_manipulation;
namespace bms = bit_manipulation::bms;
using bm::get;
using bm::get_if;
using bm::holds_alternative;
using bm::visit;

enum class Stage { tokenize, parse, analyze, done };

/// A program taken as far through the pipeline as it goes.
struct Program {
    std::pmr::unsynchronized_pool_resource memory;
    std::vector<char> source_storage; // exactly sized, so over-reads are caught
    std::string_view source;
    std::pmr::vector<bms::Token> tokens { &memory };
    std::unique_ptr<bms::Parsed_Program> parsed;
    std::unique_ptr<bms::Analyzed_Program> analyzed;
    Stage failed_at = Stage::done;
    std::optional<bms::Tokenize_Error> tokenize_error;
    std::optional<bms::Parse_Error> parse_error;
    std::optional<bms::Analysis_Error> analysis_error;

    explicit Program(std::string_view text, Stage until = Stage::done, std::string_view name = "file.bms")
        : source_storage(text.begin(), text.end())
    {
        source_storage.shrink_to_fit();
        source = { source_storage.data(), source_storage.size() };
        if (auto r = bms::tokenize(tokens, source); !r) {
            failed_at = Stage::tokenize;
            tokenize_error = r.error();
            return;
        }
        if (until == Stage::tokenize)
            return;
        parsed = std::make_unique<bms::Parsed_Program>(source, &memory);
        if (auto r = bms::parse(*parsed, tokens); !r) {
            failed_at = Stage::parse;
            parse_error = r.error();
            return;
        }
        analyzed = std::make_unique<bms::Analyzed_Program>(*parsed, name, &memory);
        if (until == Stage::parse)
            return;
        if (auto r = bms::analyze(*analyzed, *parsed, &memory); !r) {
            failed_at = Stage::analyze;
            analysis_error = r.error();
        }
    }

    bool ok() const { return failed_at == Stage::done; }

    /// "ok", "tokenize:<code>", "parse", "analysis:<code>[:<evaluation or execution code>]"
    std::string verdict() const
    {
        switch (failed_at) {
        case Stage::tokenize:
            return "tokenize:" + std::string(bms::name_of(tokenize_error->code));
        case Stage::parse: return "parse";
        case Stage::analyze: {
            const auto code = analysis_error->code();
            std::string r = "analysis:" + std::string(bms::analysis_error_code_name(code));
            if (code == bms::Analysis_Error_Code::evaluation_error)
                r += ":"
                    + std::string(bms::evaluation_error_code_name(analysis_error->evaluation_error()));
            if (code == bms::Analysis_Error_Code::execution_error)
                r += ":"
                    + std::string(bms::execution_error_code_name(analysis_error->execution_error()));
            return r;
        }
        default: return "ok";
        }
    }

    std::optional<bms::Concrete_Value> constant(std::string_view name) const
    {
        auto r = analyzed->find_global_constant(name);
        if (!r || !(*r)->const_value() || !(*r)->const_value()->is_known())
            return {};
        return (*r)->const_value()->concrete_value();
    }
};

inline std::string show(unsigned __int128 v)
{
    std::string r;
    do
        r.insert(0, 1, char('0' + int(v % 10)));
    while ((v /= 10) != 0);
    return r;
}
inline std::string show_signed(__int128 v)
{
    return v < 0 ? "-" + show(-(unsigned __int128)v) : show((unsigned __int128)v);
}
inline std::string show(const bms::Concrete_Value& v)
{
    switch (v.type.type()) {
    case bms::Type_Type::Void: return "Void";
    case bms::Type_Type::Bool: return v.int_value ? "true" : "false";
    case bms::Type_Type::Int: return show_signed(v.int_value) + ":Int";
    default:
        return show((unsigned __int128)v.int_value) + ":Uint(" + std::to_string(v.type.width())
            + ")";
    }
}

} // namespace front
#endif
