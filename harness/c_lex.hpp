// Tokens of the C and C++ subset that code is generated in, and what kind each of them is.
#ifndef VERIF_C_LEX_HPP
#define VERIF_C_LEX_HPP
#include <set>
#include <string>
#include <vector>

namespace clex {

struct Token {
    std::string text, kind; // kind: identifier keyword type number boolean bracket punctuation operation
    std::size_t at;
};

/// False when the text has something that is no token.
inline bool tokens(const std::string& s, bool cpp, bool c23, std::vector<Token>& out)
{
    static const std::set<std::string> keywords { "if", "else", "while", "break", "continue", "return", "void", "int",
                                                  "unsigned", "_BitInt", "constexpr" };
    static const std::set<std::string> types { "uint8_t", "uint16_t", "uint32_t", "uint64_t" };
    static const std::set<std::string> ops { "+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "<<", ">>",
                                             "&", "|", "^", "&&", "||", "!", "~", "=", "?", ":", "::" };
    auto word = [](char c) { return isalnum((unsigned char)c) || c == '_'; };
    for (std::size_t i = 0; i < s.size();) {
        if (s[i] == ' ' || s[i] == '\n' || s[i] == '\t') {
            ++i;
            continue;
        }
        std::size_t n = 1;
        std::string kind;
        if (word(s[i])) {
            while (i + n < s.size() && word(s[i + n]))
                ++n;
            const auto w = s.substr(i, n);
            kind = isdigit((unsigned char)w[0])          ? "number"
                : w == "true" || w == "false"            ? "boolean"
                : keywords.count(w)                      ? "keyword"
                : w == (cpp || c23 ? "bool" : "_Bool")   ? "keyword"
                : types.count(w) || (cpp && w == "std")  ? "type"
                                                         : "identifier";
        }
        else if (std::string_view("(){}").find(s[i]) != std::string_view::npos)
            kind = "bracket";
        else if (s[i] == ';' || s[i] == ',')
            kind = "punctuation";
        else {
            if (i + 1 < s.size() && ops.count(s.substr(i, 2)))
                n = 2;
            if (!ops.count(s.substr(i, n)))
                return false;
            kind = "operation";
        }
        out.push_back({ s.substr(i, n), kind, i });
        i += n;
    }
    return true;
}

} // namespace clex
#endif
