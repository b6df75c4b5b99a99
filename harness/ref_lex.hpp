// Reference lexer for BMS, written from README, grammar.ebnf and the token list; a table of
// lexical rules from which the longest match is taken.
#ifndef VERIF_REF_LEX_HPP
#define VERIF_REF_LEX_HPP
#include <map>
#include <string>
#include <string_view>
#include <vector>

namespace ref {

struct Tok {
    std::string kind; // token type name as in token_type.hpp
    std::size_t begin = 0, length = 0, line = 0, column = 0;
    std::string text;
    bool is_comment() const { return kind == "line_comment" || kind == "block_comment"; }
};

struct Lex_Result {
    std::vector<Tok> tokens;
    bool ok = true;
    std::string error; // error code name
    std::size_t error_at = 0;
    std::size_t error_line = 0, error_column = 0;
};

inline bool ws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
inline bool digit(char c) { return c >= '0' && c <= '9'; }
inline bool ident_start(char c)
{
    return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
}
inline bool ident_char(char c) { return ident_start(c) || digit(c); }
inline bool in(char c, std::string_view s) { return s.find(c) != std::string_view::npos; }

inline const std::vector<std::pair<std::string, std::string>>& punctuation()
{
    static const std::vector<std::pair<std::string, std::string>> p {
        { "(", "left_parenthesis" }, { ")", "right_parenthesis" },
        { "{", "left_brace" },       { "}", "right_brace" },
        { "=", "assign" },           { "==", "equals" },
        { "!=", "not_equals" },      { "+", "plus" },
        { "-", "minus" },            { "*", "multiplication" },
        { "/", "division" },         { "%", "remainder" },
        { "<", "less_than" },        { ">", "greater_than" },
        { "<=", "less_or_equal" },   { ">=", "greater_or_equal" },
        { "<<", "shift_left" },      { ">>", "shift_right" },
        { "&", "bitwise_and" },      { "|", "bitwise_or" },
        { "~", "bitwise_not" },      { "^", "bitwise_xor" },
        { "&&", "logical_and" },     { "||", "logical_or" },
        { "!", "logical_not" },      { "->", "right_arrow" },
        { "=>", "double_right_arrow" }, { ".", "dot" },
        { ":", "colon" },            { ",", "comma" },
        { "@", "at" },               { ";", "semicolon" },
    };
    return p;
}

inline const std::vector<std::pair<std::string, std::string>>& keywords()
{
    static const std::vector<std::pair<std::string, std::string>> k {
        { "as", "keyword_as" },         { "let", "keyword_let" },
        { "const", "keyword_const" },   { "function", "keyword_function" },
        { "while", "keyword_while" },   { "if", "keyword_if" },
        { "else", "keyword_else" },     { "Uint", "keyword_uint" },
        { "Int", "keyword_int" },       { "Bool", "keyword_bool" },
        { "Void", "keyword_void" },     { "requires", "keyword_requires" },
        { "return", "keyword_return" }, { "break", "keyword_break" },
        { "continue", "keyword_continue" }, { "true", "keyword_true" },
        { "false", "keyword_false" },   { "static_assert", "keyword_static_assert" },
    };
    return k;
}

inline Lex_Result lex(std::string_view s)
{
    Lex_Result r;
    // Columns of every offset, by definition: a tab is four columns wide, a carriage return goes
    // back to the first column, a newline starts a new line.
    std::vector<std::size_t> line(s.size() + 1), col(s.size() + 1);
    for (std::size_t i = 0; i < s.size(); ++i) {
        line[i + 1] = line[i] + (s[i] == '\n');
        col[i + 1] = s[i] == '\n' || s[i] == '\r' ? 0 : col[i] + (s[i] == '\t' ? 4 : 1);
    }
    std::size_t i = 0;
    auto bad = [&](std::string code, std::size_t at) {
        r.ok = false;
        r.error = code;
        r.error_at = at;
        r.error_line = line[i];
        // the rule for errors inside a token: columns of the token's own characters
        r.error_column = col[i] + (at - i);
        return r;
    };
    while (i < s.size()) {
        if (ws(s[i])) {
            ++i;
            continue;
        }
        std::string kind;
        std::size_t n = 0;
        auto rule = [&](std::size_t len, std::string_view k) {
            if (len > n) {
                n = len;
                kind = k;
            }
        };
        const auto rest = s.substr(i);
        if (rest.substr(0, 2) == "//") {
            std::size_t j = 2;
            while (j < rest.size() && rest[j] != '\n')
                ++j;
            rule(j, "line_comment");
        }
        else if (rest.substr(0, 2) == "/*") {
            std::size_t j = 2;
            while (j < rest.size() && !(rest[j] == '*' && j + 1 < rest.size() && rest[j + 1] == '/'))
                ++j;
            if (j >= rest.size())
                return bad("unterminated_comment", i);
            rule(j + 2, "block_comment");
        }
        else if (rest[0] == '"') {
            std::size_t j = 1;
            while (j < rest.size() && rest[j] != '"')
                j += rest[j] == '\\' ? 2 : 1;
            if (j >= rest.size())
                return bad("unterminated_string", i);
            rule(j + 1, "string_literal");
        }
        else if (digit(rest[0])) {
            auto run = [&](std::size_t from, std::string_view set) {
                std::size_t j = from;
                while (j < rest.size() && in(rest[j], set))
                    ++j;
                return j;
            };
            if (rest.substr(0, 2) == "0x" || rest.substr(0, 2) == "0b") {
                const bool hex = rest[1] == 'x';
                const auto e = run(2, hex ? "0123456789abcdefABCDEF" : "01");
                if (e == 2)
                    return bad("no_digits_following_integer_prefix", i + 2);
                rule(e, hex ? "hexadecimal_literal" : "binary_literal");
            }
            else if (rest[0] == '0') {
                const auto e = run(0, "01234567");
                rule(e, e == 1 ? "decimal_literal" : "octal_literal");
            }
            else
                rule(run(0, "0123456789"), "decimal_literal");
            if (n < rest.size() && ident_char(rest[n]))
                return bad("integer_suffix", i + n);
        }
        else if (ident_start(rest[0])) {
            std::size_t j = 0;
            while (j < rest.size() && ident_char(rest[j]))
                ++j;
            kind = "identifier";
            n = j;
            for (auto& [k, v] : keywords())
                if (rest.substr(0, j) == k)
                    kind = v;
        }
        else {
            for (auto& [p, k] : punctuation())
                if (rest.substr(0, p.size()) == p)
                    rule(p.size(), k);
        }
        if (n == 0)
            return bad("illegal_character", i);
        r.tokens.push_back({ kind, i, n, line[i], col[i], std::string(s.substr(i, n)) });
        i += n;
    }
    return r;
}

} // namespace ref
#endif
