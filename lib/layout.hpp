// Ways to lay out a program: what may stand between its tokens and its statements.
#pragma once

#include "lang.hpp"
#include "pool.hpp"

namespace layout {

/// programs to lay out: texts of statements
inline const std::vector<std::vector<std::string>>& programs() {
    static const std::vector<std::vector<std::string>> r = [] {
        std::vector<std::vector<std::string>> v;
        // every form alone (they parse, not all are valid) ...
        for (auto& f : lang::forms()) v.push_back({ f });
        // ... and every statement of the pool after declarations
        for (auto& s : pool::statements()) v.push_back({ "qubit[3] r", "qubit x; bit b", s });
        for (auto& s : pool::more()) v.push_back({ "qubit q; qubit[3] r; bit[3] c", "bit b", s });
        v.push_back({ "qubit[2] q", "bit[2] b", "H q[0]", "ctrl.X q[0], q[1]", "b = measure q" });
        v.push_back({ "X foo", "qubit q", "foo q", "X q", "reset 1" });
        v.push_back({ "X q [ 1 + 2 * f ( 3 , - 4 ) : ~ 5 , ! true ? a : b ] , ( 1.5 )" });
        return v;
    }();
    return r;
}

inline std::vector<std::string> tokens(const std::string& s) {
    std::vector<std::string> r;
    for (auto& t : ref::Lexer{}.run(s).tokens) {
        if (t.type != "eof") r.push_back(t.text);
    }
    return r;
}

/// fillers of the gaps between two tokens of a statement
inline const std::vector<std::string>& gaps() {
    static const std::vector<std::string> r{ "", " ", "\t", "  \t ", "/**/", "/* c ; X q */", "/*\n*/", " /* a\n\n b */ ", "/***/ /*//*/", "/* \xc3\xa9 */", "/*'''*/" };
    return r;
}

/// and of those between statements
inline const std::vector<std::string>& separators() {
    static const std::vector<std::string> r{ "\n", ";", "\r\n", ";;", "\n\n\n", " ; ", "\t\n  ", "// c\n", " // '''/* ; \r\n", "/* c */;", ";/*\n*/", "\n;\n;", "; // \xc3\xa9\n/* x */\n\t" };
    return r;
}

/// tokens and, after each, which gap it is: '.' within a statement, ';' between statements, 'v' after "version"
struct Program {
    std::vector<std::string> tokens;
    std::string kinds;
};

inline Program program(const std::vector<std::string>& statements) {
    Program p;
    p.tokens = { "version", "3" };
    p.kinds = "v";
    for (auto& s : statements) {
        char gap = ';';
        for (auto& t : tokens(s)) {
            if (t == ";") {
                gap = ';';
                continue;
            }
            p.tokens.push_back(t);
            p.kinds += gap;
            gap = '.';
        }
    }
    return p;
}

inline std::string text(const Program& p, const std::vector<std::string>& fill, const std::string& before = "", const std::string& after = "") {
    std::string r = before;
    for (size_t k = 0; k < p.tokens.size(); ++k) {
        if (k) r += fill[k - 1];
        r += p.tokens[k];
    }
    return r + after;
}

/// hands out all layouts: every gap alone, neighbouring and other pairs of gaps, all gaps at once
inline void all(bool thorough, const Program& p, const std::function<void(const std::string&)>& f) {
    std::vector<std::string> base;
    for (char k : p.kinds) base.push_back(k == ';' ? "\n" : " ");
    f(text(p, base));
    const auto& in = gaps();
    const auto& between = separators();
    auto choices = [&](size_t k) -> const std::vector<std::string>& { return p.kinds[k] == ';' ? between : in; };
    const size_t n = base.size();
    for (size_t k = 0; k < n; ++k) {
        for (auto& x : choices(k)) {
            auto b = base;
            b[k] = x;
            f(text(p, b));
        }
    }
    for (auto& before : { "\n", ";", " ", "\t\n", "// c\n", "/* \n */", ";\n;", "/**//**/\r\n" }) {
        f(text(p, base, before));
        for (auto& x : { "", "\t", "/*\n*/" }) {
            auto b = base;
            for (size_t k = 0; k < n; ++k) {
                if (p.kinds[k] == '.') b[k] = x;
            }
            f(text(p, b, before));
        }
    }
    for (auto& after : { "\n", ";", " ", "\t", "\r\n", ";;\n", "// c", "// c\n", "/* c */", "/*\n*/ ;", "\n\n  ", " //" }) f(text(p, base, "", after));
    // all gaps at once
    for (auto& x : in) {
        for (auto& y : between) {
            auto b = base;
            for (size_t k = 0; k < n; ++k) b[k] = p.kinds[k] == ';' ? y : p.kinds[k] == 'v' ? " " : x;
            f(text(p, b));
        }
    }
    // pairs of gaps
    const std::vector<std::string> few_in{ "", "\t ", "/*\n*/", "/* x */ " }, few_between{ ";", "\r\n", ";\n /**/", "// c\n\n" };
    for (size_t a = 0; a < n; ++a) {
        for (size_t c = a + 1; c < (thorough ? n : std::min(n, a + 3)); ++c) {
            for (auto& x : p.kinds[a] == ';' ? few_between : few_in) {
                for (auto& y : p.kinds[c] == ';' ? few_between : few_in) {
                    auto b = base;
                    b[a] = x;
                    b[c] = y;
                    f(text(p, b));
                }
            }
        }
    }
}

}  // namespace layout
