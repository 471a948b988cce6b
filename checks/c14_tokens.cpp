// C14: text is split into tokens by longest match, and literals keep their value.
// Explored: all strings up to a length over alphabets of characters and fragments, through the lexer alone and as part of
// a program; all spellings of keywords by case; literals around every bound.
#include "CqasmLexer.h"
#include "lang.hpp"

namespace {

struct Refused {};

struct Listener : antlr4::BaseErrorListener {
    bool found = false;
    size_t line = 0, column = 0;
    void syntaxError(antlr4::Recognizer*, antlr4::Token*, size_t l, size_t c, const std::string&, std::exception_ptr) override {
        line = l;
        column = c + 1;
        found = true;
        throw Refused{};
    }
};

/// what the real lexer calls a kind of token, learned at its first use
std::map<std::string, size_t> kinds;
std::map<size_t, std::string> names;

void learn(const std::string& kind, size_t type) {
    auto [a, fresh] = kinds.emplace(kind, type);
    auto [b, fresh2] = names.emplace(type, kind);
    MC_REQUIRE(a->second == type && b->second == kind, "a token of kind " + mc::quote(kind) + " is taken for one of kind " + mc::quote(b->second));
}

void learn_all() {
    const std::vector<std::pair<std::string, std::string>> all{ { "id", "x" }, { "int", "1" }, { "float", "1.5" }, { "bool", "true" }, { "raw", "'''x'''" }, { "newline", "\n" } };
    for (auto& [k, s] : all) {
        antlr4::ANTLRInputStream is{ s };
        CqasmLexer lexer{ &is };
        learn(k, lexer.nextToken()->getType());
    }
    for (auto& s : lang::tokens()) {
        const auto l = ref::Lexer{}.run(s);
        antlr4::ANTLRInputStream is{ s };
        CqasmLexer lexer{ &is };
        learn(l.tokens.at(0).type, lexer.nextToken()->getType());
    }
}

void check(mc::Run& run, const std::string& text) {
    const auto f = space::unpack(text);
    if (f[0] == "parse") {
        lang::parse(run, f[1]);
        return;
    }
    if (kinds.empty()) learn_all();
    const auto m = ref::Lexer{}.run(f[1]);
    antlr4::ANTLRInputStream is{ f[1] };
    CqasmLexer lexer{ &is };
    Listener listener;
    lexer.removeErrorListeners();
    lexer.addErrorListener(&listener);
    std::string state;
    for (size_t k = 0;; ++k) {
        std::unique_ptr<antlr4::Token> t;
        try {
            t = lexer.nextToken();
        } catch (const Refused&) {
        }
        run.step();
        if (listener.found) {
            MC_REQUIRE(m.problem, "a character is refused at " + std::to_string(listener.line) + ":" + std::to_string(listener.column));
            mc::same("the place of the error", std::to_string(m.problem->loc.l1) + ":" + std::to_string(m.problem->loc.c1), std::to_string(listener.line) + ":" + std::to_string(listener.column));
            mc::same_value("tokens before the error", static_cast<long long>(m.tokens.size()), static_cast<long long>(k));
            break;
        }
        if (k >= m.tokens.size()) mc::fail("expected an error at " + m.problem->loc.text() + ", got the token " + mc::quote(t->getText()));
        const auto& e = m.tokens[k];
        if (e.type == "eof") {
            MC_REQUIRE(t->getType() == antlr4::Token::EOF, "a token after the last: " + mc::quote(t->getText()));
            break;
        }
        MC_REQUIRE(t->getType() != antlr4::Token::EOF, "the end comes before the token " + mc::quote(e.text));
        mc::same("token " + std::to_string(k + 1), e.text, t->getText());
        learn(e.type, t->getType());
        mc::same("the place of token " + std::to_string(k + 1), e.loc.text(),
            ref::Loc{ true, static_cast<uint32_t>(t->getLine()), static_cast<uint32_t>(t->getCharPositionInLine() + 1), e.loc.l2, e.loc.c2 }.text());
        state += e.type + " ";
    }
    run.visit(state);
}

void enumerate(mc::Run& run) {
    auto lex = [&](const std::string& s) { run.one(space::pack({ "lex", s })); };
    auto parse = [&](const std::string& s) { run.one(space::pack({ "parse", s })); };
    std::vector<std::string> chars = space::letters("ae_10. \t\n\r/*'=<>&|^!~-+:;,[]()%?Zz9\"#$@\\{}`");
    for (auto& x : { std::string("\xc3\xa9"), std::string("\xe2\x82\xac"), std::string("\xf0\x9f\x98\x80"), std::string(1, '\0'), std::string("\x7f"), std::string("\x01"), std::string("\f"), std::string("\xc2\xa0") }) chars.push_back(x);
    for (int c = 0; c < 128; ++c) {
        const std::string s(1, static_cast<char>(c));
        for (auto* before : { "", "a", "1", "1.", "'", "/", "version ", "version", " ", "<", "true" }) {
            for (auto* after : { "", "a", "1", ".5", " ", "=", "\n", "'''" }) lex(before + s + after);
        }
        parse("version 3" + s + "X q");
        parse("version 3;X q" + s);
        parse("version 3;X" + s + "q");
        parse("version 3;X q" + s + "\nH q");
        parse("version 3;// " + s + "\nH q");
        parse("version 3;/* " + s + "*/H q");
        parse("version" + s + "3");
        parse(s + "version 3");
    }
    for (size_t n = 0; n <= 3; ++n) space::words(chars, n, lex);
    if (run.thorough) space::words(space::letters("ae1. \n/*'=<>&|^!~-+;(?\""), 4, lex);
    auto over = [&](const std::vector<std::string>& alphabet, size_t longest) {
        for (size_t n = 0; n <= longest; ++n) space::words(alphabet, n, lex);
    };
    over(space::letters("/*\n a'"), run.thorough ? 7 : 6);
    over(space::letters("1.e+-0aE"), run.thorough ? 6 : 5);
    over(space::letters("'a\n/ "), run.thorough ? 8 : 6);
    over(space::letters("<>=!&|^*/~"), run.thorough ? 5 : 4);
    over({ "version", "3", ".", "0", " ", "\n", "v", "\t", "//", "/*", "*/", "bit" }, run.thorough ? 5 : 4);
    over({ "'''", "'", "\\", "\"", "\xc3\xa9", "\r\n", "x" }, run.thorough ? 7 : 5);
    over({ "\r", "\n", " ", "a", "//", "\r\n" }, run.thorough ? 7 : 5);
    // every token far to the right and far down
    for (auto& t : lang::tokens()) {
        for (size_t n : { 100, 127, 128, 200, 255, 256, 257, 1000, 32768, 65536, 70000 }) {
            const std::string blanks(n, ' '), lines(n, '\n');
            parse("version 3;X q," + blanks + t);
            parse("version 3;X q" + blanks + t + " q");
            parse("version 3;X(" + blanks + t + ") q");
            parse("version 3;" + lines + t + " q");
            parse("version 3;" + lines + "X(" + t + ") q");
        }
    }
    // keywords: every spelling by case, and with a character more or less
    std::vector<std::string> words;
    for (auto& t : lang::tokens()) {
        if (std::isalpha(t[0]) && t.size() > 1) words.push_back(t);
    }
    for (auto& w : words) {
        for (unsigned bits = 0; bits < (1u << w.size()); ++bits) {
            std::string s = w;
            for (size_t k = 0; k < w.size(); ++k) {
                if (bits >> k & 1) s[k] = static_cast<char>(std::toupper(s[k]));
            }
            lex(s);
            if (bits == 0 || (bits & (bits - 1)) == 0 || bits + 1 == (1u << w.size())) {
                parse("version 3;qubit " + s);
                parse("version 3;" + s + " q");
                parse("version 3;X " + s);
                parse("version 3;" + s + " 3");
                parse(s + " 3;X q");
            }
        }
        for (size_t k = 0; k <= w.size(); ++k) {
            lex(w.substr(0, k));
            lex(w.substr(k));
            for (auto& c : chars) lex(w.substr(0, k) + c + w.substr(k));
        }
        for (auto& x : words) {
            lex(w + x);
            lex(w + " " + x);
            lex(w + "/**/" + x);
            lex(w + "_" + x);
        }
    }
    // literals
    std::set<std::string> ints{ "0", "00", "007", "9", "10", "99999999999999999999", "18446744073709551615", "18446744073709551616", "18446744073709551617", "36893488147419103232", "4294967295", "4294967296" };
    for (int k = 0; k <= 66; ++k) {
        const unsigned __int128 p = static_cast<unsigned __int128>(1) << k;
        for (int d = -3; d <= 3; ++d) {
            auto v = p + static_cast<unsigned __int128>(d);
            if (k < 3 && d < 0) continue;
            std::string s;
            for (; v; v /= 10) s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
            ints.insert(s.empty() ? "0" : s);
        }
    }
    for (size_t n = 1; n <= 40; ++n) {
        ints.insert(std::string(n, '9'));
        ints.insert("1" + std::string(n, '0'));
        ints.insert(std::string(n, '0') + "5");
        ints.insert(std::string(n, '0') + "9223372036854775807");
        ints.insert(std::string(n, '0') + "9223372036854775808");
        ints.insert("9223372036854775807" + std::string(n, '0'));
    }
    for (size_t n : { 100, 400, 1000 }) ints.insert(std::string(n, '1'));
    for (auto& i : ints) {
        parse("version 3;X " + i);
        parse("version 3;Rx(-" + i + ") q");
        parse("version 3;qubit[" + i + "] q");
        parse("version 3;bit[" + i + "] q");
        parse("version 3;X q[0:" + i + "]");
        parse("version 3;X q[" + i + ", " + i + "1]\n");
        parse("version " + i + ";X q");
        parse("version 3." + i + ";X q");
        parse("version " + i + "." + i + ";X q");
        parse("version 3;X q\n;H r  [" + i + "]; X " + i + " + " + i);
    }
    // whole parts, fractions and exponents of floats
    const std::vector<std::string> wholes{ "", "0", "1", "00", "12", "9007199254740993", "123456789012345678901234567890", "17976931348623157" };
    const std::vector<std::string> fractions{ ".", ".0", ".5", ".1", ".00000000000000000000001", ".999999999999999999999999", ".7976931348623157", ".7976931348623158", ".7976931348623159" };
    std::vector<std::string> exponents{ "", "e0", "E0", "e+0", "e-0", "e1", "E+1", "e-1", "e007", "e22", "e23", "e-22", "e300", "e-300", "e292", "e291", "e308", "e309", "e310", "e1000", "e99999999999999999999", "e-350", "e-1000", "e-99999999999999999999", "e", "e+", "E-", "e.5", "e5.5", "e5e5", "f", "d0" };
    for (auto& w : wholes) {
        for (auto& f : fractions) {
            if (w.empty() && f == ".") continue;
            for (auto& e : exponents) {
                const auto s = w + f + e;
                lex(s);
                // numbers below the smallest normal one are not looked at
                const double d = std::strtod(s.c_str(), nullptr);
                if (d != 0 && std::fabs(d) < 2.2250738585072014e-308) continue;
                parse("version 3;X " + s);
                parse("version 3;Rx(-" + s + ") q; // " + s);
            }
        }
        for (auto& e : exponents) {
            lex(w + e);
            parse("version 3;X " + w + e);
        }
    }
    for (int e = -307; e <= 308; ++e) {
        for (auto* d : { "1.", "2.5", "9.999999999999999", "1.2345678901234567", "0.1" }) {
            if (std::string(d)[0] == '0' && e < -306) continue;
            parse("version 3;X " + std::string(d) + "e" + std::to_string(e));
        }
    }
    // as part of a program
    for (size_t n = 1; n <= 2; ++n) {
        space::words(chars, n, [&](auto& s) {
            parse("version 3;X q" + s + "+ 1");
            parse("version 3" + s + ";Rx(1" + s + ") q");
        });
    }
    space::words(space::letters("/* \n'1.aX;"), run.thorough ? 5 : 4, [&](auto& s) { parse("version 3;X q" + s); });
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
