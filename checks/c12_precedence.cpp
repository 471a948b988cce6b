// C12: operators group by the documented precedence and associativity.
// Explored: every sequence of operands and operators up to a length (all binary operators, "?:", prefix operators and
// parentheses at every place); the real tree must be the one of the model, and printing it with all its parentheses
// and parsing again must give the same tree.
#include "lang.hpp"

namespace {

using ref::Node;

const std::vector<std::string> OPS{ "**", "*", "/", "%", "+", "-", "<<", ">>", ">", "<", ">=", "<=", "==", "!=", "&", "^", "|", "&&", "^^", "||" };
const std::vector<std::string> PREFIX{ "", "-", "~", "!", "+", "- -", "! ~", "+ -", "- +" };

std::string full(const Node& e) {
    if (e.is("unary")) return "(" + e.text + full(e.kids[0]) + ")";
    if (e.is("binary")) return "(" + full(e.kids[0]) + " " + e.text + " " + full(e.kids[1]) + ")";
    if (e.is("ternary")) return "(" + full(e.kids[0]) + " ? " + full(e.kids[1]) + " : " + full(e.kids[2]) + ")";
    if (e.is("call")) {
        std::string r = e.text + "(";
        if (!e.kids.empty()) {
            for (size_t k = 0; k < e.kids[0].kids.size(); ++k) r += (k ? ", " : "") + full(e.kids[0].kids[k]);
        }
        return "(" + r + "))";
    }
    if (e.is("index")) {
        std::string r = e.text + "[";
        for (size_t k = 0; k < e.kids.size(); ++k) {
            r += (k ? ", " : "") + full(e.kids[k].kids[0]);
            if (e.kids[k].is("range")) r += " : " + full(e.kids[k].kids[1]);
        }
        return r + "]";
    }
    if (e.is("id")) return "(" + e.text + ")";
    if (e.is("bool")) return e.i ? "true" : "false";
    if (e.is("int")) return "((" + std::to_string(e.i) + "))";
    char b[40];
    std::snprintf(b, sizeof b, "%.17g", e.f);
    std::string s = b;
    if (s.find('.') == std::string::npos) s += ".";
    return s;
}

Node tree(const cqasm::v3x::parser::ParseResult& r) { return real::convert(r, "input.cq").kids.at(1).kids.at(0).kids.at(0); }

void check(mc::Run& run, const std::string& expression) {
    real::Want want;
    want.locations = false;
    const auto both = lang::parse(run, "version 3;barrier " + expression, want);
    if (!both.accepted) return;
    if (both.model.program->kids.size() != 2 || !both.model.program->kids[1].is("nongate")) return;
    const auto t = tree(both.real);
    const auto again = "version 3;barrier " + full(t);
    const auto second = cqasm::v3x::parser::parse_string(again, "input.cq");
    run.step();
    MC_REQUIRE(second.errors.empty(), "the expression with all its parentheses is refused: " + mc::quote(again));
    mc::same("the tree of the expression with all its parentheses", ref::dump(t, false), ref::dump(tree(second), false));
}

const std::vector<std::string> NAMES{ "a", "b", "c", "d", "e", "g", "h" };

void enumerate(mc::Run& run) {
    // all operator sequences, "?" standing for a conditional with one operand in the middle
    auto ops = OPS;
    ops.push_back("?");
    auto build = [&](const std::vector<std::string>& os, const std::vector<std::string>& prefixes) {
        std::string s = prefixes[0] + NAMES[0];
        for (size_t k = 0; k < os.size(); ++k) {
            s += os[k] == "?" ? " ? m : " : " " + os[k] + " ";
            s += prefixes[k + 1] + NAMES[k + 1];
        }
        return s;
    };
    auto every = [&](size_t n, const std::vector<std::string>& prefixes) {
        space::tuples(ops.size(), n, [&](auto& ix) {
            std::vector<std::string> os;
            for (auto i : ix) os.push_back(ops[i]);
            space::tuples(prefixes.size(), n + 1, [&](auto& px) {
                std::vector<std::string> ps;
                for (auto p : px) ps.push_back(prefixes[p]);
                run.one(build(os, ps));
            });
        });
    };
    every(0, PREFIX);
    every(1, PREFIX);
    every(2, run.thorough ? PREFIX : std::vector<std::string>{ "", "-", "+" });
    every(3, { "" });
    if (run.thorough) every(3, { "", "!" });
    // longer ones over one operator of each level
    const std::vector<std::string> levels{ "**", "*", "-", ">>", "<", "==", "&", "^", "|", "&&", "^^", "||", "?" };
    const std::vector<std::string> few{ "**", "/", "-", "<", "&&", "?" };
    auto long_ones = [&](const std::vector<std::string>& from, size_t n) {
        space::tuples(from.size(), n, [&](auto& ix) {
            std::vector<std::string> os;
            for (auto i : ix) os.push_back(from[i]);
            run.one(build(os, std::vector<std::string>(n + 1)));
        });
    };
    long_ones(run.thorough ? levels : few, 4);
    long_ones(run.thorough ? few : std::vector<std::string>{ "**", "-", "?" }, 5);
    if (run.thorough) long_ones({ "**", "-", "?" }, 6);
    // conditionals with an operator at each of their places
    for (auto& x : ops) {
        for (auto& y : ops) {
            for (auto& z : ops) {
                auto o = [](const std::string& s, const char* a, const char* b) { return s == "?" ? std::string(a) + "?m:" + b : a + s + b; };
                run.one(o(x, "a", "b") + "?" + o(y, "c", "d") + ":" + o(z, "e", "g"));
            }
            // parentheses at every place
            auto o = [](const std::string& s) { return s == "?" ? std::string(" ? m : ") : " " + s + " "; };
            const std::string a = "a", b = "b", c = "c";
            run.one("(" + a + o(x) + b + ")" + o(y) + c);
            run.one(a + o(x) + "(" + b + o(y) + c + ")");
            run.one("(" + a + o(x) + b + o(y) + c + ")");
            run.one("((" + a + ")" + o(x) + "(" + b + "))" + o(y) + "(" + c + ")");
            for (auto& p : PREFIX) {
                run.one(p + "(" + a + o(x) + b + ")" + o(y) + c);
                run.one(a + o(x) + p + "(" + b + o(y) + c + ")");
                run.one("f(" + a + o(x) + b + ")" + o(y) + p + "f(" + c + ")");
                run.one("x[" + a + o(x) + p + b + ":" + c + o(y) + a + "," + b + "]" + o(x) + c);
                run.one(p + "f(" + a + "," + b + o(x) + c + o(y) + a + ")");
                run.one(p + "x[" + a + "]" + o(x) + p + "1" + o(y) + p + "2.5");
            }
        }
    }
    // chains, nests
    for (auto& x : ops) {
        for (size_t n = 4; n <= (run.thorough ? 60u : 24u); n += n < 12 ? 1 : 6) {
            run.one(build(std::vector<std::string>(n, x).size() <= 6 ? std::vector<std::string>(n, x) : std::vector<std::string>(6, x), std::vector<std::string>(8)));
            std::string s = "a", nest = "a", right = "z";
            for (size_t k = 0; k < n; ++k) {
                const std::string o = x == "?" ? " ? m : " : " " + x + " ";
                s += o + (k % 2 ? "b" : "c");
                nest = "(" + nest + o + "b)";
                right = "(b" + o + right + ")";
            }
            run.one(s);
            run.one(nest);
            run.one(right);
        }
    }
    for (size_t n = 1; n <= 40; ++n) {
        run.one(std::string(n, '(') + "a" + std::string(n, ')'));
        run.one(std::string(n, '-') + "a");
        run.one(std::string(n, '+') + "a ** " + std::string(n, '!') + "b");
        run.one(std::string(n, '(') + "a" + std::string(n - 1, ')'));
        run.one(std::string(n - 1, '(') + "a" + std::string(n, ')'));
    }
    // malformed ones: all token sequences over a small alphabet
    const std::vector<std::string> t{ "a ", "- ", "** ", "! ", "( ", ") ", "? ", ": ", "7 ", "+ " };
    for (size_t n = 1; n <= (run.thorough ? 5u : 4u); ++n) space::words(t, n, [&](auto& s) { run.one(s); });
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
