// C18: a program is accepted exactly when it is valid, and the semantic tree says what the source says.
// C19 (compiled with -DERRORS): one error per invalid statement, in order, in its place, naming its problem.
// Explored: all sequences of statements up to a length over a pool of declarations, uses and misuses.
#include "lang.hpp"
#include "pool.hpp"

namespace {

struct Found {
    bool parsed = false;
    std::vector<real::Err> errors;
};

#ifdef ERRORS
/// the errors do not depend on statements that are wrong: taking out one that is no declaration takes out its error
void check_model(const ref::Node& program, const ref::Analyzed& m) {
    for (size_t k = 1; k < program.kids.size(); ++k) {
        if (program.kids[k].is("variable")) continue;
        ref::Node without = program;
        without.kids.erase(without.kids.begin() + static_cast<long>(k));
        auto errors = m.errors;
        const auto& s = program.kids[k];
        ref::Node alone = program;  // only the declarations before it, and itself
        alone.kids.resize(k + 1);
        const auto before = [&] {
            auto p = program;
            p.kids.resize(k);
            return ref::analyze(p).errors.size();
        }();
        const bool wrong = ref::analyze(alone).errors.size() > before;
        if (wrong) errors.erase(errors.begin() + static_cast<long>(before));
        const auto r = ref::analyze(without).errors;
        MC_REQUIRE(r.size() == errors.size(), "the model's errors depend on statement " + s.text);
        for (size_t j = 0; j < r.size(); ++j) MC_REQUIRE(r[j].loc == errors[j].loc && r[j].names == errors[j].names, "the model's errors depend on statement " + s.text);
    }
}
#endif

void check(mc::Run& run, const std::string& text) {
    const auto model = ref::parse(text);
    MC_REQUIRE(model.program, "the pool has a program that does not parse");
    const auto parsed = cqasm::v3x::parser::parse_string(text, "input.cq");
    MC_REQUIRE(parsed.errors.empty(), "a program that should parse is refused: " + real::list(real::errors(parsed.errors)));
    const auto m = ref::analyze(*model.program);
    auto a = real::fresh();
    const auto r = a.analyze(parsed);
    run.step();
    run.visit(ref::dump(m.program, false) + std::to_string(m.errors.size()));
#ifdef ERRORS
    real::same_analysis_errors(m.errors, real::errors(r.errors), {});
    for (auto& e : real::errors(r.errors)) MC_REQUIRE(e.uri == "file:///input.cq", "the error does not have the file's name");
    if (model.program->kids.size() <= 12) check_model(*model.program, m);
#else
    MC_REQUIRE(r.errors.empty() == m.errors.empty(),
        m.errors.empty() ? "a valid program is refused: " + real::list(real::errors(r.errors)) : "accepted, although invalid at " + m.errors[0].loc.text());
    if (!r.errors.empty()) return;
    MC_REQUIRE(!r.root.empty(), "no tree and no errors");
    mc::same("the tree", ref::dump(m.program, false), ref::dump(real::convert(r, "input.cq"), false));
#endif
}

void enumerate(mc::Run& run) {
    const auto& s = pool::statements();
    auto all = s;
    all.insert(all.end(), pool::more().begin(), pool::more().end());
    for (auto& v : pool::versions()) {
        run.one(pool::program(v, {}));
        for (auto& x : all) {
            run.one(pool::program(v, { x }));
            run.one(pool::program(v, { "qubit q", "qubit[3] r", "bit b", x }));
        }
    }
    const std::vector<std::vector<std::string>> before{ {}, { "qubit q", "qubit[3] r", "bit b", "bit[3] c" }, { "qubit[2] q", "qubit[3] r", "bit[2] b", "bit[2] c" } };
    for (size_t n = 2; n <= (run.thorough ? 4u : 3u); ++n) {
        space::tuples(s.size(), n, [&](auto& ix) {
            std::vector<std::string> p;
            for (auto i : ix) p.push_back(s[i]);
            run.one(pool::program("3", p));
        });
    }
    for (auto& b : before) {
        for (auto& x : all) {
            for (auto& y : all) {
                auto p = b;
                p.push_back(x);
                p.push_back(y);
                if (b.empty() && !run.thorough) continue;
                run.one(pool::program("3.0", p));
            }
        }
    }
    // all operands of every shape against each other
    std::vector<std::string> operands;
    for (auto* name : { "q", "r", "b", "c", "undeclared" }) {
        for (auto* index : { "", "[0]", "[1]", "[2]", "[3]", "[0:1]", "[1:2]", "[0:2]", "[0, 2]", "[2, 1, 0]", "[1, 1]", "[0:1, 2]" }) operands.push_back(std::string(name) + index);
    }
    for (auto& b : { before[1], before[2], std::vector<std::string>{ "qubit[1] q", "qubit r", "bit[1] b", "bit c" }, std::vector<std::string>{ "bit[3] q", "qubit[3] r", "qubit[2] b", "bit[3] c" } }) {
        auto one = [&](const std::string& x) {
            auto p = b;
            p.push_back(x);
            run.one(pool::program("3.0", p));
        };
        for (auto& x : operands) {
            for (auto* gate : { "X ", "inv.pow(2).Rz(1) ", "reset ", "init ", "barrier ", "wait(3) " }) one(gate + x);
            for (auto& y : operands) {
                for (auto* gate : { "CNOT ", "CR(0.5) ", "ctrl.X ", "ctrl.pow(0.5).Rn(1, 0, 0, 1, 1) " }) one(gate + x + ", " + y);
                one(x + " = measure " + y);
                one(x + " = measure(1, 0.5, true) " + y);
            }
        }
    }
    // a declaration, a use, and a declaration after it: every place in a longer program
    for (auto& x : all) {
        for (auto& b : before) {
            if (b.empty()) continue;
            for (size_t at = 0; at <= b.size() + 2; ++at) {
                auto p = b;
                p.push_back("X q");
                p.push_back("b = measure q");
                p.insert(p.begin() + static_cast<long>(at), x);
                run.one(pool::program("3.0", p));
                p.push_back(x);
                run.one(pool::program("3.0", p));
                p.push_back("qubit last");
                p.push_back("X q, 1");
                p.push_back(x);
                p.push_back("H last");
                run.one(pool::program("3.1", p));
                run.one(pool::program("3.0", p));
            }
        }
    }
    // many statements of one kind, and of two in turns; all of them one after the other
    for (auto& b : before) {
        auto repeat = [&](const std::vector<std::string>& what, size_t n, const char* version) {
            auto p = b;
            for (size_t k = 0; k < n; ++k) p.push_back(what[k % what.size()]);
            run.one(pool::program(version, p));
        };
        for (auto& x : all) {
            for (size_t n = 3; n <= 20; ++n) repeat({ x }, n, n % 2 ? "3.0" : "3.1");
            for (size_t n : { 33, 65, 129, 257 }) repeat({ x }, n, "3.0");
            if (b.empty() && !run.thorough) continue;
            for (auto& y : run.thorough ? all : s) repeat({ x, y }, 24, "3.0");
        }
        repeat(all, all.size(), "3.0");
        repeat(all, 3 * all.size(), "3.1");
        repeat({ all.rbegin(), all.rend() }, 3 * all.size(), "3.0");
        repeat(s, 1000, "3.0");
    }
    // long programs
    for (size_t n : { 10, 50, 200, 1000 }) {
        for (auto& x : s) {
            std::vector<std::string> p;
            for (size_t k = 0; k < n; ++k) {
                p.push_back((k % 2 ? "qubit[3] v" : "bit[3] v") + std::to_string(k));
                if (k >= 3) p.push_back("v" + std::to_string(k % 2 ? k - 3 : k - 2) + " = measure v" + std::to_string(k % 2 ? k : k - 1));
                if (k == n / 2) p.push_back(x);
            }
            if (n <= 50 || run.thorough) run.one(pool::program("3", p));
            if (&x == &s[0]) run.one(pool::program("3", p));
        }
    }
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
