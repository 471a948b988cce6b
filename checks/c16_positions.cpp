// C16: tree nodes and errors carry the position of the source text they stand for.
// Explored: programs with every form of statement, valid and not, in all layouts that change one or two gaps between
// tokens, or all of them, and with every kind of file name; every node's position against the model's.
#include "layout.hpp"

namespace {

/// an analyzer whose constants were given a position of their own, and with functions that return their argument
cqasm::v3x::analyzer::Analyzer located() {
    namespace values = cqasm::v3x::values;
    cqasm::v3x::analyzer::Analyzer a{ "3.0" };
    auto constant = [&](const std::string& name, values::Value v) {
        v->set_annotation(cqasm::annotations::SourceLocation{ "elsewhere.cq", { { 77, 7 }, { 78, 8 } } });
        a.register_variable(name, v);
    };
    constant("true", cqasm::tree::make<values::ConstBool>(true));
    constant("false", cqasm::tree::make<values::ConstBool>(false));
    constant("pi", cqasm::tree::make<values::ConstFloat>(std::acos(-1.0)));
    constant("eu", cqasm::tree::make<values::ConstFloat>(2.718281828459045));
    constant("tau", cqasm::tree::make<values::ConstFloat>(2 * std::acos(-1.0)));
    a.register_default_functions();
    for (auto* type : { "f", "i" }) a.register_consteval_core_function("abs", type, [](const values::Values& v) { return v[0]; });
    a.register_default_instructions();
    return a;
}

void check(mc::Run& run, const std::string& text) {
    const auto f = space::unpack(text);
    lang::File file;
    if (f[0] == "located") {
        const auto parsed = cqasm::v3x::parser::parse_string(f[1], "input.cq");
        const auto expected = real::fresh().analyze(parsed), r = located().analyze(parsed);
        run.step();
        mc::same("the errors, with constants that have a position", real::list(real::errors(expected.errors)), real::list(real::errors(r.errors)));
        if (r.errors.empty()) mc::same("the tree, with constants that have a position", ref::dump(real::convert(expected, "input.cq"), true), ref::dump(real::convert(r, "input.cq"), true));
        return;
    }
    if (f[0] != "none") file = f[0].substr(1);
    lang::analyze(run, f[1], {}, file);
    if (f[0] == "=input.cq") return;  // the conversion looks at the nodes' file names
    const auto r = cqasm::v3x::parser::parse_string(f[1], file);
    const bool named = file && !file->empty();
    auto uris = [&](const std::vector<real::Err>& es) {
        for (auto& e : es) {
            MC_REQUIRE(e.uri.empty() == !named, "the file name of an error");
            if (*file == "a b.cq") mc::same("the file name of an error", "file:///a%20b.cq", e.uri);
        }
    };
    if (!file) file = "";
    uris(real::errors(r.errors));
    if (r.errors.empty()) uris(real::errors(real::fresh().analyze(r).errors));
}

void enumerate(mc::Run& run) {
    size_t n = 0;
    for (auto& statements : layout::programs()) {
        const auto p = layout::program(statements);
        const bool form = n++ < lang::forms().size();
        layout::all(run.thorough || form, p, [&](const std::string& s) { run.one(space::pack({ "=input.cq", s })); });
        std::string plain = "version 3.0";
        for (auto& s : statements) plain += "\n" + s;
        for (auto* file : { "none", "=", "=a b.cq", "=x", "=\xc3\xa9/../y.cq" }) run.one(space::pack({ file, plain }));
        // parse errors: every token taken out, or another in its place, in lines of their own
        for (auto* by : { " ", "\n", "\t" }) {
            for (auto* other : { "", ";", "]", "'''", "$", "99999999999999999999", "9999999999.e999", "'''\n'''", "\xc3\xa9" }) {
                if (!run.thorough && !form && std::string(by) != " ") continue;
                for (size_t k = 2; k < p.tokens.size(); ++k) {
                    std::string s = "version 3;\n\n";
                    for (size_t j = 2; j < p.tokens.size(); ++j) s += (j > 2 ? p.kinds[j - 1] == ';' ? ";" : by : "") + (j == k ? std::string(other) : p.tokens[j]);
                    run.one(space::pack({ "=input.cq", s }));
                }
            }
        }
    }
    // values that come from the analyzer
    auto program = [&](const std::string& x, const std::string& y) {
        for (auto* by : { "", " ", "\n" }) {
            for (auto& s : { std::string("Rx(") + x + by + ")", "pow(" + x + ").inv.X", "Rn(1, 0, " + x + ", " + y + ", 1)", "CRk(" + x + by + ")", "CR(" + y + by + ")", std::string("H") }) {
                if (*by == '\n') continue;
                run.one(space::pack({ "located", "version 3\nqubit[2] q\nbit b\n" + s + by + " q[0]" }));
                run.one(space::pack({ "located", "version 3\nqubit[2] q;" + s + by + " q[0], q[" + x + ", " + y + "]" }));
            }
            run.one(space::pack({ "located", "version 3;qubit[2] q;bit b;" + std::string(by) + "b = measure(" + x + ", 0, " + y + ") q[0];wait(" + x + ") q;X " + x }));
            run.one(space::pack({ "located", "version 3;qubit[2] q;" + std::string(by) + "X q[" + x + "];X q[" + x + ":" + y + "];qubit[" + x + "] r" }));
        }
    };
    const std::vector<std::string> values{ "pi", "eu", "tau", "true", "false", "abs(1)", "abs(0.5)", "abs(pi)", "(pi)", "+pi", "-pi", "pi + 1", "true ? eu : pi", "abs(true)", "1", "q" };
    for (auto& x : values) {
        for (auto& y : values) program(x, y);
    }
    // every column and line, up to a bound
    for (int k = 0; k <= (run.thorough ? 600 : 300); ++k) {
        run.one(space::pack({ "=input.cq", "version 3" + std::string(k, '\n') + ";qubit q" + std::string(k, ' ') + "; X q" }));
        run.one(space::pack({ "=input.cq", "version 3;" + std::string(k, ' ') + "X q" }));
        run.one(space::pack({ "=input.cq", "version 3" + std::string(k, '\n') + "qubit" + std::string(k, '\t') + " q" }));
        run.one(space::pack({ "=input.cq", "version 3;qubit " + std::string(k + 1, 'q') + ";Rx(" + std::string(k, '0') + "1." + std::string(k, '5') + ") " + std::string(k + 1, 'q') }));
        run.one(space::pack({ "=input.cq", "version 3;X " + std::string(k + 1, 'q') + ";Y 1" }));
        run.one(space::pack({ "=input.cq", "version 3;/*" + std::string(k, '\n') + "*/qubit[" + std::string(k, '0') + "5] q;X q[" + std::string(k, '(') + "4" + std::string(k, ')') + "]" }));
    }
    for (size_t k : { 65535, 65536, 100000 }) {
        run.one(space::pack({ "=input.cq", "version 3" + std::string(k, '\n') + "qubit q;X q" }));
        run.one(space::pack({ "=input.cq", "version 3;" + std::string(k, ' ') + "qubit q;X q;X foo" }));
    }
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
