// C11: constant expressions evaluate to the exact type and value, and never crash.
// Explored: every operator and function (and names near theirs) on all argument lists over boundary values of every
// type, through the function table; and expressions as text, up to operators within operators, in every place where
// their type and value show.
#include <limits>

#include "lang.hpp"

namespace {

namespace tree = cqasm::tree;
namespace values = cqasm::v3x::values;
namespace types = cqasm::v3x::types;
namespace semantic = cqasm::v3x::semantic;
using ref::Value;

Value boolean(bool b) {
    Value v;
    v.t = 'b';
    v.b = b;
    return v;
}
Value integer(int64_t i) {
    Value v;
    v.i = i;
    return v;
}
Value real_(double f) {
    Value v;
    v.t = 'f';
    v.f = f;
    return v;
}
Value variable(int k) {
    Value v;
    v.t = 'v';
    v.variable = k;
    return v;
}

const auto inf = std::numeric_limits<double>::infinity();

const std::vector<Value>& pool() {
    static const std::vector<Value> r = [] {
        std::vector<Value> v{ boolean(false), boolean(true) };
        for (int64_t i : { int64_t{ 0 }, int64_t{ 1 }, int64_t{ -1 }, int64_t{ 2 }, int64_t{ -2 }, int64_t{ 3 }, int64_t{ 7 }, int64_t{ -8 }, int64_t{ 31 }, int64_t{ 32 }, int64_t{ 62 }, int64_t{ 63 },
                 int64_t{ 64 }, int64_t{ 1000 }, INT64_C(2147483647), INT64_C(-2147483648), INT64_C(4294967296), INT64_C(3037000500), INT64_C(9007199254740993), INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1 }) {
            v.push_back(integer(i));
        }
        for (double f : { 0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 3.0, -3.0, 0.1, 3.141592653589793, 1e18, 1e308, -1e308, 1e-300, 5e-324, inf, -inf, std::nan("") }) v.push_back(real_(f));
        // references: a qubit, a bit, a qubit array, a bit array
        for (int k = 0; k < 4; ++k) v.push_back(variable(k));
        return v;
    }();
    return r;
}

/// the model's analyzer with the variables that the pool refers to
struct Model : ref::Analyzer {
    Model() {
        variables = { { "q", 'Q', 1, {} }, { "b", 'B', 1, {} }, { "v", 'V', 3, {} }, { "w", 'W', 2, {} } };
    }
};

values::Value real_value(const Value& v) {
    static const std::vector<tree::One<semantic::Variable>> vs{ tree::make<semantic::Variable>("q", tree::make<types::Qubit>(1)), tree::make<semantic::Variable>("b", tree::make<types::Bit>(1)),
        tree::make<semantic::Variable>("v", tree::make<types::QubitArray>(3)), tree::make<semantic::Variable>("w", tree::make<types::BitArray>(2)) };
    switch (v.t) {
        case 'b': return tree::make<values::ConstBool>(v.b);
        case 'i': return tree::make<values::ConstInt>(v.i);
        case 'f': return tree::make<values::ConstFloat>(v.f);
        default: return tree::make<values::VariableRef>(vs[static_cast<size_t>(v.variable)]);
    }
}

std::string show(const Value& v) { return v.t == 'b' ? (v.b ? "bool true" : "bool false") : v.t == 'i' ? "int " + std::to_string(v.i) : v.t == 'f' ? "float " + ref::bits(v.f) : "reference"; }
std::string show(const values::Value& v) {
    if (v.empty()) return "nothing";
    if (auto* b = v->as_const_bool()) return b->value ? "bool true" : "bool false";
    if (auto* i = v->as_const_int()) return "int " + std::to_string(i->value);
    if (auto* f = v->as_const_float()) return "float " + ref::bits(f->value);
    return "reference";
}

/// the amount of a shift is only defined from 0 to 63
bool undefined_shift(const std::string& name, const std::vector<Value>& args) {
    return (name == "operator<<" || name == "operator>>") && args.size() == 2 && args[1].t == 'i' && (args[1].i < 0 || args[1].i > 63);
}

void call(mc::Run& run, const std::string& name, const std::string& list) {
    static const auto analyzer = real::fresh();
    Model model;
    std::vector<Value> args;
    values::Values real_args;
    for (size_t i = 0; i + 1 < list.size(); i += 2) args.push_back(pool()[static_cast<size_t>((list[i] - 'A') * 26 + (list[i + 1] - 'A'))]);
    for (auto& a : args) real_args.add(real_value(a));
    std::string expected, actual, message;
    std::vector<std::string> words;
    try {
        expected = show(model.call(name, args));
    } catch (const std::exception&) {
        throw;
    } catch (...) {
        expected = "an error";
        const bool known = ref::functions().count(name);
        words.push_back(known ? "" : name);
    }
    try {
        actual = show(analyzer.resolve_function(name, real_args));
    } catch (const cqasm::error::AnalysisError& e) {
        actual = "an error";
        message = e.what();
    }
    run.step();
    run.visit(expected);
    if (undefined_shift(name, args)) return;
    mc::same(name, expected, actual);
    if (actual == "an error") {
        MC_REQUIRE(!message.empty(), "an error without a message");
        MC_REQUIRE(message.find(words[0]) != std::string::npos, "an error that does not name " + words[0] + ": " + message);
    }
    for (size_t k = 0; k < args.size(); ++k) mc::same("an argument", show(args[k]), show(real_args[k]));
}

void check(mc::Run& run, const std::string& text) {
    const auto f = space::unpack(text);
    if (f.size() == 2) {
        call(run, f[0], f[1]);
        return;
    }
    // as text: where a float, an int and nothing of the kind fits
    for (auto* use : { "version 3;qubit q;qubit[2] v;bit b;Rx(?) q", "version 3;qubit q;qubit[2] v;bit b;wait(?) q", "version 3;qubit q;qubit[2] v;bit b;reset ?" }) {
        std::string program = use;
        program.replace(program.find('?'), 1, f[0]);
        lang::analyze(run, program);
    }
}

void enumerate(mc::Run& run) {
    std::vector<std::string> names;
    for (auto& [n, forms] : ref::functions()) names.push_back(n);
    std::vector<std::string> odd{ "", "operator", "operator+=", "operator=", "operator?", "operator:", "Operator+", "operator +", "+", "Sin", "SIN", "sin ", "arcsin", "ln", "log2", "pow", "fabs", "floor", "si", "sinhh", "min", "operator<=>", "operator<<<", "pi" };
    auto pool_letters = [](size_t k) { return std::string(1, static_cast<char>('A' + k / 26)) + static_cast<char>('A' + k % 26); };
    std::vector<std::string> all, few, fewer;
    for (size_t k = 0; k < pool().size(); ++k) all.push_back(pool_letters(k));
    for (size_t k : { 0, 1, 2, 3, 4, 5, 21, 23, 25, 27, 31, 40, 44, 46 }) few.push_back(all.at(k));
    for (size_t k : { 1, 3, 29, 44 }) fewer.push_back(all.at(k));
    auto call = [&](const std::string& n, const std::vector<std::string>& from, size_t length) { space::words(from, length, [&](auto& w) { run.one(space::pack({ n, w })); }); };
    for (auto& n : names) {
        call(n, all, 0);
        call(n, all, 1);
        call(n, all, 2);
        call(n, n == "operator?:" || run.thorough ? all : few, 3);
        call(n, few, run.thorough ? 4 : 0);
        for (size_t k = 4; k <= 6; ++k) call(n, fewer, k);
    }
    for (auto& n : odd) {
        for (size_t k = 0; k <= 3; ++k) call(n, few, k);
    }
    // as text
    auto one = [&](const std::string& e) { run.one(space::pack({ e })); };
    const std::vector<std::string> ops{ "**", "*", "/", "%", "+", "-", "<<", ">>", ">", "<", ">=", "<=", "==", "!=", "&", "^", "|", "&&", "^^", "||" };
    const std::vector<std::string> prefix{ "-", "~", "!", "+" };
    const std::vector<std::string> leaves{ "true", "false", "0", "1", "2", "3", "63", "9223372036854775807", "0.0", "1.5", "2.0", "pi", "eu", "tau", "q", "v[0]", "foo" };
    const std::vector<std::string> small{ "true", "0", "2", "1.5", "(-1)" };
    for (auto& a : leaves) {
        one(a);
        for (auto& p : prefix) {
            one(p + a);
            for (auto& p2 : prefix) one(p + " " + p2 + a);
        }
        for (auto& [n, forms] : ref::functions()) {
            if (n.rfind("operator", 0) == 0) continue;
            one(n + "(" + a + ")");
            one("-" + n + "(-" + a + ")");
            one(n + "(" + a + ", 1)");
        }
    }
    for (auto* n : { "sin()", "abs()", "Sin(1)", "foo()", "foo(1)", "pi(1)", "sin", "abs", "X", "X(1)", "sqrt(sqrt(16))", "sin(cos(tan(1)))", "abs(true)", "abs(-1) + abs(-1.5)", "sqrt(-1)", "log(0)", "1/0.0", "0.0/0", "-9223372036854775807-1", "(-9223372036854775807-1)/(-1)", "(-9223372036854775807-1)%(-1)",
             "abs(-9223372036854775807-1)", "-(-9223372036854775807-1)", "9223372036854775807+1", "9223372036854775807*9223372036854775807", "Pi", "PI", "e", "im", "inf", "nan", "True" })
        one(n);
    for (auto& o : ops) {
        for (auto& a : leaves) {
            for (auto& b : leaves) one(a + " " + o + " " + b);
        }
        for (auto& p : ops) {
            for (auto& a : small) {
                for (auto& b : small) {
                    for (auto& c : small) {
                        if (!run.thorough && (a != "2" && b != "2" && c != "2")) continue;
                        if (!run.thorough && (a == "(-1)" || c == "0")) continue;
                        one(a + " " + o + " " + b + " " + p + " " + c);
                        if (run.thorough) one(a + " " + o + " (" + b + " " + p + " " + c + ")");
                    }
                }
            }
        }
    }
    for (auto& c : leaves) {
        for (auto& a : leaves) {
            for (auto& b : run.thorough ? leaves : small) one(c + " ? " + a + " : " + b);
        }
    }
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
