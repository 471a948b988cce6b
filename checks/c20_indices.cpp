// C20: indexing selects exactly the listed elements, in order, within bounds.
// Explored: index lists over entries around the bounds, on arrays of several sizes, in every place an index may stand.
#include "lang.hpp"

namespace {

void check(mc::Run& run, const std::string& text) {
    const auto model = ref::parse(text);
    MC_REQUIRE(model.program, "a program that does not parse");
    const auto parsed = cqasm::v3x::parser::parse_string(text, "input.cq");
    MC_REQUIRE(parsed.errors.empty(), "a program that should parse is refused: " + real::list(real::errors(parsed.errors)));
    const auto m = ref::analyze(*model.program);
    auto a = real::fresh();
    const auto r = a.analyze(parsed);
    run.step();
    run.visit(ref::dump(m.program, false) + std::to_string(m.errors.size()));
    real::same_analysis(m, r, "input.cq");
    if (!m.errors.empty()) return;
    // independent of the model: what is selected stays within the array
    for (const auto& s : r.root->block->statements) {
        const auto& operands = s->as_gate_instruction() ? s->as_gate_instruction()->operands : s->as_non_gate_instruction()->operands;
        for (const auto& o : operands) {
            if (auto* x = o->as_index_ref()) {
                MC_REQUIRE(!x->indices.empty(), "nothing is selected");
                for (const auto& i : x->indices) MC_REQUIRE(i->value >= 0 && i->value < x->variable->typ->size, "an index outside the array");
                mc::same_value("the size", static_cast<long long>(x->indices.size()), cqasm::v3x::values::size_of(o));
            }
        }
    }
}

void enumerate(mc::Run& run) {
    auto program = [](const std::string& size, const std::string& use) { return "version 3;qubit[" + size + "] q;bit[" + size + "] b;qubit s;bit t;" + use; };
    auto entries = [](int from, int to) {
        std::vector<std::string> r;
        for (int i = from; i <= to; ++i) {
            r.push_back(std::to_string(i));
            for (int j = from; j <= to; ++j) r.push_back(std::to_string(i) + ":" + std::to_string(j));
        }
        return r;
    };
    // one and two entries around the bounds of every small array
    for (int size = 1; size <= (run.thorough ? 7 : 5); ++size) {
        const auto n = std::to_string(size);
        const auto e = entries(-1, size + 1);
        for (auto& x : e) {
            run.one(program(n, "X q[" + x + "]"));
            run.one(program(n, "b[" + x + "] = measure q[" + x + "]"));
            run.one(program(n, "b[" + x + "] = measure q"));
            run.one(program(n, "CNOT q[" + x + "], q"));
            for (auto& y : e) {
                if (size > 3 && !run.thorough && (x[0] == '-' || y[0] == '-')) continue;
                run.one(program(n, "X q[" + x + "," + y + "]"));
            }
        }
        // operands of the same number of elements, and of another
        const auto in = entries(0, size - 1);
        for (auto& x : in) {
            for (auto& y : in) {
                if (size > 4 && !run.thorough) continue;
                run.one(program(n, "CNOT q[" + x + "], q[" + y + "]"));
                run.one(program(n, "b[" + x + "] = measure q[" + y + "]"));
            }
        }
    }
    // three entries and more, repeated ones too
    {
        const auto e = entries(0, 2);
        space::tuples(e.size(), 3, [&](auto& ix) { run.one(program("3", "H q[" + e[ix[0]] + "," + e[ix[1]] + "," + e[ix[2]] + "]")); });
        const std::vector<std::string> few{ "0", "3", "1:2", "0:3", "4", "2:1", "3:4", "true" };
        for (size_t n = 3; n <= (run.thorough ? 6u : 4u); ++n) {
            space::tuples(few.size(), n, [&](auto& ix) {
                std::string l;
                for (auto i : ix) l += (l.empty() ? "" : ",") + few[i];
                run.one(program("4", "reset q[" + l + "]"));
            });
        }
    }
    // values of every type and size, alone, in ranges and lists, on arrays of every size, and on what is no array
    const std::vector<std::string> values{ "0", "1", "2", "3", "-0", "-1", "-2", "true", "false", "1.0", "0.0", "1.5", "2/2", "3%2", "1<<1", "!true", "!1", "~0", "-(1-2)", "2-1", "1==1", "1.0==1",
        "true?1:2", "true?1:2.5", "abs(-1)", "abs(-1.0)", "sqrt(4)", "pi", "s", "q", "q[0]", "b", "t", "foo", "foo(1)", "1/0", "1%0", "(1)", "pi[0]", "s[0]", "1<2", "2**1", "5", "4", "9", "10", "63",
        "64", "255", "256", "32767", "32768", "65535", "65536", "2147483646", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "1000000000000", "9223372036854775806",
        "9223372036854775807", "-9223372036854775807", "-9223372036854775807-1", "-4294967296", "-2147483648", "-4294967295", "1<<62", "1<<63", "true+true", "0x", "1e" };
    for (auto* array : { "q", "b", "s", "t", "pi", "true", "foo", "sin", "X", "eu" }) {
        for (auto& v : values) {
            if (v == "0x" || v == "1e" || std::string(array) == "true") continue;
            const std::string a = array;
            for (auto* n : { "1", "2", "4" }) {
                run.one(program(n, "X " + a + "[" + v + "]"));
                run.one(program(n, "t = measure " + a + "[" + v + "]"));
                if (std::string(n) == "4") run.one(program(n, a + "[" + v + "] = measure s"));
                run.one(program(n, "barrier " + a + "[0:" + v + "]"));
                run.one(program(n, "X " + a + "[" + v + ":1]"));
                run.one(program(n, "X " + a + "[" + v + ":" + v + "]"));
                run.one(program(n, "X " + a + "[0," + v + "]"));
                run.one(program(n, "X " + a + "[" + v + ",0]"));
                run.one(program(n, "wait(1) " + a + "[0:0," + v + ":3,1]"));
            }
        }
    }
    for (auto& v : values) {
        for (auto& w : values) {
            if (v == "0x" || w == "1e" || v == "1e" || w == "0x") continue;
            run.one(program("4", "X q[" + v + ":" + w + "]"));
        }
    }
    // arrays of great sizes, at their ends
    for (auto* n : { "255", "256", "257", "1000", "32768", "65536", "65537", "1000000", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807" }) {
        const std::string s = n;
        for (auto* i : { "0", "1", "254", "255", "256", "257", "32767", "65535", "65536", "999999", "2147483646", "2147483647", "2147483648", "4294967294", "4294967295", "4294967296", "4294967297", "9223372036854775806", "9223372036854775807", "-1" }) {
            const std::string k = i;
            run.one(program(n, "X q[" + k + "]"));
            run.one(program(n, "X q[" + s + "-1]"));
            run.one(program(n, "X q[" + k + ":" + k + "]"));
            run.one(program(n, "X q[" + k + "," + k + ",0]"));
            run.one(program(n, "X q[" + s + "-1:" + s + "-1]"));
            run.one(program(n, "X q[" + s + "-2:" + s + "-1]"));
            run.one(program(n, "X q[" + s + "-1:" + s + "]"));
            run.one(program(n, "X q[" + s + "]"));
            run.one(program(n, "b[" + s + "-1] = measure q[" + k + "]"));
            run.one(program(n, "CNOT q[" + k + "], q[" + s + "-1]"));
            // a range, far from complete, that ends outside
            if (s.size() <= 7) run.one(program(n, "X q[" + k + ":9223372036854775807]"));
            if (s.size() <= 7) run.one(program(n, "X q[0:" + s + "-1]"));
        }
    }
    // indices in turn, on many arrays
    for (size_t n : { 10, 60, 200 }) {
        std::string list;
        for (size_t k = 0; k < n; ++k) {
            list += (k ? "," : "") + std::to_string(k * 7 % n);
            run.one(program(std::to_string(n), "X q[" + list + "]"));
            run.one(program(std::to_string(n), "X q[" + list + "," + std::to_string(n) + "]"));
            run.one(program(std::to_string(n), "X q[" + std::to_string(k) + ":" + std::to_string(n - 1) + "]"));
            run.one(program(std::to_string(n), "X q[0:" + std::to_string(k) + "]"));
        }
    }
    // through other programs: statements around it
    for (auto& x : entries(0, 3)) {
        for (auto& y : entries(0, 3)) {
            if (!run.thorough && x.size() + y.size() > 4) continue;
            run.one(program("3", "X q[" + x + "];Y q[" + y + "];b[" + y + "] = measure q[" + x + "];inv.Z q[" + x + "," + y + "];"));
        }
    }
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
