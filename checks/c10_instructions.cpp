// C10: the instruction set accepts exactly the documented names, parameters and operands.
// Explored: every name and names near it, all parameter lists and operand lists over every kind of value up to one more
// than the documented number, and all chains of modifiers up to a length; every category query on every name.
#include "lang.hpp"

namespace {

using cqasm::v3x::instruction::InstructionSet;

const std::string PREAMBLE = "version 3.0\nqubit q\nqubit[2] v\nqubit[3] w\nqubit[1] u\nbit b\nbit[2] c\nbit[3] d\nbit[1] a\n";

/// analyses statements that the model finds all valid, or all invalid
void program(mc::Run& run, const std::vector<std::string>& statements) {
    std::string text = PREAMBLE;
    for (auto& s : statements) text += s + "\n";
    real::Want want;
    want.locations = false;
    lang::analyze(run, text, want);
}

void statements(mc::Run& run, const std::vector<std::string>& all) {
    std::vector<std::string> good, bad;
    for (auto& s : all) {
        const auto p = ref::parse(PREAMBLE + s);
        MC_REQUIRE(p.program, "does not parse: " + s);
        (ref::analyze(*p.program).errors.empty() ? good : bad).push_back(s);
        run.step();
    }
    if (!good.empty()) program(run, good);
    if (!bad.empty()) program(run, bad);
}

/// what each query must say of a name
void queries(mc::Run& run, const std::string& n) {
    const auto& s = InstructionSet::get_instance();
    const auto& gates = ref::gates();
    const auto g = gates.find(n);
    const bool gate = g != gates.end();
    const std::map<std::string, std::vector<std::string>> nongates{ { "measure", { "", "fff" } }, { "reset", { "" } }, { "init", { "" } }, { "barrier", { "" } }, { "wait", { "i" } } };
    const bool nongate = nongates.count(n);
    const bool modifier = n == "inv" || n == "pow" || n == "ctrl";
    auto expect = [&](const char* what, bool expected, bool actual) {
        run.step();
        MC_REQUIRE(expected == actual, std::string(what) + "(" + mc::quote(n) + ") is " + (actual ? "true" : "false"));
    };
    const bool one = n.starts_with("1q"), two = n.starts_with("2q");
    expect("is_single_qubit_named_gate", gate && !g->second.two, s.is_single_qubit_named_gate(n));
    expect("is_two_qubit_named_gate", gate && g->second.two, s.is_two_qubit_named_gate(n));
    expect("is_named_gate", gate, s.is_named_gate(n));
    expect("is_single_qubit_gate_composition", one, s.is_single_qubit_gate_composition(n));
    expect("is_two_qubit_gate_composition", two, s.is_two_qubit_gate_composition(n));
    expect("is_gate_composition", one || two, s.is_gate_composition(n));
    expect("is_single_qubit_gate", one || (gate && !g->second.two), s.is_single_qubit_gate(n));
    expect("is_two_qubit_gate", two || (gate && g->second.two), s.is_two_qubit_gate(n));
    expect("is_gate", gate || one || two, s.is_gate(n));
    expect("is_measure", n == "measure", s.is_measure(n));
    expect("is_reset", n == "reset", s.is_reset(n));
    expect("is_init", n == "init", s.is_init(n));
    expect("is_barrier", n == "barrier", s.is_barrier(n));
    expect("is_wait", n == "wait", s.is_wait(n));
    expect("is_non_gate", nongate, s.is_non_gate(n));
    expect("is_inv_gate_modifier", n == "inv", s.is_inv_gate_modifier(n));
    expect("is_pow_gate_modifier", n == "pow", s.is_pow_gate_modifier(n));
    expect("is_ctrl_gate_modifier", n == "ctrl", s.is_ctrl_gate_modifier(n));
    expect("is_single_qubit_gate_modifier", n == "inv" || n == "pow", s.is_single_qubit_gate_modifier(n));
    expect("is_two_qubit_gate_modifier", n == "ctrl", s.is_two_qubit_gate_modifier(n));
    expect("is_gate_modifier", modifier, s.is_gate_modifier(n));
    // exactly one category, or none
    const int categories = s.is_single_qubit_named_gate(n) + s.is_two_qubit_named_gate(n) + s.is_non_gate(n) + s.is_gate_modifier(n);
    mc::same_value("the number of categories of " + mc::quote(n), gate || nongate || modifier, categories);
    // the lists
    expect("the list of single-qubit gates has", gate && !g->second.two, s.get_single_qubit_named_gate_list().count(n));
    expect("the list of two-qubit gates has", gate && g->second.two, s.get_two_qubit_named_gate_list().count(n));
    expect("the list of non-gates has", nongate, s.get_non_gate_list().count(n));
    expect("the map of gates has", gate, s.get_named_gate_map().count(n) > 0);
    expect("the map of non-gates has", nongate, s.get_non_gate_map().count(n) > 0);
    expect("the map of modifiers has", modifier, s.get_gate_modifier_map().count(n));
    // parameter types
    auto params = [&](const char* what, bool known, const std::vector<std::string>& expected, const std::function<std::optional<std::string>()>& f) {
        run.step();
        std::optional<std::string> r;
        try {
            r = f();
        } catch (const cqasm::error::AnalysisError& e) {
            MC_REQUIRE(!known, std::string(what) + " does not know " + n);
            MC_REQUIRE(n.find('\0') != std::string::npos || std::string(e.what()).find("'" + n + "'") != std::string::npos, "an error that does not name " + n);
            return;
        }
        MC_REQUIRE(known, std::string(what) + " knows " + mc::quote(n));
        MC_REQUIRE(std::find(expected.begin(), expected.end(), r.value_or("")) != expected.end(), std::string(what) + "(" + n + ") is " + r.value_or("none"));
    };
    const std::vector<std::string> gp{ gate ? g->second.params : "" }, np = nongate ? nongates.at(n) : std::vector<std::string>{}, mp{ n == "pow" ? "f" : "" };
    params("get_named_gate_param_types", gate, gp, [&] { return s.get_named_gate_param_types(n); });
    params("get_non_gate_param_types", nongate, np, [&] { return s.get_non_gate_param_types(n); });
    params("get_gate_modifier_param_types", modifier, mp, [&] { return s.get_gate_modifier_param_types(n); });
    params("get_instruction_param_types", gate || nongate || modifier, gate ? gp : nongate ? np : mp, [&] { return s.get_instruction_param_types(n); });
    for (size_t k = 0; k < 8; ++k) {
        std::string expected;
        for (auto& p : np) {
            if (p.size() == k) expected = p;
        }
        mc::same("get_non_gate_param_types_with_param_count(" + n + ", " + std::to_string(k) + ")", expected, s.get_non_gate_param_types_with_param_count(n, k).value_or(""));
    }
    run.visit(n);
}

void check(mc::Run& run, const std::string& text) {
    const auto f = space::unpack(text);
    if (f[0] == "name") {
        queries(run, f[1]);
    } else if (f[0] == "all") {
        // nothing but the documented names
        const auto& s = InstructionSet::get_instance();
        mc::same_value("the number of gates", static_cast<long long>(ref::gates().size()), static_cast<long long>(s.get_single_qubit_named_gate_list().size() + s.get_two_qubit_named_gate_list().size()));
        for (auto& n : s.get_single_qubit_named_gate_list()) queries(run, n);
        for (auto& n : s.get_two_qubit_named_gate_list()) queries(run, n);
        for (auto& n : s.get_non_gate_list()) queries(run, n);
        for (auto& [n, p] : s.get_named_gate_map()) queries(run, n);
        for (auto& [n, p] : s.get_non_gate_map()) queries(run, n);
        for (auto& [n, p] : s.get_gate_modifier_map()) queries(run, n);
    } else {
        statements(run, { f.begin() + 1, f.end() });
    }
}

void enumerate(mc::Run& run) {
    std::vector<std::string> batch{ "statements" };
    auto flush = [&] {
        if (batch.size() > 1) run.one(space::pack(batch));
        batch.resize(1);
    };
    auto one = [&](const std::string& s) {
        batch.push_back(s);
        if (batch.size() > 24) flush();
    };
    std::vector<std::string> names;
    for (auto& [n, i] : ref::gates()) names.push_back(n);
    const std::vector<std::string> keywords{ "measure", "reset", "init", "barrier", "wait", "inv", "pow", "ctrl" };
    // names near the documented ones
    std::set<std::string> near;
    auto around = names;
    around.insert(around.end(), keywords.begin(), keywords.end());
    for (auto& n : around) {
        std::string up = n, low = n, swapped = n;
        for (auto& c : up) c = static_cast<char>(std::toupper(c));
        for (auto& c : low) c = static_cast<char>(std::tolower(c));
        swapped[0] = static_cast<char>(std::isupper(swapped[0]) ? std::tolower(swapped[0]) : std::toupper(swapped[0]));
        for (auto& x : { up, low, swapped, n + "x", n + "0", n + "1", n + "_", "_" + n, "x" + n, "m" + n, n.substr(1), n.substr(0, n.size() - 1), n + n, "C" + n, n + "dag", n + "90", "m" + n + "90" }) {
            if (x.empty() || std::isdigit(x[0])) continue;
            near.insert(x);
        }
    }
    for (auto* x : { "CX", "CY", "CNot", "cnot", "TOFFOLI", "Toffoli", "R", "Rk", "CRK", "Sdg", "Tdg", "x90", "Barrier", "nop", "skip", "not", "Id", "iSWAP", "sqrtSWAP", "prep", "display", "map", "XY", "q", "pi", "sin", "Measure" }) near.insert(x);
    for (auto& n : around) near.erase(n);
    run.one(space::pack({ "all" }));
    for (auto& n : around) {
        for (auto& p : { "", "1q_", "2q_", "1q", "2q", "3q_", "0q_", "q_", "1", "1q_1q_", " ", "1Q_" }) run.one(space::pack({ "name", p + n }));
        run.one(space::pack({ "name", n + " " }));
        run.one(space::pack({ "name", n + std::string(1, '\0') }));
    }
    for (auto& n : near) run.one(space::pack({ "name", n }));
    run.one(space::pack({ "name", "" }));
    for (auto& s : space::all_bytes()) run.one(space::pack({ "name", s }));

    // operands
    const std::vector<std::string> operands{ "q", "v", "w", "u", "v[0]", "w[0,2]", "w[0:1]", "w[1:1]", "u[0]", "v[1,0,1]", "b", "c", "c[0]", "d[0:1]", "1", "true", "1.5", "pi", "foo" };
    const std::vector<std::string> few{ "q", "v", "w[0:1]", "u", "c", "w[2]", "1" };
    auto join = [](const std::vector<std::string>& from, const std::vector<size_t>& ix) {
        std::string r;
        for (auto i : ix) r += (r.empty() ? "" : ", ") + from[i];
        return r;
    };
    // parameters, and documented ones to start from
    auto documented = [](const std::string& types) {
        std::string r;
        for (char c : types) r += (r.empty() ? "" : ", ") + std::string(c == 'i' ? "3" : "0.5");
        return r.empty() ? r : "(" + r + ")";
    };
    const std::vector<std::string> values{ "true", "2", "0.5", "q", "v[0]", "w", "c", "foo", "-1", "pi" };
    const std::vector<std::string> some{ "false", "2", "1.5", "q" };
    auto parameters = [&](const std::function<void(const std::string&)>& f) {
        f("");
        f("()");
        for (auto& v : values) f("(" + v + ")");
        space::tuples(values.size(), 2, [&](auto& ix) { f("(" + join(values, ix) + ")"); });
        for (size_t n = 3; n <= (run.thorough ? 5u : 3u); ++n) space::tuples(some.size(), n, [&](auto& ix) { f("(" + join(some, ix) + ")"); });
        for (size_t n = 3; n <= 7; ++n) {
            for (auto& fill : { "1", "0.5", "true" }) {
                for (auto& odd : values) {
                    for (size_t at = 0; at < n; ++at) {
                        std::string s;
                        for (size_t k = 0; k < n; ++k) s += (k ? ", " : "(") + std::string(k == at ? odd : fill);
                        f(s + ")");
                    }
                }
            }
        }
    };
    for (auto& [n, info] : ref::gates()) {
        const auto p = documented(info.params);
        for (size_t k = 1; k <= (run.thorough ? 3u : 2u); ++k) space::tuples(operands.size(), k, [&](auto& ix) { one(n + p + " " + join(operands, ix)); });
        space::tuples(few.size(), 3, [&](auto& ix) { one(n + p + " " + join(few, ix)); });
        one(n + p + " q, q, q, q");
        parameters([&](auto& ps) {
            if (ps == "()") return;
            one(n + ps + (info.two ? " v, v" : " v"));
        });
        // one wrong parameter at every place
        const size_t count = std::string(info.params).size();
        for (size_t at = 0; at < count; ++at) {
            for (auto& v : values) {
                std::string s;
                for (size_t k = 0; k < count; ++k) s += (k ? ", " : "(") + (k == at ? v : std::string("1"));
                one(n + s + ") q" + (info.two ? ", q" : ""));
            }
        }
    }
    for (auto& n : near) {
        for (auto* o : { " q", " q, q", " v, w", " b" }) {
            one(n + o);
            one(n + "(1)" + o);
            one("inv." + n + o);
        }
    }
    // non-gates
    for (auto& o : operands) {
        for (auto* n : { "reset", "init", "barrier", "wait(2)" }) one(std::string(n) + " " + o);
        for (auto& t : operands) {
            one(t + " = measure " + o);
            one(t + " = measure(1, 0.5, true) " + o);
        }
        for (auto& v : values) one("wait(" + v + ") " + o);
    }
    parameters([&](auto& ps) {
        if (ps == "()") return;
        one("b = measure" + ps + " q");
        one("d = measure" + ps + " w");
    });
    // modifiers
    const std::vector<std::string> modifiers{ "inv.", "ctrl.", "pow(2).", "pow(0.5).", "pow(true).", "pow(q).", "pow(foo)." };
    const std::vector<std::string> plain{ "inv.", "ctrl.", "pow(-1)." };
    auto chains = [&](const std::vector<std::string>& from, size_t length, const std::vector<std::string>& gates, const std::vector<std::string>& uses) {
        space::words(from, length, [&](auto& chain) {
            for (auto& g : gates) {
                for (auto& u : uses) one(chain + g + " " + u);
            }
        });
    };
    std::vector<std::string> gates;
    for (auto& [n, info] : ref::gates()) gates.push_back(n + documented(info.params));
    const std::vector<std::string> uses{ "q", "v", "q, q", "v, w[0:1]", "v, q", "u, q", "q, u", "q, q, q", "c", "q, b", "w, v" };
    const std::vector<std::string> odd{ "X(1)", "Rx", "Rx(1,2)", "foo", "Rx(q)", "x" };
    chains(modifiers, 1, gates, uses);
    chains(modifiers, 1, odd, { "q", "q, q" });
    chains(modifiers, 2, gates, run.thorough ? uses : std::vector<std::string>{ "q", "v, v" });
    chains(modifiers, 2, odd, { "q", "q, q" });
    chains(plain, 3, run.thorough ? gates : std::vector<std::string>{ "X", "CNOT", "Rz(1)", "SWAP" }, { "q", "q, q", "v, q", "b" });
    chains(plain, run.thorough ? 6 : 4, { "H", "CZ", "U(1,2,3)" }, { "q", "w, w" });
    for (size_t n : { 10, 20, 30 }) {
        for (auto& m : plain) {
            std::string chain;
            for (size_t k = 0; k < n; ++k) chain += k + 1 == n ? m : plain[2 * (k % 2)];
            one(chain + "X q");
            one(m + chain + "X q, q");
            one(chain + "ctrl.X q, q");
        }
    }
    for (auto& n : around) {
        // modifiers by other names
        for (auto& g : { "X q", "X q, q" }) {
            if (n == "pow") one(std::string("pow(2).") + g);
        }
    }
    flush();
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
