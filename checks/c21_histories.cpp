// C21: analysing never changes the analyzer, and copies of an analyzer are independent.
// Explored: all sequences of operations on two analyzers: analyses of ten texts in several ways, registrations, opening
// and closing scopes, copying and assigning one to the other, changing a result that was given out. Every result is
// compared with what a new analyzer gives that had only the registrations, and looked at again at the end.
#include <deque>
#include <unordered_map>

#include "lang.hpp"

namespace {

using cqasm::v3x::analyzer::AnalysisResult;
using cqasm::v3x::analyzer::Analyzer;
namespace tree = cqasm::tree;
namespace values = cqasm::v3x::values;

const std::vector<std::string>& texts() {
    static const std::vector<std::string> r{
        "version 3.0; qubit[2] q; bit b; Rx(pi) q[0]\nb = measure q[1]",
        "version 3; bit[2] q\n qubit b\n\n Rx(   pi ) b; q[1,0] = measure c; qubit b; barrier b",
        "version 3; qubit q; qubit q; X foo; qubit z; X z; X q; H q[0]",
        "version 3; X [",
        "version 3\nqubit[3] r; X r[k]; Rx(f(k)) r[0]; Rx(f(true) + tau) r[2]",
        "version 3; bit b; qubit q; X b; reset b; X q; reset q",
        "version 2; qubit q; bit k; X q",
        "version 3",
        "version 3; qubit[5] a; qubit[2] q; X a[9]; X q[0:7]; X q[1]; qubit k; X k",
        "asm(x)'''y'''",
        "version 3; asm(x) '''y'''; qubit pi; qubit q; inv.pow(2).S q; ctrl.pow(eu).S q, pi",
    };
    return r;
}

struct Parsed {
    cqasm::v3x::parser::ParseResult result;
    std::string dump;
};

std::string dump(const cqasm::v3x::parser::ParseResult& r) {
    return r.errors.empty() ? ref::dump(real::convert(r, "input.cq"), true) : real::list(real::errors(r.errors));
}

const Parsed& parsed(size_t k) {
    static std::vector<Parsed> r = [] {
        std::vector<Parsed> v;
        for (auto& t : texts()) {
            v.push_back({ cqasm::v3x::parser::parse_string(t, "input.cq"), "" });
            v.back().dump = dump(v.back().result);
        }
        return v;
    }();
    return r[k];
}

std::string dump(const AnalysisResult& r) {
    std::string s = real::list(real::errors(r.errors)) + "\n";
    for (auto& e : r.errors) s += std::string(e.what()) + "\n";
    if (r.errors.empty()) s += ref::dump(real::convert(r, "input.cq"), true);
    return s;
}

values::Value one(cqasm::v3x::primitives::Int i) { return tree::make<values::ConstInt>(i); }

/// a registration, or opening or closing a scope; false if it is refused
bool apply(Analyzer& a, char op) {
    using cqasm::v3x::values::Values;
    try {
        switch (op) {
            case 'v': a.register_variable("k", one(1)); break;
            case 'w': a.register_variable("c", tree::make<values::ConstBool>(true)); break;
            case 'f': a.register_consteval_core_function("f", "i", [](const Values& v) { return one(v[0]->as_const_int()->value + 1); }); break;
            case 'g': a.register_consteval_core_function("f", "b", [](const Values&) { return one(7); }); break;
            case 'i': a.register_instruction("X", "B"); break;
            case 'j': a.register_instruction("reset", "B"); break;
            case '+': a.push_scope(); break;
            case '-': a.pop_scope(); break;
            default: mc::fail("unknown operation");
        }
        return true;
    } catch (const cqasm::error::AnalysisError&) {
        return false;
    }
}

Analyzer replay(const std::string& config) {
    auto a = real::fresh();
    for (char c : config) apply(a, c);
    return a;
}

/// what a new analyzer says that had only these registrations
const std::string& expected(const std::string& config, size_t text) {
    static std::unordered_map<std::string, std::string> known;
    const auto key = config + "/" + std::to_string(text);
    auto at = known.find(key);
    if (at == known.end()) {
        if (known.size() > 200000) known.clear();
        const auto p = cqasm::v3x::parser::parse_string(texts()[text], "input.cq");
        const auto r = replay(config).analyze(p);
        if (config.empty() && p.errors.empty()) real::same_analysis(ref::analyze(*ref::parse(texts()[text]).program), r, "input.cq");
        at = known.emplace(key, dump(r)).first;
    }
    return at->second;
}

std::string names(const Analyzer& a) {
    std::string r;
    for (auto* n : { "q", "b", "r", "z", "k", "c", "pi", "true", "operator+" }) {
        try {
            r += std::string(n) + ":" + ref::dump(real::Convert{ std::nullopt, {} }.value(*a.resolve_variable(n)), false) + " ";
        } catch (const cqasm::error::AnalysisError&) {
            r += std::string(n) + ":no ";
        }
    }
    return r;
}

const std::string& names(const std::string& config) {
    static std::unordered_map<std::string, std::string> known;
    auto at = known.find(config);
    if (at == known.end()) at = known.emplace(config, names(replay(config))).first;
    return at->second;
}

struct Subject {
    Analyzer analyzer;
    std::string config;
};

struct Kept {
    AnalysisResult result;
    std::string dump;
};

void check(mc::Run& run, const std::string& text) {
    Subject a{ real::fresh(), "" };
    std::optional<Subject> b;
    std::deque<Kept> results;
    const auto ops = space::unpack(text);
    size_t n = 0;
    for (auto& op : ops) {
        ++n;
        run.step();
        const auto where = "operation " + std::to_string(n) + " (" + op + "): ";
        if (op == "copy") {
            b.emplace(a);
        } else if (op == "assign") {
            if (b) {
                a.analyzer = b->analyzer;
                a.config = b->config;
            }
        } else if (op == "swap") {
            if (b) std::swap(a, *b);
        } else if (op == "change") {
            if (!results.empty()) {
                auto& r = results.back().result;
                r.errors.clear();
                if (!r.root.empty()) {
                    for (auto& v : r.root->variables) {
                        v->name = "changed";
                        v->typ.reset();
                    }
                    for (auto& s : r.root->block->statements) s.reset();
                    r.root->block->statements.get_vec().clear();
                    r.root->variables.get_vec().clear();
                    r.root.reset();
                }
                results.pop_back();
            }
        } else {
            Subject* s = op[0] == 'A' ? &a : b ? &*b : nullptr;
            if (!s) continue;
            if (std::isdigit(static_cast<unsigned char>(op[1]))) {
                const auto k = std::stoul(op.substr(1));
                const auto& p = parsed(k);
                auto& an = s->analyzer;
                AnalysisResult r = n % 3 == 0 ? an.analyze_string(texts()[k], "input.cq")
                    : n % 3 == 1 || !p.result.errors.empty() ? an.analyze(p.result)
                                                             : an.analyze(*p.result.root->as_program());
                const auto d = dump(r);
                mc::same(where + "the result", expected(s->config, k), d);
                results.push_back({ std::move(r), d });
            } else if (op[1] == '-') {
                if (std::count(s->config.begin(), s->config.end(), '+') > std::count(s->config.begin(), s->config.end(), '-')) {
                    apply(s->analyzer, '-');
                    s->config += '-';
                }
            } else {
                auto m = replay(s->config);
                mc::same_value(where + "accepted", apply(m, op[1]), apply(s->analyzer, op[1]));
                s->config += op[1];
            }
        }
        run.visit(a.config + "|" + (b ? b->config : "none"));
    }
    for (auto& r : results) mc::same("an earlier result, at the end", r.dump, dump(r.result));
    for (size_t k = 0; k < texts().size(); ++k) mc::same("a syntax tree that was analysed, at the end", parsed(k).dump, dump(parsed(k).result));
    auto final = [&](const Subject& s) {
        mc::same("the names known at the end", names(s.config), names(s.analyzer));
        auto copy = s;
        for (size_t k : { 0, 1, 4, 5 }) mc::same("the result for text " + std::to_string(k) + " at the end", expected(s.config, k), dump(copy.analyzer.analyze(parsed(k).result)));
    };
    final(a);
    if (b) final(*b);
}

void sequences(mc::Run& run, const std::vector<std::string>& ops, size_t from, size_t to) {
    for (size_t n = from; n <= to; ++n) {
        space::tuples(ops.size(), n, [&](auto& ix) {
            std::vector<std::string> v;
            for (auto i : ix) v.push_back(ops[i]);
            run.one(space::pack(v));
        });
    }
}

void enumerate(mc::Run& run) {
    run.one("");
    std::vector<std::string> all{ "copy", "assign", "swap", "change" };
    for (size_t k = 0; k < texts().size(); ++k) {
        all.push_back("A" + std::to_string(k));
        all.push_back("B" + std::to_string(k));
    }
    for (char c : std::string("vwfgij+-")) {
        all.push_back(std::string("A") + c);
        all.push_back(std::string("B") + c);
    }
    sequences(run, all, 1, run.thorough ? 3 : 2);
    // one analyzer: analyses and registrations
    std::vector<std::string> one{ "change" };
    for (size_t k = 0; k < texts().size(); ++k) one.push_back("A" + std::to_string(k));
    for (char c : std::string("vfi+-")) one.push_back(std::string("A") + c);
    sequences(run, one, 3, run.thorough ? 4 : 3);
    sequences(run, { "A0", "A1", "A2", "A4", "A8", "change", "Av" }, 4, run.thorough ? 6 : 4);
    sequences(run, { "A0", "A2", "A1" }, 5, run.thorough ? 9 : 7);
    // two
    sequences(run, { "copy", "Av", "Bv", "Af", "Bg", "Ai", "Bj", "A4", "B4", "A5", "B5", "assign" }, 3, run.thorough ? 5 : 4);
    sequences(run, { "copy", "A+", "A-", "Av", "A4", "B+", "Bv", "B4", "swap" }, 3, run.thorough ? 6 : 4);
    // many analyses, with everything once in between
    for (size_t n : { 20, 100 }) {
        for (auto& x : all) {
            std::vector<std::string> v{ "copy" };
            for (size_t k = 0; k < n; ++k) {
                v.push_back((k % 2 ? "B" : "A") + std::to_string(k % texts().size()));
                if (k == n / 2) v.push_back(x);
            }
            run.one(space::pack(v));
        }
    }
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
