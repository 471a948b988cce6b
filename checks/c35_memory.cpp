// C35: the same input gives the same bytes, whatever memory holds and wherever it lies, and results stand alone.
// Explored: every use of a pool of programs under every combination of what fresh memory, released memory and the stack hold
// and of the order of addresses; and for the objects that a use of the library leaves, every subset destroyed, in both orders,
// with what remains compared with what it was.
#include "libqasm/v3x/cqasm_python.hpp"
#include "uses.hpp"

namespace {

using namespace uses;
namespace tree = cqasm::tree;

struct Mode {
    std::string name;
    int fresh, freed;
    memory::Order order;
};

std::vector<Mode> modes(bool all) {
    const std::vector<std::pair<std::string, memory::Order>> orders{ { "of the system", memory::SYSTEM }, { "at rising addresses", memory::UP }, { "at falling addresses", memory::DOWN }, { "from both ends", memory::BOTH } };
    const std::vector<int> bytes = { memory::VARYING, memory::SMALL, 0x00, 0xFF, 0x01, 0x7F, 0x80, 0x41, 0x5A };
    std::vector<Mode> r;
    for (auto& o : orders) {
        for (size_t k = 0; k < bytes.size(); ++k) {
            if (!all && o.second != memory::SYSTEM && k > 1) continue;
            r.push_back({ "memory " + o.first + (bytes[k] < 256 ? " filled with byte " + std::to_string(bytes[k]) : bytes[k] == memory::SMALL ? " filled with small words" : " filled with varying words"), bytes[k], bytes[bytes.size() - 1 - k], o.second });
        }
    }
    return r;
}

/// what the stack holds
__attribute__((noinline)) void fill_stack(int byte) {
    char b[96 * 1024];
    memory::fill(b, byte, sizeof b);
    asm volatile("" : : "r"(b) : "memory");
}

std::string text_of(const std::string& kind, const Subject& s) {
    std::string r = kind == "python" ? "" : outcome(s, kind);
    auto add = [&](auto& result) {
        for (auto& t : result.to_strings()) r += "\n" + t;
        r += "\n" + result.to_json();
        for (auto& e : result.errors) r += std::string("\n") + e.what() + "\n" + e.to_json();
        if (result.errors.empty()) {
            std::ostringstream o;
            o << *result.root << "\n" << ::tree::base::serialize(result.root);
            r += o.str();
        }
    };
    if ((kind == "parse" || kind == "file") && s.parsed) add(*s.parsed);
    if ((kind == "analyze" || kind == "whole") && s.analyzed) add(*s.analyzed);
    if (kind == "python") {
        for (auto& t : *s.texts) r += "\n" + t;
    }
    return r;
}

/// gates with operands of all kinds, and a function
void extend(Analyzer& a) {
    a.register_consteval_core_function("f", "i", [](const values::Values& v) { return one(v[0]->as_const_int()->value + 1); });
    for (auto* o : { "Qi", "iQ", "QiQ", "i", "f", "bQV", "VQ", "BB", "QQQQ", "QQQQQi", "ii", "ff" }) a.register_instruction("X", o);
    for (auto* o : { "Qi", "iQ", "BQi", "i", "f", "bBQ", "WV", "" }) a.register_instruction("measure", o);
}

std::string use(const std::string& kind, const std::string& text) {
    std::string r;
    try {
        std::string name = "input.cq";
        Subject s;
        if (kind == "python") {
            V3xAnalyzer a{ "3.0", false };
            s.texts = a.analyze_string(text, name);
            for (auto& t : V3xAnalyzer::parse_string(text, name)) s.texts->push_back(t);
            s.texts->push_back(V3xAnalyzer::parse_string_to_json(text, name));
            s.texts->push_back(a.analyze_string_to_json(text, name));
        } else {
            prepare(s, kind, text);
            if (kind == "analyze" || kind == "copy" || kind == "whole") extend(*s.analyzer);
            act(s, kind, text, name);
        }
        if (kind != "change" && kind != "new") s.analyzer.reset();
        if (kind != "parse") s.parsed.reset();
        name.assign(name.size(), '#');
        r = text_of(kind, s);
    } catch (const std::exception& e) {
        r = std::string("threw ") + e.what();
    }
    return r;
}

void same_bytes(mc::Run& run, const std::string& kind, const std::string& text) {
    memory::fresh_byte = 0xA5;
    memory::freed_byte = 0x5A;
    memory::order = memory::SYSTEM;
    const auto expected = use(kind, text);
    for (auto& m : modes(run.thorough)) {
        memory::fresh_byte = m.fresh;
        memory::freed_byte = m.freed;
        memory::order = m.order;
        if (m.order != memory::SYSTEM) memory::new_arena();
        fill_stack(m.fresh);
        memory::count = 0;
        memory::fail_at = 0;
        memory::on = true;
        const std::string got = use(kind, text);
        memory::on = false;
        mc::same(m.name, expected, got);
        run.step();
    }
    memory::order = memory::SYSTEM;
    run.visit(kind + text);
}

// ------------------------------------------------------------------------------------------------ lifetimes

/// everything that a use of the library leaves; each can be destroyed while the others remain
struct Remains {
    std::optional<std::string> text, name;
    std::optional<Analyzer> analyzer, copy;
    std::optional<ParseResult> parsed;
    std::optional<AnalysisResult> analyzed, again;
    std::vector<Error> errors;
    tree::Maybe<cqasm::v3x::semantic::Program> reread;
    tree::Any<cqasm::v3x::semantic::Variable> variables;
    std::vector<tree::One<cqasm::v3x::semantic::Statement>> parts;
    std::vector<values::Value> constants;
    static constexpr size_t COUNT = 9;

    explicit Remains(const std::string& t) {
        text = t + std::string(40, ' ');
        name = "a/name/that/is/longer/than/a/small/string/input.cq";
        // an analyzer that others were copied from and that knows more than the default one
        {
            auto first = real::fresh();
            std::string k = "k";
            first.register_variable(k, one(5));
            std::string f = "f", spec = "i";
            first.register_consteval_core_function(f, spec, [](const values::Values& v) { return one(v[0]->as_const_int()->value + 1); });
            std::string gate = "X", operands = "Qi";
            first.register_instruction(gate, operands);
            k.assign(1, '#');
            f.assign(1, '#');
            spec.assign(1, '#');
            gate.assign(4, '#');
            operands.assign(2, '#');
            analyzer.emplace(first);
            copy.emplace(std::move(first));
        }
        parsed.emplace(parser::parse_string(*text, *name));
        analyzed.emplace(analyzer->analyze(*parsed));
        again.emplace(copy->analyze_string(*text, *name));
        errors.assign(analyzed->errors.begin(), analyzed->errors.end());
        if (analyzed->errors.empty()) {
            reread = ::tree::base::deserialize<cqasm::v3x::semantic::Program>(::tree::base::serialize(analyzed->root));
            variables = analyzed->root->variables;
            for (auto& s : analyzed->root->block->statements) parts.push_back(s);
        }
        constants.push_back(analyzer->resolve_variable("pi"));
        constants.push_back(analyzer->resolve_variable("k"));
    }

    static const char* called(size_t k) {
        static const char* r[COUNT]{ "the text and the name", "the analyzer", "its copy", "the parse result", "the analysis result", "the other result", "the errors", "the tree written and read", "the statements" };
        return r[k];
    }

    void destroy(size_t k) {
        switch (k) {
        case 0: text.reset(); name.reset(); break;
        case 1: analyzer.reset(); break;
        case 2: copy.reset(); break;
        case 3: parsed.reset(); break;
        case 4: analyzed.reset(); break;
        case 5: again.reset(); break;
        case 6: errors.clear(); errors.shrink_to_fit(); break;
        case 7: reread.reset(); break;
        case 8: parts.clear(); parts.shrink_to_fit(); variables.reset(); constants.clear(); constants.shrink_to_fit(); break;
        default: std::abort();
        }
    }

    [[nodiscard]] bool there(size_t k) const {
        switch (k) {
        case 1: return analyzer.has_value();
        case 2: return copy.has_value();
        case 3: return parsed.has_value();
        case 4: return analyzed.has_value();
        case 5: return again.has_value();
        case 6: return !errors.empty();
        case 7: return !reread.empty();
        case 8: return !parts.empty();
        default: return false;
        }
    }

    [[nodiscard]] std::string show(size_t k) const {
        std::string r;
        switch (k) {
        case 1: return state(*analyzer) + full(Analyzer{ *analyzer }.analyze_string("version 3.0; qubit[2] q; X(1) q; X q, f(k)", "other.cq"));
        case 2: return state(*copy) + full(Analyzer{ *copy }.analyze_string("version 3.0; qubit[2] q; X(1) q; X q, f(k)", "other.cq"));
        case 3: return full(*parsed);
        case 4: return full(*analyzed);
        case 5: return full(*again);
        case 6:
            for (auto& e : errors) r += std::string(e.what()) + e.to_json();
            return r;
        case 7: return (reread.is_well_formed() ? "" : "not well formed ") + ::tree::base::serialize(reread) + ref::dump(real::Convert{ "a/name/that/is/longer/than/a/small/string/input.cq", {} }.program(*reread), false);
        case 8: {
            std::ostringstream o;
            for (auto& s : parts) {
                o << *s;
                if (auto* p = s->get_annotation_ptr<parser::SourceLocation>()) o << *p;
            }
            for (auto& v : variables) o << *v;
            for (auto& c : constants) o << *c;
            return o.str();
        }
        default: return "";
        }
    }

    template <class R>
    static std::string full(const R& r) {
        std::string s;
        for (auto& e : r.errors) s += std::string(e.what()) + "\n" + e.to_json() + "\n";
        if (!r.root.empty() && r.errors.empty()) {
            std::ostringstream o;
            o << *r.root;
            s += o.str();
        }
        for (auto& t : r.to_strings()) s += t + "\n";
        return s + r.to_json();
    }
};

void lifetimes(mc::Run& run, const std::string& text) {
    memory::order = memory::SYSTEM;
    memory::fresh_byte = 0xA5;
    memory::freed_byte = 0x5A;
    std::vector<std::string> expected(Remains::COUNT);
    {
        const Remains r{ text };
        for (size_t k = 1; k < Remains::COUNT; ++k) {
            if (r.there(k)) expected[k] = r.show(k);
        }
    }
    for (size_t set = 1; set < (1u << Remains::COUNT) - 1; ++set) {
        // all sets of up to two destroyed, and of up to two that remain; thorough: all sets
        const auto n = static_cast<size_t>(__builtin_popcountl(set));
        if (!run.thorough && n > 2 && n < Remains::COUNT - 2) continue;
        for (int down = 0; down < 2; ++down) {
            if (n == 1 && down) continue;
            Remains r{ text };
            std::string destroyed;
            for (size_t i = 0; i < Remains::COUNT; ++i) {
                const auto k = down ? Remains::COUNT - 1 - i : i;
                if (!(set >> k & 1)) continue;
                r.destroy(k);
                destroyed += std::string(destroyed.empty() ? "" : ", ") + Remains::called(k);
            }
            for (size_t k = 1; k < Remains::COUNT; ++k) {
                if (set >> k & 1 || !r.there(k)) continue;
                mc::same(std::string(Remains::called(k)) + " after " + destroyed + " were destroyed", expected[k], r.show(k));
            }
            run.step();
        }
    }
    run.visit("lifetimes" + text);
}

void check(mc::Run& run, const std::string& text) {
    const auto f = space::unpack(text);
    if (f[0] == "bytes") same_bytes(run, f[1], f[2]);
    else if (f[0] == "lifetimes") lifetimes(run, f[1]);
    else mc::fail("unknown case");
}

void enumerate(mc::Run& run) {
    auto bytes = [&](const std::string& kind, const std::string& text) { run.one(space::pack({ "bytes", kind, text })); };
    for (auto* o : { "variable", "other variable", "function", "overload", "instruction", "new instruction", "open", "close" }) bytes("change", o);
    for (auto* v : { "3.0", "2.0", "3.0.0.1" }) bytes("new", v);
    bytes("fold", "A \"text\" of more than a few letters\n");
    bytes("fold", std::string("\0\xff\x80%", 4));
    bytes("error", "a message \" that is longer than a short one");
    bytes("error", "");
    std::vector<std::string> programs;
    for (auto& f : lang::forms()) programs.push_back("version 3;" + f + "\n");
    for (auto& s : pool::statements()) programs.push_back(pool::program("3.0", { "qubit[3] q", "qubit[2] r", "bit[3] b", s }));
    for (auto& s : pool::more()) programs.push_back(pool::program("3.0", { "qubit[3] q", "qubit[2] r", "bit[3] b", s }));
    for (auto* pool : { &pool::statements(), &pool::more() }) {
        for (auto& s : *pool) programs.push_back(pool::program("3.0", { "qubit[5] q", "qubit[4] r", "bit b", "bit[2] c", s }));
    }
    for (auto* x : { "X q[4,2,0]", "CNOT q[4,2,0], r[0,1,3]", "c[1,0] = measure r[3,0]", "X q[0:1,4,2:3]", "c = measure q[3,1]", "reset r[3,0:1]", "Rx(1 + 2 * 3 - 4) q[1,3,0,0]", "inv.pow(2).CZ q[4,3], r[1,0]", "U(1,2,3) q[4,2,0,1,3]", "wait(3) r[3,2,1,0]", "barrier q[1,0,2]" }) programs.push_back(pool::program("3.0", { "qubit[5] q", "qubit[4] r", "bit b", "bit[2] c", x }));
    for (auto& v : pool::versions()) programs.push_back(pool::program(v, { "qubit q", "X q" }));
    for (auto* p : { "version 3; X [", "version 3; 1.5e999", "version 3; qubit q; X q\n$", "", "\xff", "version 9999999999999999999999", "version 3; qubit[99999999999999999999] q", "version 3; asm(x) '''", "version 3 /* x", "version 3; X q q; Y [; Z ]" }) programs.emplace_back(p);
    for (auto* x : { "X q, 1", "X 1, 2", "X 1, 2.5", "X 2, q", "X q, f(k), q", "X k", "X 1.5", "X true, q[0], r", "X q, q[1]", "X q[0,1], r", "X b, b", "X q, q, q, q", "X r[0,1], r, r, q[2,0]", "X q, q, q, q, q, 1", "inv.X q, 1", "b = measure q", "b[1] = measure q[0]" }) programs.push_back(pool::program("3.0", { "qubit[3] q", "qubit[2] r", "bit[3] b", x }));
    const auto singles = programs.size();
    for (auto& s : pool::statements()) {
        for (auto& t : pool::statements()) programs.push_back(pool::program("3.0", { s, t, "qubit[2] q2", "X q2[1]" }));
    }
    if (run.thorough) {
        for (auto& s : pool::statements()) {
            for (auto& t : pool::more()) programs.push_back(pool::program("3.0", { s, t, "qubit[2] q2", "X q2[1]" }));
        }
    }
    for (size_t k = 0; k < programs.size(); ++k) {
        for (auto* kind : { "parse", "analyze", "whole", "python", "copy", "strings", "json", "write", "read", "copy tree" }) {
            const auto s = std::string(kind);
            if (k >= singles && s != "analyze" && s != "parse") continue;
            bytes(kind, programs[k]);
        }
        if (k < singles) run.one(space::pack({ "lifetimes", programs[k] }));
    }
}

}  // namespace

int main(int argc, char** argv) {
    mc::Options o;
    o.hang_seconds = 60;
    return mc::main(argc, argv, enumerate, check, o);
}
