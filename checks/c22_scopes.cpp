// C22: scopes nest: inner names shadow outer ones until the scope is left.
// Explored: all sequences of opening and closing scopes, registering names, instructions and functions, and adding
// statements and variables, against a stack of maps and lists; and histories that nest up to 300 deep.
#include "lang.hpp"

namespace {

namespace tree = cqasm::tree;
namespace values = cqasm::v3x::values;
namespace semantic = cqasm::v3x::semantic;
namespace annotations = cqasm::annotations;
using cqasm::v3x::analyzer::Analyzer;
using cqasm::v3x::analyzer::Scope;

struct Open : Analyzer {
    using Analyzer::Analyzer;
    tree::One<semantic::Block> block() { return current_block(); }
    tree::Any<semantic::Variable>& variables() { return current_variables(); }
    const tree::Any<semantic::Variable>& variables() const { return current_variables(); }
    Scope& outermost() { return global_scope(); }
    Scope& innermost() { return current_scope(); }
};

using Pos = std::pair<uint32_t, uint32_t>;
struct Range {
    Pos first, last;
};

const std::vector<Range>& ranges() {
    static const std::vector<Range> r{ { { 5, 5 }, { 5, 9 } }, { { 2, 30 }, { 2, 38 } }, { { 9, 1 }, { 12, 2 } }, { { 5, 7 }, { 5, 8 } }, { { 4, 8 }, { 9, 1 } } };
    return r;
}

struct ModelScope {
    std::map<std::string, long long> names;
    std::vector<const void*> statements, variables;
    std::vector<std::pair<char, long long>> instructions;
    std::optional<Range> location;
};

values::Value number(long long i) { return tree::make<values::ConstInt>(i); }

struct World {
    Open a{ "3.0" };
    std::list<ModelScope> m{ ModelScope{} };  // innermost first
    std::vector<std::pair<char, long long>> functions;
    std::vector<tree::One<semantic::Statement>> statements;
    std::vector<tree::One<semantic::Variable>> variables;
    long long counter = 0;

    void apply(const std::string& op) {
        ++counter;
        const char c = op[0];
        if (c == '+') {
            a.push_scope();
            m.emplace_front();
        } else if (c == '-') {
            if (m.size() == 1) return;
            a.pop_scope();
            m.pop_front();
        } else if (c == 'v') {
            bool refused = false;
            try {
                a.register_variable(op.substr(1), number(counter));
            } catch (const cqasm::v3x::resolver::NameResolutionFailure& e) {
                refused = true;
                MC_REQUIRE(std::string(e.what()).find(op.substr(1)) != std::string::npos, "the error does not name what is defined twice");
            }
            const bool defined = !m.front().names.emplace(op.substr(1), counter).second;
            mc::same_value("refused to define " + op.substr(1) + " again", defined, refused);
        } else if (c == 's') {
            tree::One<semantic::Statement> s = tree::make<semantic::AsmDeclaration>("s" + std::to_string(counter), "");
            auto& scope = m.front();
            if (op.size() > 1) {
                const auto r = ranges()[static_cast<size_t>(op[1] - '0')];
                s->set_annotation(annotations::SourceLocation{ "input.cq", { { r.first.first, r.first.second }, { r.last.first, r.last.second } } });
                if (scope.location) {
                    scope.location->first = std::min(scope.location->first, r.first);
                    scope.location->last = std::max(scope.location->last, r.last);
                } else {
                    scope.location = r;
                }
            }
            statements.push_back(s);
            a.add_statement_to_current_scope(s);
            scope.statements.push_back(&*s);
        } else if (c == 'd') {
            tree::One<semantic::Variable> v = tree::make<semantic::Variable>("v" + std::to_string(counter), tree::make<cqasm::v3x::types::Qubit>());
            variables.push_back(v);
            a.add_variable_to_current_scope(v);
            m.front().variables.push_back(&*v);
        } else if (c == 'i') {
            // the resolved instruction tells by its reference which one it is: "foo" with one or two names for the same type
            a.register_instruction("foo", std::string(1, op[1]));
            m.front().instructions.push_back({ op[1], counter });
        } else if (c == 'f') {
            const auto n = counter;
            a.register_consteval_core_function("fun", std::string(1, op[1]), [n](const values::Values&) { return number(n); });
            functions.push_back({ op[1], n });
        } else {
            mc::fail("unknown operation");
        }
    }

    static std::string text(const annotations::SourceLocation* l) {
        if (!l) return "none";
        return std::to_string(l->range.first.line) + ":" + std::to_string(l->range.first.column) + ".." + std::to_string(l->range.last.line) + ":" + std::to_string(l->range.last.column);
    }

    void compare() {
        // the names
        for (auto* n : { "a", "b", "c" }) {
            std::string expected = "no", got;
            for (auto& s : m) {
                if (auto at = s.names.find(n); at != s.names.end()) {
                    expected = std::to_string(at->second);
                    break;
                }
            }
            try {
                const auto v = a.resolve_variable(n);
                got = std::to_string(v->as_const_int()->value);
            } catch (const cqasm::v3x::resolver::NameResolutionFailure& e) {
                got = "no";
                MC_REQUIRE(std::string(e.what()).find(n) != std::string::npos, "the error does not name what is not defined");
            }
            mc::same(std::string("what ") + n + " means", expected, got);
        }
        // instructions: the innermost scope with an applicable one
        for (auto* arg : { "i", "f", "none" }) {
            values::Values args;
            if (*arg == 'i') args.add(number(1));
            if (*arg == 'f') args.add(tree::make<values::ConstFloat>(1.5));
            std::string expected = "no", got;
            for (auto& s : m) {
                for (auto& [type, n] : s.instructions) {
                    if (*arg != 'n' && (*arg == 'i' || type == 'f')) expected = type;
                }
                if (expected != "no") break;
            }
            try {
                const auto v = a.resolve_instruction("foo", args);
                auto* g = v->as_non_gate_instruction();
                MC_REQUIRE(g && g->operands.size() == 1, "not the instruction");
                got = g->operands[0]->as_const_int() ? "i" : "f";
            } catch (const cqasm::error::AnalysisError& e) {
                got = "no";
                MC_REQUIRE(std::string(e.what()).find("foo") != std::string::npos, "the error does not name the instruction");
            }
            mc::same(std::string("the instruction for ") + arg, expected, got);
        }
        // functions are known in all scopes
        for (auto* arg : { "i", "f" }) {
            values::Values args{ *arg == 'i' ? number(1) : values::Value{ tree::make<values::ConstFloat>(1.5) } };
            std::string expected = "no", got;
            for (auto& [type, n] : functions) {
                if (*arg == 'i' || type == 'f') expected = std::to_string(n);
            }
            try {
                got = std::to_string(a.resolve_function("fun", args)->as_const_int()->value);
            } catch (const cqasm::error::AnalysisError&) {
                got = "no";
            }
            mc::same(std::string("the function for ") + arg, expected, got);
        }
        // what is in the scopes
        auto s = m.begin();
        size_t depth = 0;
        std::set<const void*> blocks;
        for (Open view = a; ; view.pop_scope()) {  // from the innermost scope outwards
            const Scope& r = view.innermost();
            const Open& seen = view;
            MC_REQUIRE(view.block().get_ptr() == r.block.get_ptr() && &view.variables() == &r.variables && &seen.variables() == &r.variables, "the current block and variables");
            MC_REQUIRE((&view.innermost() == &view.outermost()) == (depth + 1 == m.size()), "the number of scopes");
            const auto where = " of scope " + std::to_string(depth++);
            MC_REQUIRE(!r.block.empty(), "no block" + where);
            MC_REQUIRE(blocks.insert(&*r.block).second, "two scopes share a block");
            std::vector<const void*> statements, variables;
            for (auto& x : r.block->statements) statements.push_back(&*x);
            for (auto& x : r.variables) variables.push_back(&*x);
            MC_REQUIRE(statements == s->statements, "the statements" + where);
            MC_REQUIRE(variables == s->variables, "the variables" + where);
            std::string l = "none";
            if (s->location) {
                const auto& [f, t] = *s->location;
                l = std::to_string(f.first) + ":" + std::to_string(f.second) + ".." + std::to_string(t.first) + ":" + std::to_string(t.second);
            }
            mc::same("the location" + where, l, text(r.block->get_annotation_ptr<annotations::SourceLocation>()));
            if (auto* loc = r.block->get_annotation_ptr<annotations::SourceLocation>()) mc::same("the file name" + where, "input.cq", loc->file_name.value_or(""));
            if (++s == m.end()) break;
        }
        // the locations of the statements are theirs
        for (auto& x : statements) {
            auto* l = x->get_annotation_ptr<annotations::SourceLocation>();
            bool ok = !l;
            for (auto& r : ranges()) {
                ok = ok || (l->range.first.line == r.first.first && l->range.first.column == r.first.second && l->range.last.line == r.last.first && l->range.last.column == r.last.second);
            }
            MC_REQUIRE(ok, "the location of a statement changed");
        }
    }

    std::string state() const {
        std::string r;
        for (auto& s : m) {
            r += "{";
            for (auto& [n, v] : s.names) r += n + std::to_string(v);
            for (auto& [t, n] : s.instructions) r += t;
            r += std::to_string(s.statements.size()) + "," + std::to_string(s.variables.size()) + "}";
        }
        return r + std::to_string(functions.size());
    }
};

void check(mc::Run& run, const std::string& text) {
    const auto ops = space::unpack(text);
    World w;
    const bool every = ops.size() > 8;  // the shorter ones are explored by themselves
    for (auto& op : ops) {
        w.apply(op);
        run.step();
        if (every) w.compare();
    }
    w.compare();
    run.visit(w.state());
    // everything that was registered goes when its scope is left
    while (w.m.size() > 1) {
        w.apply("-");
        w.compare();
    }
}

void sequences(mc::Run& run, const std::vector<std::string>& ops, size_t from, size_t to) {
    for (size_t n = from; n <= to; ++n) {
        space::tuples(ops.size(), n, [&](auto& ix) {
            std::vector<std::string> v;
            for (auto i : ix) v.push_back(ops[i]);
            run.one(space::pack(v));
        });
    }
}

void enumerate(mc::Run& run) {
    run.one("");
    sequences(run, { "+", "-", "va", "vb", "s", "s0", "s1", "s2", "s3", "s4", "d", "ii", "if", "fi", "ff" }, 1, run.thorough ? 5 : 4);
    sequences(run, { "+", "-", "va", "vb", "s0", "s1", "d", "if" }, 5, run.thorough ? 7 : 5);
    sequences(run, { "+", "-", "va", "vb" }, 6, run.thorough ? 10 : 8);
    sequences(run, { "+", "-", "ii", "if" }, 5, run.thorough ? 9 : 7);
    sequences(run, { "+", "-", "s", "s0", "s1" }, 5, run.thorough ? 8 : 6);
    // deep ones: at each level, something
    for (size_t depth : { 5, 20, 64, 300 }) {
        for (size_t at = 0; at < depth; at += depth > 20 ? 37 : 1) {
            for (auto* x : { "va", "ii", "if", "s0", "d", "fi" }) {
                std::vector<std::string> v{ "va", "ff" };
                for (size_t k = 0; k < depth; ++k) {
                    v.push_back("+");
                    if (k == at) v.push_back(x);
                    if (k % 3 == 1) v.push_back("vb");
                    if (k % 5 == 2) v.push_back("s2");
                }
                if (depth <= 20) {
                    for (size_t k = 0; k < depth / 2; ++k) v.push_back("-");
                    v.push_back("va");
                    run.one(space::pack(v));
                } else {
                    run.one(space::pack(v));
                }
            }
        }
    }
    // many statements and variables in one scope
    for (size_t n : { 10, 100, 500 }) {
        for (auto* x : { "s0", "s1", "s", "d", "+", "va", "fi", "ii" }) {
            std::vector<std::string> v{ "s0" };
            for (size_t k = 0; k < n; ++k) v.push_back(k % 7 == 3 ? "s" : k % 7 == 5 ? "d" : x);
            run.one(space::pack(v));
        }
    }
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
