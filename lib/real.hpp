// Runs the real parser and analyzer, and turns what they return into the nodes of the reference model (ref.hpp).
#pragma once

#include <functional>

#include "json_reader.hpp"
#include "libqasm/v3x/analysis_result.hpp"
#include "libqasm/v3x/analyzer.hpp"
#include "libqasm/v3x/cqasm.hpp"
#include "libqasm/v3x/instruction_set.hpp"
#include "libqasm/v3x/parse_helper.hpp"
#include "libqasm/v3x/parse_result.hpp"
#include "libqasm/v3x/syntactic.hpp"
#include "libqasm/v3x/semantic.hpp"
#include "libqasm/v3x/types.hpp"
#include "libqasm/v3x/values.hpp"
#include "mc.hpp"
#include "ref.hpp"

namespace real {

namespace syn = cqasm::v3x::syntactic;
namespace sem = cqasm::v3x::semantic;
namespace val = cqasm::v3x::values;
namespace typ = cqasm::v3x::types;
using cqasm::annotations::SourceLocation;
using ref::Node;

/// what else a located node must satisfy: the file name
struct Convert {
    std::optional<std::string> file;

    ref::Loc loc(const cqasm::tree::Annotatable& n) const {
        ref::Loc r;
        if (const auto* l = n.get_annotation_ptr<SourceLocation>()) {
            if (l->file_name != file) mc::fail("a location carries the file name " + (l->file_name ? mc::quote(*l->file_name) : "(none)"));
            r = { true, l->range.first.line, l->range.first.column, l->range.last.line, l->range.last.column };
        }
        return r;
    }
    Node located(const char* kind, const std::string& text, const cqasm::tree::Annotatable& n) const {
        Node r{ kind, text };
        r.located = true;
        r.loc = loc(n);
        return r;
    }

    // ------------------------------------------------------------------------------------------ syntax

    Node expressions(const char* kind, const syn::ExpressionList& l) const {
        Node r{ kind };
        for (const auto& e : l.items) r.kids.push_back(expression(*e));
        return r;
    }

    Node expression(syn::Expression& e) const {
        if (auto* n = e.as_boolean_literal()) {
            auto r = located("bool", "", e);
            r.i = n->value;
            return r;
        }
        if (auto* n = e.as_integer_literal()) {
            auto r = located("int", "", e);
            r.i = n->value;
            return r;
        }
        if (auto* n = e.as_float_literal()) {
            auto r = located("float", "", e);
            r.f = n->value;
            return r;
        }
        if (auto* n = e.as_identifier()) return located("id", n->name, e);
        if (auto* n = e.as_index()) {
            auto* name = n->expr->as_identifier();
            if (!name) mc::fail("something that is not a name is indexed");
            auto r = located("index", name->name, e);
            for (const auto& i : n->indices->items) {
                if (auto* item = i->as_index_item()) {
                    r.kids.push_back({ "item" });
                    r.kids.back().kids.push_back(expression(*item->index));
                } else if (auto* range = i->as_index_range()) {
                    r.kids.push_back({ "range" });
                    r.kids.back().kids.push_back(expression(*range->first));
                    r.kids.back().kids.push_back(expression(*range->last));
                } else {
                    mc::fail("an index entry of no kind");
                }
            }
            return r;
        }
        if (auto* n = e.as_function_call()) {
            auto r = located("call", n->name->name, e);
            if (!n->arguments.empty()) r.kids.push_back(expressions("list", *n->arguments));
            return r;
        }
        if (auto* n = e.as_unary_expression()) {
            auto r = located("unary", n->as_unary_minus_expression() ? "-" : n->as_bitwise_not_expression() ? "~" : n->as_logical_not_expression() ? "!" : "?", e);
            r.kids.push_back(expression(*n->expr));
            return r;
        }
        if (auto* n = e.as_binary_expression()) {
            const char* op = n->as_power_expression() ? "**"
                : n->as_product_expression() ? "*"
                : n->as_division_expression() ? "/"
                : n->as_modulo_expression() ? "%"
                : n->as_addition_expression() ? "+"
                : n->as_subtraction_expression() ? "-"
                : n->as_shift_left_expression() ? "<<"
                : n->as_shift_right_expression() ? ">>"
                : n->as_cmp_gt_expression() ? ">"
                : n->as_cmp_lt_expression() ? "<"
                : n->as_cmp_ge_expression() ? ">="
                : n->as_cmp_le_expression() ? "<="
                : n->as_cmp_eq_expression() ? "=="
                : n->as_cmp_ne_expression() ? "!="
                : n->as_bitwise_and_expression() ? "&"
                : n->as_bitwise_xor_expression() ? "^"
                : n->as_bitwise_or_expression() ? "|"
                : n->as_logical_and_expression() ? "&&"
                : n->as_logical_xor_expression() ? "^^"
                : n->as_logical_or_expression() ? "||"
                : "?";
            auto r = located("binary", op, e);
            r.kids.push_back(expression(*n->lhs));
            r.kids.push_back(expression(*n->rhs));
            return r;
        }
        if (auto* n = e.as_ternary_conditional_expression()) {
            auto r = located("ternary", "", e);
            r.kids.push_back(expression(*n->cond));
            r.kids.push_back(expression(*n->if_true));
            r.kids.push_back(expression(*n->if_false));
            return r;
        }
        mc::fail("an expression of no kind");
    }

    Node gate(const syn::Gate& g) const {
        auto r = located("gate", g.name->name, g);
        if (!g.annotations.empty()) mc::fail("an annotation from nowhere");
        if (!g.gate.empty()) r.kids.push_back(gate(*g.gate));
        r.kids.push_back(expressions("list", *g.parameters));
        return r;
    }

    Node statement(syn::Statement& s) const {
        if (!s.annotations.empty()) mc::fail("an annotation from nowhere");
        if (auto* n = s.as_variable()) {
            auto r = located("variable", n->name->name, s);
            auto t = located("type", n->typ->name->name, *n->typ);
            t.i = n->typ->size.empty() ? -1 : n->typ->size->value;
            r.kids.push_back(t);
            return r;
        }
        if (auto* n = s.as_gate_instruction()) {
            auto r = located("instruction", "", s);
            r.kids.push_back(gate(*n->gate));
            r.kids.push_back(expressions("operands", *n->operands));
            return r;
        }
        if (auto* n = s.as_non_gate_instruction()) {
            auto r = located("nongate", n->name->name, s);
            r.kids.push_back(expressions("operands", *n->operands));
            r.kids.push_back(expressions("list", *n->parameters));
            return r;
        }
        if (auto* n = s.as_asm_declaration()) {
            Node r{ "asm", n->backend_name->name };
            r.kids.push_back({ "code", n->backend_code });
            return r;
        }
        mc::fail("a statement of no kind");
    }

    static std::string version(const cqasm::v3x::primitives::Version& v) {
        std::string r;
        for (auto i : v) r += (r.empty() ? "" : ".") + std::to_string(i);
        return r;
    }

    Node program(const syn::Program& p) const {
        Node r{ "program" };
        r.kids.push_back(located("version", version(p.version->items), *p.version));
        for (const auto& s : p.block->statements) r.kids.push_back(statement(*s));
        return r;
    }

    // ------------------------------------------------------------------------------------------ semantics

    /// the declared variables, to number references
    std::vector<const sem::Variable*> variables;
    bool annotated = false;

    std::string reference(const sem::Variable& v) const {
        for (size_t k = 0; k < variables.size(); ++k) {
            if (variables[k] == &v) return v.name + "#" + std::to_string(k);
        }
        return v.name + "#elsewhere";
    }

    Node value(val::ValueBase& v) const {
        Node r;
        if (auto* n = v.as_const_bool()) {
            r = located("bool", "", v);
            r.i = n->value;
        } else if (auto* n = v.as_const_int()) {
            r = located("int", "", v);
            r.i = n->value;
        } else if (auto* n = v.as_const_float()) {
            r = located("float", "", v);
            r.f = n->value;
        } else if (auto* n = v.as_variable_ref()) {
            r = located("ref", reference(*n->variable), v);
        } else if (auto* n = v.as_index_ref()) {
            r = located("indexref", reference(*n->variable), v);
            for (const auto& k : n->indices) {
                r.kids.push_back({ "int" });
                r.kids.back().i = k->value;
            }
        } else {
            mc::fail("a value of no kind");
        }
        return r;
    }
    Node values(const char* kind, const val::Values& vs) const {
        Node r{ kind };
        for (const auto& v : vs) r.kids.push_back(value(*v));
        return r;
    }

    static Node type(typ::TypeBase& t) {
        Node r{ "type" };
        r.text = t.as_qubit() ? "qubit" : t.as_qubit_array() ? "qubit array" : t.as_bit() ? "bit" : t.as_bit_array() ? "bit array" : t.as_bool() ? "bool" : t.as_int() ? "int" : t.as_float() ? "float" : "?";
        r.i = t.size;
        return r;
    }
    static std::string types(const typ::Types& ts) {
        std::string r;
        for (const auto& t : ts) r += (r.empty() ? "" : ", ") + type(*t).text;
        return r;
    }

    /// trees put together by hand have annotations, which no program has
    void annotations(Node& r, const sem::Annotated& n) const {
        if (!annotated && !n.annotations.empty()) mc::fail("an annotation from nowhere");
        for (const auto& a : n.annotations) {
            Node d{ "annotation", a->interface + " " + a->operation };
            d.kids.push_back(values("operands", a->operands));
            r.kids.push_back(d);
        }
    }

    Node gate(const sem::Gate& g) const {
        auto r = located("gate", g.name, g);
        annotations(r, g);
        if (!g.gate.empty()) r.kids.push_back(gate(*g.gate));
        r.kids.push_back(values("list", g.parameters));
        return r;
    }

    static Node resolved(const cqasm::v3x::instruction::InstructionRef& i) {
        return { "resolved", i.empty() ? "none" : i->name + "(" + types(i->operand_types) + ")" };
    }

    Node statement(sem::Statement& s) const {
        auto r = kind(s);
        annotations(r, s);
        return r;
    }

    Node kind(sem::Statement& s) const {
        if (auto* n = s.as_gate_instruction()) {
            auto r = located("instruction", "", s);
            r.kids.push_back(resolved(n->instruction_ref));
            r.kids.push_back(gate(*n->gate));
            r.kids.push_back(values("operands", n->operands));
            return r;
        }
        if (auto* n = s.as_non_gate_instruction()) {
            auto r = located("nongate", n->name, s);
            r.kids.push_back(resolved(n->instruction_ref));
            r.kids.push_back(values("operands", n->operands));
            r.kids.push_back(values("list", n->parameters));
            return r;
        }
        if (auto* n = s.as_asm_declaration()) {
            Node r{ "asm", n->backend_name };
            r.kids.push_back({ "code", n->backend_code });
            return r;
        }
        mc::fail("a statement of no kind");
    }

    Node program(const sem::Program& p) {
        Node r{ "program", version(p.api_version) };
        variables.clear();
        for (const auto& v : p.variables) variables.push_back(&*v);
        r.kids.push_back(located("version", version(p.version->items), *p.version));
        auto b = located("block", "", *p.block);
        for (const auto& s : p.block->statements) b.kids.push_back(statement(*s));
        r.kids.push_back(std::move(b));
        Node vs{ "variables" };
        for (const auto& v : p.variables) {
            auto n = located("variable", v->name, *v);
            n.kids.push_back(type(*v->typ));
            annotations(n, *v);
            vs.kids.push_back(std::move(n));
        }
        r.kids.push_back(std::move(vs));
        return r;
    }
};

inline Node convert(const cqasm::v3x::parser::ParseResult& r, const std::optional<std::string>& file) {
    auto* p = r.root->as_program();
    if (!p) mc::fail("the tree is not a program");
    return Convert{ file, {} }.program(*p);
}
inline Node convert(const cqasm::v3x::analyzer::AnalysisResult& r, const std::optional<std::string>& file) {
    return Convert{ file, {} }.program(*r.root);
}

// ------------------------------------------------------------------------------------------------ errors

struct Err {
    ref::Loc loc;       // all zeros when there is none
    std::string message;
    std::string uri;
};

inline std::string describe(const Err& e) { return e.loc.text() + " " + mc::quote(e.message); }

/// what an error says, from its JSON form
inline Err error(const cqasm::error::ParseError& e) {
    Err r;
    const auto j = json::parse(e.to_json());
    auto number = [](const json::Value& v) { return static_cast<uint32_t>(std::stoul(v.text)); };
    const auto& range = j.at("range");
    r.loc = { true, number(range.at("start").at("line")), number(range.at("start").at("character")), number(range.at("end").at("line")),
        number(range.at("end").at("character")) };
    r.message = j.at("message").text;
    if (const auto* related = j.find("relatedInformation")) r.uri = related->items.at(0).at("location").at("uri").text;
    return r;
}

inline std::vector<Err> errors(const cqasm::error::ParseErrors& es) {
    std::vector<Err> r;
    for (const auto& e : es) r.push_back(error(e));
    return r;
}

inline std::string list(const std::vector<Err>& es) {
    std::string r;
    for (auto& e : es) r += (r.empty() ? "" : "; ") + describe(e);
    return r.empty() ? "none" : r;
}

// ------------------------------------------------------------------------------------------------ comparisons

struct Want {
    bool locations = true;   // positions in the trees and of errors
    bool tree = true;        // the trees themselves
    bool messages = true;    // that errors name their problem
};

inline bool mentions(const std::string& message, const std::vector<std::string>& names, std::string& missing) {
    for (auto& n : names) {
        if (message.find(n) == std::string::npos) {
            missing = n;
            return false;
        }
    }
    return true;
}

/// an error of the parser against the problem the model sees
inline void same_parse_error(const ref::Parsed& m, const std::vector<Err>& es, const Want& want) {
    const auto& p = *m.problem;
    if (es.size() != 1) mc::fail("expected one " + p.kind + " error, got " + std::to_string(es.size()) + ": " + list(es));
    const auto& e = es[0];
    MC_REQUIRE(!e.message.empty(), "an error without a message");
    if (!want.locations) return;
    auto inside = [&](uint32_t l, uint32_t c) { return l >= 1 && l <= m.lexed.lines && c >= 1 && c <= m.lexed.columns[l - 1]; };
    if (p.kind == "encoding") return;
    MC_REQUIRE(inside(e.loc.l1, e.loc.c1), "the error is outside the text: " + describe(e));
    if (p.kind == "lexical") {
        // a syntax error before the character may come first
        bool found = e.loc.l1 == p.loc.l1 && e.loc.c1 == p.loc.c1;
        for (auto& t : m.lexed.tokens) found = found || (t.loc.l1 == e.loc.l1 && t.loc.c1 == e.loc.c1);
        MC_REQUIRE(found, "expected the error at " + p.loc.text() + ", got " + describe(e));
        return;
    }
    if (p.kind == "syntax") {
        const ref::Token* at = nullptr;
        for (auto& t : m.lexed.tokens) {
            if (t.loc.l1 == e.loc.l1 && t.loc.c1 == e.loc.c1) {
                at = &t;
                break;
            }
        }
        MC_REQUIRE(at, "a syntax error that is at no token: " + describe(e));
        // its range is the token
        bool simple = at->type != "eof";
        for (char c : at->text) simple = simple && static_cast<unsigned char>(c) < 0x80;
        for (char c : at->text) simple = simple && (c != '\n' || at->type == "newline");
        const auto last = at->loc.c1 + static_cast<uint32_t>(at->type == "eof" ? 0 : at->text.size());
        if ((simple || at->type == "eof") && (e.loc.l2 != e.loc.l1 || e.loc.c2 != last)) {
            mc::fail("a syntax error that does not end where its token " + mc::quote(at->text) + " ends (column " + std::to_string(last) + "): " + describe(e));
        }
        return;
    }
    bool found = false;
    for (auto& l : p.other) found = found || (l.l1 == e.loc.l1 && l.c1 == e.loc.c1);
    MC_REQUIRE(found, "expected the error at " + p.loc.text() + ", got " + describe(e));
    std::string missing;
    if (want.messages && !mentions(e.message, p.names, missing)) mc::fail("an error that does not name " + mc::quote(missing) + ": " + describe(e));
}

inline void same_analysis_errors(const std::vector<ref::Problem>& m, const std::vector<Err>& es, const Want& want) {
    std::string expected;
    for (auto& p : m) {
        expected += (expected.empty() ? "" : "; ") + p.loc.text();
        for (auto& n : p.names) expected += " " + n;
    }
    if (es.size() != m.size()) mc::fail("expected " + std::to_string(m.size()) + " errors (" + expected + "), got " + std::to_string(es.size()) + ": " + list(es));
    for (size_t k = 0; k < m.size(); ++k) {
        MC_REQUIRE(!es[k].message.empty(), "an error without a message");
        if (want.locations && m[k].loc != es[k].loc) mc::fail("expected error " + std::to_string(k + 1) + " at " + m[k].loc.text() + ", got " + describe(es[k]) + " (all expected: " + expected + ")");
        std::string missing;
        if (want.messages && !mentions(es[k].message, m[k].names, missing)) mc::fail("an error that does not name " + mc::quote(missing) + ": " + describe(es[k]));
    }
}

/// parses the text with the real parser and compares with the model; true if both accept
inline bool same_parse(const std::string& text, const ref::Parsed& m, const cqasm::v3x::parser::ParseResult& r,
    const std::optional<std::string>& file, const Want& want = {}) {
    const auto es = errors(r.errors);
    MC_REQUIRE(r.root.empty() == !es.empty(), es.empty() ? "neither a tree nor an error" : "both a tree and errors: " + list(es));
    if (m.problem) {
        MC_REQUIRE(!es.empty(), "accepted, although there is a " + m.problem->kind + " error");
        same_parse_error(m, es, want);
        return false;
    }
    MC_REQUIRE(es.empty(), "refused: " + list(es));
    if (want.tree) mc::same("the tree", ref::dump(*m.program, want.locations), ref::dump(convert(r, file), want.locations));
    (void)text;
    return true;
}

inline bool same_analysis(const ref::Analyzed& m, const cqasm::v3x::analyzer::AnalysisResult& r, const std::optional<std::string>& file,
    const Want& want = {}) {
    const auto es = errors(r.errors);
    same_analysis_errors(m.errors, es, want);
    if (!m.errors.empty()) return false;
    MC_REQUIRE(!r.root.empty(), "no tree and no errors");
    if (want.tree) mc::same("the tree", ref::dump(m.program, want.locations), ref::dump(convert(r, file), want.locations));
    return true;
}

inline cqasm::v3x::analyzer::Analyzer fresh() {
    cqasm::v3x::analyzer::Analyzer a{ "3.0" };
    a.register_default_constants();
    a.register_default_functions();
    a.register_default_instructions();
    return a;
}

}  // namespace real
