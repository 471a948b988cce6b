// C09: values widen only from bool to int to float, and keep their number and location.
// Explored: every kind of value with boundary contents, with and without a location, times every sequence of target
// types up to a length; asking for a type (check_promote) for all pairs of types.
#include <cmath>
#include <limits>

#include "real.hpp"
#include "space.hpp"

namespace {

using real::typ::Type;
using real::val::Value;
namespace tree = cqasm::tree;
namespace values = cqasm::v3x::values;
namespace types = cqasm::v3x::types;
namespace semantic = cqasm::v3x::semantic;

/// the model: a letter for the type, the number, where it was written
struct Model {
    char t;             // b, i, f for constants; Q, V, B, W for references
    bool constant;
    int64_t i = 0;
    double f = 0;
    long long size = 1;

    [[nodiscard]] bool widens(char to) const {
        return to == t || (constant && ((t == 'b' && (to == 'i' || to == 'f')) || (t == 'i' && to == 'f')));
    }
    [[nodiscard]] Model widened(char to) const {
        Model r = *this;
        if (to == 'f' && t != 'f') r.f = t == 'b' ? (i ? 1.0 : 0.0) : static_cast<double>(i);
        r.t = to;
        return r;
    }
};

struct Case {
    Model model;
    Value value;
};

const std::string TYPES = "biQVBWf";

Type type(char c, long long size = 1) {
    switch (c) {
        case 'b': return tree::make<types::Bool>(1);
        case 'i': return tree::make<types::Int>(1);
        case 'f': return tree::make<types::Float>(1);
        case 'Q': return tree::make<types::Qubit>(1);
        case 'B': return tree::make<types::Bit>(1);
        case 'V': return tree::make<types::QubitArray>(size);
        default: return tree::make<types::BitArray>(size);
    }
}

char letter(const Type& t) {
    return t->as_bool() ? 'b' : t->as_int() ? 'i' : t->as_float() ? 'f' : t->as_qubit() ? 'Q' : t->as_bit() ? 'B' : t->as_qubit_array() ? 'V' : t->as_bit_array() ? 'W' : '?';
}

/// keeps the variables that references point to alive
std::vector<tree::One<semantic::Variable>> variables;

std::vector<std::function<Case()>> all() {
    std::vector<std::function<Case()>> r;
    for (bool b : { false, true }) r.push_back([b] { return Case{ { 'b', true, b }, tree::make<values::ConstBool>(b) }; });
    std::set<int64_t> ints{ 0, 1, -1, 2, 3, 7, -8, 255, 256, 1000000007, INT64_MAX, INT64_MIN };
    for (int k = 1; k < 63; ++k) {
        for (int d = -1; d <= 1; ++d) {
            ints.insert((int64_t{ 1 } << k) + d);
            ints.insert(-(int64_t{ 1 } << k) + d);
        }
    }
    ints.insert((int64_t{ 1 } << 54) + 2);
    ints.insert((int64_t{ 1 } << 54) + 6);
    for (auto i : ints) r.push_back([i] { return Case{ { 'i', true, i }, tree::make<values::ConstInt>(i) }; });
    for (double f : { 0.0, -0.0, 1.0, -1.0, 0.1, 1e300, 5e-324, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::nan("") })
        r.push_back([f] { return Case{ { 'f', true, 0, f }, tree::make<values::ConstFloat>(f) }; });
    for (char c : std::string("QBVW")) {
        for (long long size : { 1, 2, 3, 100 }) {
            if ((c == 'Q' || c == 'B') && size != 1) continue;
            r.push_back([c, size] {
                auto v = tree::make<semantic::Variable>("v", type(c, size));
                variables.push_back(v);
                return Case{ { c, false, 0, 0, size }, tree::make<values::VariableRef>(v) };
            });
            if (c == 'Q' || c == 'B') continue;
            for (int n = 1; n <= 4; ++n) {
                r.push_back([c, size, n] {
                    auto v = tree::make<semantic::Variable>("v", type(c, size));
                    variables.push_back(v);
                    auto x = tree::make<values::IndexRef>(v);
                    for (int k = 0; k < n; ++k) x->indices.add(tree::make<values::ConstInt>(k % size));
                    return Case{ { n > 1 ? c : c == 'V' ? 'Q' : 'B', false, 0, 0, n }, x };
                });
            }
        }
    }
    return r;
}

void same(const Model& m, const Value& v, const std::optional<std::string>& location) {
    mc::same("the type", std::string(1, m.t), std::string(1, letter(values::type_of(v))));
    mc::same_value("the size", m.size, values::size_of(v));
    if (m.constant) {
        MC_REQUIRE(v->as_constant(), "no constant any more");
        values::check_const(v);
        if (m.t == 'b') mc::same_value("the value", m.i, v->as_const_bool()->value);
        if (m.t == 'i') mc::same_value("the value", m.i, v->as_const_int()->value);
        if (m.t == 'f') mc::same("the value", ref::bits(m.f), ref::bits(v->as_const_float()->value));
    } else {
        bool refused = false;
        try {
            values::check_const(v);
        } catch (const cqasm::error::AnalysisError&) {
            refused = true;
        }
        MC_REQUIRE(refused, "a reference passes for a constant");
    }
    const auto* l = v->get_annotation_ptr<real::SourceLocation>();
    MC_REQUIRE((l != nullptr) == location.has_value(), l ? "a location from nowhere" : "the location is lost");
    if (l) mc::same("the location", *location, fmt::format("{}", *l));
}

void check(mc::Run& run, const std::string& text) {
    static const auto cases = all();
    const auto f = space::unpack(text);
    if (f[0] == "types") {
        // asking for a type is the same as promoting a constant of that type; references never change their type
        const char from = f[1][0], to = f[2][0];
        const Model m{ from, from == 'b' || from == 'i' || from == 'f' };
        const long long n = std::stoll(f[3]), k = std::stoll(f[4]);
        mc::same_value("check_promote", m.widens(to), values::check_promote(type(from, n), type(to, k)));
        mc::same_value("type_check", from == to, types::type_check(type(from, n), type(to, k)));
        mc::same_value("size_of", from == 'V' || from == 'W' ? n : 1, types::size_of(type(from, n)));
        mc::same("from_spec", std::string(1, from), std::string(1, letter(types::from_spec(from))));
        std::string element;
        try {
            element = letter(values::element_type_of(type(from, n)));
        } catch (const std::runtime_error&) {
            element = "none";
        }
        mc::same("the element type", from == 'V' ? "Q" : from == 'W' ? "B" : "none", element);
        types::Types ts = types::from_spec(std::string() + from + to + from);
        mc::same_value("from_spec", 3, static_cast<long long>(ts.size()));
        mc::same("from_spec", std::string() + from + to + from, std::string() + letter(ts[0]) + letter(ts[1]) + letter(ts[2]));
        run.step();
        run.visit(text);
        return;
    }
    auto c = cases[std::stoul(f[0])]();
    std::optional<std::string> location;
    if (f[1] == "1") {
        c.value->set_annotation(real::SourceLocation{ "file.cq", { { 3, 4 }, { 5, 6 } } });
        location = "file.cq:3:4..5:6";
    }
    same(c.model, c.value, location);
    auto m = c.model;
    auto v = c.value;
    for (char to : f[2]) {
        const auto target = type(to, 1 + static_cast<long long>(f[2].size()));
        const auto r = values::promote(v, target);
        run.step();
        MC_REQUIRE(letter(target) == to, "the target type is changed");
        same(m, v, location);
        MC_REQUIRE(r.empty() == !m.widens(to), r.empty() ? "a promotion is refused" : "a promotion that should be refused");
        if (m.constant) mc::same_value("check_promote", m.widens(to), values::check_promote(values::type_of(v), target));
        if (r.empty()) continue;
        m = m.widened(to);
        same(m, r, location);
        v = r;
    }
    same(c.model, c.value, location);
    run.visit(std::string(1, m.t) + std::to_string(m.i) + ref::bits(m.f) + std::to_string(m.size));
    variables.clear();
}

void enumerate(mc::Run& run) {
    for (char a : TYPES) {
        for (char b : TYPES) {
            for (auto* n : { "1", "2", "7" }) {
                for (auto* k : { "1", "2", "7" }) run.one(space::pack({ "types", std::string(1, a), std::string(1, b), n, k }));
            }
        }
    }
    const auto n = all().size();
    for (size_t k = 0; k < n; ++k) {
        for (auto* l : { "0", "1" }) {
            for (size_t length = 0; length <= (run.thorough ? 4u : 3u); ++length) space::words(length > 2 ? space::letters("bifQV") : space::letters(TYPES), length, [&](auto& w) { run.one(space::pack({ std::to_string(k), l, w })); });
        }
    }
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
