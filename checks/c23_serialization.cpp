// C23: trees survive serialization unchanged.
// Explored: boundary values of every primitive, all small references to instructions and functions, trees of all small
// shapes of every node kind put together by hand, and the trees of all programs of the pools: each is written, read
// back, compared, and written again.
#include "layout.hpp"
#include "libqasm/v3x/core_function.hpp"
#include "libqasm/v3x/instruction.hpp"
#include "libqasm/v3x/primitives.hpp"

namespace {

namespace p = cqasm::v3x::primitives;
namespace syn = cqasm::v3x::syntactic;
namespace sem = cqasm::v3x::semantic;
namespace val = cqasm::v3x::values;
namespace typ = cqasm::v3x::types;
namespace tree = cqasm::tree;
using cqasm::v3x::function::CoreFunction;
using cqasm::v3x::function::CoreFunctionRef;
using cqasm::v3x::instruction::Instruction;
using cqasm::v3x::instruction::InstructionRef;

template <class T>
std::string bytes(const T& v) {
    std::ostringstream os;
    ::tree::cbor::Writer w(os);
    auto m = w.start();
    p::serialize(v, m);
    m.close();
    return os.str();
}

template <class T>
T round(mc::Run& run, const T& v) {
    const auto b = bytes(v);
    ::tree::cbor::Reader reader{ b };
    T r = p::deserialize<T>(reader.as_map());
    run.step();
    run.visit(b);
    mc::same("written again", b, bytes(r));
    mc::same("written twice", b, bytes(v));
    return r;
}

void same_double(double a, double b) {
    MC_REQUIRE((std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)), "expected " + std::to_string(a) + ", got " + std::to_string(b));
}

double from_bits(const std::string& hex) {
    const uint64_t u = std::stoull(hex, nullptr, 16);
    double d;
    std::memcpy(&d, &u, 8);
    return d;
}

std::string bits(double d) {
    uint64_t u;
    std::memcpy(&u, &d, 8);
    char b[20];
    std::snprintf(b, sizeof b, "%016llx", static_cast<unsigned long long>(u));
    return b;
}

template <class T>
void same_types(const T& a, const T& b) {
    mc::same_value("number of types", static_cast<long long>(a.size()), static_cast<long long>(b.size()));
    for (size_t k = 0; k < a.size(); ++k) {
        mc::same("type " + std::to_string(k), ref::dump(real::Convert::type(*a[k]), false), ref::dump(real::Convert::type(*b[k]), false));
        MC_REQUIRE(a[k].equals(b[k]) && b[k].equals(a[k]), "the types are not equal");
    }
}

/// a tree: written, read back, equal, and the same when written again. References are equal only to references to the
/// same variable: a tree with references is compared by what is written, which has the number of the node that is meant.
template <class T>
::tree::base::Maybe<T> round_tree(mc::Run& run, const ::tree::base::Maybe<T>& t, bool references = false) {
    const auto b = ::tree::base::serialize(t);
    const auto r = ::tree::base::deserialize<T>(b);
    run.step();
    run.visit(b);
    MC_REQUIRE(!r.empty() && r.is_well_formed(), "nothing, or an incomplete tree, is read back");
    if (!references) MC_REQUIRE(t.equals(r) && r.equals(t), "the tree that is read back is not equal");
    mc::same("written again", b, ::tree::base::serialize(r));
    mc::same("written twice", b, ::tree::base::serialize(t));
    return r;
}

void program(mc::Run& run, const std::string& text) {
    const auto parsed = cqasm::v3x::parser::parse_string(text, std::nullopt);
    if (!parsed.errors.empty()) return;
    const auto before = ref::dump(real::convert(parsed, std::nullopt), false);
    const auto s = round_tree<syn::Root>(run, ::tree::base::Maybe<syn::Root>{ parsed.root.get_ptr() });
    auto* sp = s->as_program();
    MC_REQUIRE(sp, "not a program");
    mc::same("the syntax tree that is read back", before, ref::dump(real::Convert{ std::nullopt, {} }.program(*sp), false));
    mc::same("the syntax tree afterwards", before, ref::dump(real::convert(parsed, std::nullopt), false));
    auto analyzed = real::fresh().analyze(parsed);
    // a tree that was read back is as good as the original
    auto again = real::fresh().analyze(*sp);
    mc::same_value("number of errors of the tree that is read back", static_cast<long long>(analyzed.errors.size()), static_cast<long long>(again.errors.size()));
    if (!analyzed.errors.empty()) return;
    const auto meaning = ref::dump(real::convert(analyzed, std::nullopt), false);
    mc::same("the meaning of the tree that is read back", meaning, ref::dump(real::convert(again, std::nullopt), false));
    const auto t = round_tree<sem::Program>(run, ::tree::base::Maybe<sem::Program>{ analyzed.root.get_ptr() }, true);
    mc::same("the semantic tree that is read back", meaning, ref::dump(real::Convert{ std::nullopt, {} }.program(*t), false));
    // nothing of it is shared with the original
    analyzed.root->block->statements.get_vec().clear();
    analyzed.root->variables.get_vec().clear();
    mc::same("the semantic tree that is read back, without the original", meaning, ref::dump(real::Convert{ std::nullopt, {} }.program(*t), false));
}

// ---------------------------------------------------------------------------------------- trees put together by hand

struct Bits {
    uint64_t n;
    uint64_t take(uint64_t base) {
        const auto r = n % base;
        n /= base;
        return r;
    }
};

const std::vector<std::string>& names() {
    static const std::vector<std::string> r{ "q", "", std::string("a\0b", 3), "\xff\xfe", "\xc3\xa9\n\"" };
    return r;
}

tree::One<typ::TypeBase> type(uint64_t k, int64_t size) {
    switch (k) {
        case 0: return tree::make<typ::Qubit>(size);
        case 1: return tree::make<typ::QubitArray>(size);
        case 2: return tree::make<typ::Bit>(size);
        case 3: return tree::make<typ::BitArray>(size);
        case 4: return tree::make<typ::Bool>(size);
        case 5: return tree::make<typ::Int>(size);
        default: return tree::make<typ::Float>(size);
    }
}

/// one semantic program for each number below the product of the choices
constexpr uint64_t SEMANTIC = 5 * 7 * 4 * 5 * 4 * 6 * 3 * 3 * 2;
tree::One<sem::Program> semantic(uint64_t number) {
    Bits b{ number };
    const auto name = names()[b.take(5)];
    auto r = tree::make<sem::Program>();
    r->api_version = "3.0";
    r->version = tree::make<sem::Version>(cqasm::version::Version{ "3" });
    r->block = tree::make<sem::Block>();
    auto v = tree::make<sem::Variable>(name, type(b.take(7), std::vector<int64_t>{ 1, 0, 5, INT64_MAX }[b.take(4)]));
    auto w = tree::make<sem::Variable>("w", tree::make<typ::Qubit>(1));
    r->variables.add(v);
    r->variables.add(w);
    val::Values operands, parameters;
    switch (b.take(5)) {
        case 0: break;
        case 1: operands.add(tree::make<val::VariableRef>(v)); break;
        case 2:
            operands.add(tree::make<val::VariableRef>(w));
            operands.add(tree::make<val::VariableRef>(v));
            break;
        case 3: operands.add(tree::make<val::IndexRef>(v, tree::Many<val::ConstInt>{ tree::make<val::ConstInt>(2), tree::make<val::ConstInt>(0), tree::make<val::ConstInt>(INT64_MIN) })); break;
        default:
            operands.add(tree::make<val::IndexRef>(w, tree::Many<val::ConstInt>{ tree::make<val::ConstInt>(7) }));
            operands.add(tree::make<val::VariableRef>(w));
            operands.add(tree::make<val::ConstBool>(true));
    }
    switch (b.take(4)) {
        case 0: break;
        case 1: parameters.add(tree::make<val::ConstFloat>(-0.0)); break;
        case 2:
            parameters.add(tree::make<val::ConstInt>(INT64_MIN));
            parameters.add(tree::make<val::ConstBool>(false));
            break;
        default: parameters.add(tree::make<val::ConstFloat>(INFINITY));
    }
    InstructionRef reference;
    if (number % 2) reference = tree::make<Instruction>(name, "QiV");
    tree::One<sem::Statement> s;
    auto gate = tree::make<sem::Gate>(name);
    gate->parameters = parameters;
    switch (b.take(6)) {
        case 0: s = tree::make<sem::GateInstruction>(reference, gate, operands); break;
        case 1: {
            auto outer = tree::make<sem::Gate>("inv");
            outer->gate = gate.get_ptr();
            s = tree::make<sem::GateInstruction>(reference, outer, operands);
            break;
        }
        case 2: {
            auto outer = tree::make<sem::Gate>("pow"), outermost = tree::make<sem::Gate>("ctrl");
            outer->gate = gate.get_ptr();
            outermost->gate = outer.get_ptr();
            outermost->parameters.add(tree::make<val::ConstInt>(1));
            s = tree::make<sem::GateInstruction>(reference, outermost, operands);
            break;
        }
        case 3: s = tree::make<sem::NonGateInstruction>(reference, name, operands); break;
        case 4: {
            auto n = tree::make<sem::NonGateInstruction>(reference, name, operands);
            n->parameters = parameters;
            s = n;
            break;
        }
        default: s = tree::make<sem::AsmDeclaration>(name, name + " \n''"); break;
    }
    // annotations, which no program has
    auto annotate = [&](sem::Annotated& n, uint64_t k) {
        if (k == 0) return;
        auto d = tree::make<sem::AnnotationData>();
        d->interface = name;
        d->operation = "op";
        n.annotations.add(d);
        if (k == 2) {
            auto e = tree::make<sem::AnnotationData>();
            e->operands.add(tree::make<val::ConstInt>(3));
            e->operands.add(tree::make<val::VariableRef>(w));
            n.annotations.add(e);
        }
    };
    annotate(*s, b.take(3));
    annotate(*v, b.take(3));
    r->block->statements.add(s);
    if (b.take(2)) {
        r->block->statements.add(tree::make<sem::AsmDeclaration>("x", ""));
        annotate(*gate, 1);
        r->api_version = "0.12.9223372036854775807";
    }
    return r;
}

constexpr uint64_t SYNTACTIC = 5 * 40 * 5 * 10 * 3;
tree::One<syn::Expression> expression(uint64_t k, const std::string& name) {
    auto id = [&] { return tree::make<syn::Identifier>(name); };
    tree::One<syn::Expression> one = tree::make<syn::IntegerLiteral>(INT64_MIN), two = id();
    switch (k) {
        case 0: return id();
        case 1: return tree::make<syn::BooleanLiteral>(true);
        case 2: return tree::make<syn::BooleanLiteral>(false);
        case 3: return one;
        case 4: return tree::make<syn::IntegerLiteral>(INT64_MAX);
        case 5: return tree::make<syn::FloatLiteral>(-0.0);
        case 6: return tree::make<syn::FloatLiteral>(5e-324);
        case 7: return tree::make<syn::FloatLiteral>(-INFINITY);
        case 8: return tree::make<syn::UnaryMinusExpression>(one);
        case 9: return tree::make<syn::BitwiseNotExpression>(two);
        case 10: return tree::make<syn::LogicalNotExpression>(one);
        case 11: return tree::make<syn::PowerExpression>(one, two);
        case 12: return tree::make<syn::ProductExpression>(one, two);
        case 13: return tree::make<syn::DivisionExpression>(two, one);
        case 14: return tree::make<syn::ModuloExpression>(one, two);
        case 15: return tree::make<syn::AdditionExpression>(one, two);
        case 16: return tree::make<syn::SubtractionExpression>(two, one);
        case 17: return tree::make<syn::ShiftLeftExpression>(one, two);
        case 18: return tree::make<syn::ShiftRightExpression>(one, two);
        case 19: return tree::make<syn::CmpGtExpression>(one, two);
        case 20: return tree::make<syn::CmpLtExpression>(one, two);
        case 21: return tree::make<syn::CmpGeExpression>(two, one);
        case 22: return tree::make<syn::CmpLeExpression>(one, two);
        case 23: return tree::make<syn::CmpEqExpression>(one, two);
        case 24: return tree::make<syn::CmpNeExpression>(one, two);
        case 25: return tree::make<syn::BitwiseAndExpression>(one, two);
        case 26: return tree::make<syn::BitwiseXorExpression>(two, one);
        case 27: return tree::make<syn::BitwiseOrExpression>(one, two);
        case 28: return tree::make<syn::LogicalAndExpression>(one, two);
        case 29: return tree::make<syn::LogicalXorExpression>(one, two);
        case 30: return tree::make<syn::LogicalOrExpression>(one, two);
        case 31: return tree::make<syn::TernaryConditionalExpression>(two, one, two);
        case 32: return tree::make<syn::FunctionCall>(id());
        case 33: {
            auto r = tree::make<syn::FunctionCall>(id());
            r->arguments = tree::make<syn::ExpressionList>().get_ptr();
            return r;
        }
        case 34: {
            auto r = tree::make<syn::FunctionCall>(id());
            r->arguments = tree::make<syn::ExpressionList>(tree::Any<syn::Expression>{ two, one, two }).get_ptr();
            return r;
        }
        case 35: return tree::make<syn::Index>(two, tree::make<syn::IndexList>(tree::Many<syn::IndexEntry>{ tree::make<syn::IndexItem>(one) }));
        case 36: return tree::make<syn::Index>(two, tree::make<syn::IndexList>(tree::Many<syn::IndexEntry>{ tree::make<syn::IndexRange>(one, two) }));
        case 37:
            return tree::make<syn::Index>(one, tree::make<syn::IndexList>(tree::Many<syn::IndexEntry>{ tree::make<syn::IndexRange>(two, one), tree::make<syn::IndexItem>(two), tree::make<syn::IndexItem>(one) }));
        case 38: return tree::make<syn::UnaryMinusExpression>(expression(31, name));
        default: return tree::make<syn::PowerExpression>(expression(37, name), expression(34, name));
    }
}

tree::One<syn::Program> syntactic(uint64_t number) {
    Bits b{ number };
    const auto name = names()[b.take(5)];
    const auto e = expression(b.take(40), name);
    auto list = tree::make<syn::ExpressionList>();
    for (auto n = b.take(5); n > 1; --n) list->items.add(n % 2 ? e.clone() : tree::One<syn::Expression>{ tree::make<syn::IntegerLiteral>(23) });
    if (list->items.empty()) list->items.add(e);
    auto gate = tree::make<syn::Gate>(tree::make<syn::Identifier>(name));
    gate->parameters = list.clone();
    tree::One<syn::Statement> s;
    switch (b.take(10)) {
        case 0: s = tree::make<syn::GateInstruction>(gate, list); break;
        case 1: {
            auto outer = tree::make<syn::Gate>(tree::make<syn::Identifier>("inv"));
            outer->gate = gate.get_ptr();
            outer->parameters = tree::make<syn::ExpressionList>();
            s = tree::make<syn::GateInstruction>(outer, list);
            break;
        }
        case 2: s = tree::make<syn::Variable>(tree::make<syn::Identifier>(name), tree::make<syn::Type>(tree::make<syn::Keyword>("qubit"))); break;
        case 3: {
            auto t = tree::make<syn::Type>(tree::make<syn::Keyword>("bit"));
            t->size = tree::make<syn::IntegerLiteral>(INT64_MAX).get_ptr();
            s = tree::make<syn::Variable>(tree::make<syn::Identifier>(name), t);
            break;
        }
        case 4: {
            auto n = tree::make<syn::NonGateInstruction>();
            n->name = tree::make<syn::Keyword>(name);
            n->parameters = tree::make<syn::ExpressionList>();
            n->operands = list;
            s = n;
            break;
        }
        case 5: {
            auto n = tree::make<syn::NonGateInstruction>();
            n->name = tree::make<syn::Keyword>("measure");
            n->parameters = list.clone();
            n->operands = list;
            s = n;
            break;
        }
        case 6: s = tree::make<syn::AsmDeclaration>(tree::make<syn::Identifier>(name), name + "'\n"); break;
        case 7: s = tree::make<syn::AsmDeclaration>(tree::make<syn::Identifier>(name), ""); break;
        case 8:
            gate->parameters = tree::make<syn::ExpressionList>();
            s = tree::make<syn::GateInstruction>(gate, tree::make<syn::ExpressionList>());
            break;
        default: {
            auto outer = gate;
            for (int k = 0; k < 30; ++k) {
                auto g = tree::make<syn::Gate>(tree::make<syn::Identifier>("m" + std::to_string(k)));
                g->gate = outer.get_ptr();
                g->parameters = list.clone();
                outer = g;
            }
            s = tree::make<syn::GateInstruction>(outer, list);
        }
    }
    const auto annotated = b.take(3);
    for (uint64_t k = 0; k < annotated; ++k) {
        auto d = tree::make<syn::AnnotationData>();
        d->interface = tree::make<syn::Identifier>(name);
        d->operation = tree::make<syn::Identifier>("op");
        d->operands = k ? list.clone() : tree::make<syn::ExpressionList>();
        s->annotations.add(d);
    }
    auto block = tree::make<syn::GlobalBlock>();
    block->statements.add(s);
    if (number % 2) block->statements.add(s.clone());
    // (a copy, in which no node occurs twice)
    return tree::make<syn::Program>(tree::make<syn::Version>(cqasm::version::Version{ number % 3 ? "3" : "1.0.255.256" }), block).clone();
}

void check(mc::Run& run, const std::string& text) {
    const auto f = space::unpack(text);
    const auto& k = f[0];
    if (k == "str") {
        mc::same("the text", f[1], round<p::Str>(run, f[1]));
    } else if (k == "bool") {
        mc::same_value("the value", f[1] == "1", round<p::Bool>(run, f[1] == "1"));
    } else if (k == "int") {
        const auto v = static_cast<p::Int>(std::stoll(f[1]));
        mc::same_value("the value", v, round<p::Int>(run, v));
    } else if (k == "float") {
        const auto v = from_bits(f[1]);
        same_double(v, round<p::Float>(run, v));
    } else if (k == "complex") {
        const auto r = round<p::Complex>(run, { from_bits(f[1]), from_bits(f[2]) });
        same_double(from_bits(f[1]), r.real());
        same_double(from_bits(f[2]), r.imag());
    } else if (k == "axis") {
        const auto r = round<p::Axis>(run, { from_bits(f[1]), from_bits(f[2]), from_bits(f[3]) });
        same_double(from_bits(f[1]), r.x);
        same_double(from_bits(f[2]), r.y);
        same_double(from_bits(f[3]), r.z);
    } else if (k == "version") {
        p::Version v("");
        v.clear();
        for (size_t n = 1; n < f.size(); ++n) v.push_back(std::stoll(f[n]));
        const auto r = round<p::Version>(run, v);
        mc::same_value("number of components", static_cast<long long>(v.size()), static_cast<long long>(r.size()));
        for (size_t n = 0; n < v.size(); ++n) mc::same_value("a component", v[n], r[n]);
        MC_REQUIRE(v == r, "the versions are not equal");
    } else if (k == "instruction") {
        if (f.size() == 1) {
            MC_REQUIRE(round<InstructionRef>(run, {}).empty(), "not an empty reference");
            return;
        }
        InstructionRef v = tree::make<Instruction>(f[1], f[2]);
        const auto size = std::stoll(f[3]);
        for (size_t n = 0; n < v->operand_types.size(); ++n) v->operand_types[n]->size = size ? size + static_cast<long long>(n) : 0;
        const auto r = round<InstructionRef>(run, v);
        MC_REQUIRE(!r.empty(), "an empty reference");
        mc::same("the name", v->name, r->name);
        same_types(v->operand_types, r->operand_types);
        MC_REQUIRE(*v == *r && *r == *v, "the instructions are not equal");
    } else if (k == "function") {
        if (f.size() == 1) {
            MC_REQUIRE(round<CoreFunctionRef>(run, {}).empty(), "not an empty reference");
            return;
        }
        CoreFunctionRef v = tree::make<CoreFunction>(f[1], f[2], f[3][0]);
        const auto size = std::stoll(f[4]);
        for (size_t n = 0; n < v->param_types.size(); ++n) v->param_types[n]->size = size ? size + static_cast<long long>(n) : 0;
        v->return_type->size = size;
        const auto r = round<CoreFunctionRef>(run, v);
        MC_REQUIRE(!r.empty(), "an empty reference");
        mc::same("the name", v->name, r->name);
        same_types(v->param_types, r->param_types);
        mc::same("the return type", ref::dump(real::Convert::type(*v->return_type), false), ref::dump(real::Convert::type(*r->return_type), false));
        MC_REQUIRE(*v == *r && !(*v != *r), "the functions are not equal");
    } else if (k == "semantic") {
        const auto t = semantic(std::stoull(f[1]));
        const auto before = ref::dump(real::Convert{ std::nullopt, {}, true }.program(*t), false);
        const auto r = round_tree<sem::Program>(run, ::tree::base::Maybe<sem::Program>{ t.get_ptr() }, true);
        mc::same("the program that is read back", before, ref::dump(real::Convert{ std::nullopt, {}, true }.program(*r), false));
        // the references in it are to its own variables
        for (size_t n = 0; n < 2; ++n) {
            MC_REQUIRE(&*r->variables[n] != &*t->variables[n], "a variable is shared");
            t->variables[n]->name += "'";
            t->variables[n]->typ->size += 1;
        }
        mc::same("the program that is read back, when the original is changed", before, ref::dump(real::Convert{ std::nullopt, {}, true }.program(*r), false));
        const auto changed = ref::dump(real::Convert{ std::nullopt, {}, true }.program(*t), false);
        MC_REQUIRE(changed != before, "(check) nothing was changed");
        for (size_t n = 0; n < 2; ++n) {
            r->variables[n]->name += "'";
            r->variables[n]->typ->size += 1;
        }
        mc::same("the program that is read back, when its variables are changed", changed, ref::dump(real::Convert{ std::nullopt, {}, true }.program(*r), false));
    } else if (k == "syntactic") {
        const auto t = syntactic(std::stoull(f[1]));
        round_tree<syn::Program>(run, ::tree::base::Maybe<syn::Program>{ t.get_ptr() });
        round_tree<syn::Node>(run, ::tree::base::Maybe<syn::Node>{ t.get_ptr() });
    } else {
        program(run, f[1]);
    }
}

void enumerate(mc::Run& run) {
    auto put = [&](const std::vector<std::string>& f) { run.one(space::pack(f)); };
    // texts
    space::byte_strings(run.thorough, { std::string(1, '\0'), "a", "\n", "\r", "\"", "\\", "\x7f", "\x80", "\xc3", "\xa9", "\xff", "\x17", "\x18", "x", "\xe2", "\xf0" },
        { std::string(1, '\0'), "a", "\xff", "\n" , "\\" }, { std::string(1, '\0'), "\xff", "z" }, [&](const std::string& s) {
            if (s.size() <= 40 || s.size() > 139) put({ "str", s });
        });
    put({ "bool", "0" });
    put({ "bool", "1" });
    // numbers
    auto integer = [&](std::int64_t v) { put({ "int", std::to_string(v) }); };
    for (std::int64_t v = -70000; v <= 70000; v += std::abs(v) < 300 || std::abs(v) > 65500 ? 1 : run.thorough ? 1 : 7) integer(v);
    for (int k = 0; k < 64; ++k) {
        for (int d = -3; d <= 3; ++d) {
            integer(static_cast<std::int64_t>((1ull << k) + static_cast<std::uint64_t>(d)));
            integer(static_cast<std::int64_t>(0 - ((1ull << k) + static_cast<std::uint64_t>(d))));
        }
    }
    for (std::uint64_t s = 0; s < 2; ++s) {
        for (std::uint64_t e = 0; e < 2048; ++e) {
            for (std::uint64_t m : { 0ull, 1ull, 0x8000000000000ull, 0xfffffffffffffull, 0x5555555555555ull, 0x921fb54442d18ull, 0x00000ffffffffull, 0x20000000ull }) {
                const auto u = s << 63 | e << 52 | m;
                double d;
                std::memcpy(&d, &u, 8);
                put({ "float", bits(d) });
            }
        }
    }
    std::vector<std::string> some;
    for (double d : { 0.0, -0.0, 1.0, -1.5, 0.1, 1e308, 5e-324, -2.2250738585072014e-308, HUGE_VAL, -HUGE_VAL, std::nan(""), 3.141592653589793, 16777217.0, 4294967297.0 }) some.push_back(bits(d));
    for (auto& x : some) {
        for (auto& y : some) {
            put({ "complex", x, y });
            for (auto& z : some) put({ "axis", x, y, z });
        }
    }
    const std::vector<std::string> comp{ "0", "1", "3", "23", "24", "255", "256", "65535", "65536", "4294967295", "4294967296", "9223372036854775807" };
    for (size_t n = 0; n <= (run.thorough ? 4u : 3u); ++n) {
        space::tuples(comp.size(), n, [&](auto& ix) {
            std::vector<std::string> v{ "version" };
            for (auto i : ix) v.push_back(comp[i]);
            put(v);
        });
    }
    for (size_t n = 5; n <= 40; ++n) {
        std::vector<std::string> v(n, "3");
        v[0] = "version";
        put(v);
    }
    // references
    put({ "instruction" });
    put({ "function" });
    const auto kinds = space::letters("QVBWbif");
    for (auto& name : { std::string("H"), std::string("operator+"), std::string(""), std::string("\xc3\xa9\xe2\x82\xac"), std::string("a\0b", 3), std::string("name"), std::string(300, 'x') }) {
        for (size_t n = 0; n <= (name == "H" ? (run.thorough ? 5u : 4u) : 2u); ++n) {
            space::words(kinds, n, [&](const std::string& spec) {
                put({ "instruction", name, spec, "0" });
                if (n <= 3) put({ "instruction", name, spec, "5" });
                if (n <= 3) {
                    for (auto& k : kinds) {
                        put({ "function", name, spec, k, "0" });
                        if (n <= 2) put({ "function", name, spec, k, "9" });
                    }
                }
            });
        }
    }
    for (auto* size : { "1", "23", "24", "255", "256", "70000", "1099511627776" }) {
        for (auto* spec : { "Q", "VV", "WVf", "bif", "QVBWbif" }) {
            put({ "instruction", "X", spec, size });
            put({ "function", "X", spec, "V", size });
        }
    }
    for (size_t n : { 10, 23, 24, 25, 40, 300 }) {
        put({ "instruction", "X", std::string(n, 'Q'), "0" });
        put({ "function", "X", std::string(n, 'f'), "i", "0" });
    }
    // trees
    for (uint64_t k = 0; k < SEMANTIC; k += run.thorough ? 1 : 7) put({ "semantic", std::to_string(k) });
    for (uint64_t k = 0; k < SYNTACTIC; ++k) put({ "syntactic", std::to_string(k) });
    auto text = [&](const std::string& s) { put({ "program", s }); };
    text("version 3");
    for (auto& statements : layout::programs()) {
        std::string s = "version 3.0";
        for (auto& x : statements) s += "\n" + x;
        text(s);
    }
    auto all = pool::statements();
    all.insert(all.end(), pool::more().begin(), pool::more().end());
    for (auto& x : all) {
        for (auto& y : all) {
            text(pool::program("3.0", { "qubit q", "qubit[3] r", "bit b", "bit[3] c", x, y }));
            if (run.thorough) text(pool::program("3", { "qubit[2] q", "qubit[3] r", "bit[2] b", x, y }));
        }
    }
    for (size_t n = 1; n <= 3; ++n) {
        const std::vector<std::string> few{ "qubit q", "bit[2] b", "X q", "asm(x) '''\xc3\xa9''' ", "inv.pow(0.5).X q", "barrier q", "b[1] = measure q", "Rx(pi) q", "ctrl.X q, q", "wait(3) q" };
        space::tuples(few.size(), n, [&](auto& ix) {
            std::vector<std::string> v{ "qubit[7] z" };
            for (auto i : ix) v.push_back(few[i]);
            text(pool::program("3.0", v));
        });
    }
    for (size_t n : { 10, 23, 24, 25, 255, 256, 257, 1000 }) {
        std::vector<std::string> v;
        for (size_t k = 0; k < n; ++k) v.push_back("qubit[" + std::to_string(k + 1) + "] v" + std::to_string(k));
        v.push_back("X v" + std::to_string(n - 1) + "[0:" + std::to_string(n - 1) + "]");
        text(pool::program("3", v));
    }
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
