// C32: syntax trees put together by hand mean what the text they stand for means, and annotations are carried over.
// Explored: programs without positions, with some positions, put together from the statements, gates, operands and
// types of other programs, against the analysis of the text; and all small sets of annotations with all short lists of
// operands on every statement and gate that can carry one.
#include "layout.hpp"

namespace {

namespace syn = cqasm::v3x::syntactic;
namespace sem = cqasm::v3x::semantic;
namespace tree = cqasm::tree;
using cqasm::annotations::SourceLocation;
using ref::Node;
using Tree = tree::One<syn::Program>;

Tree parse(const std::string& text) {
    const auto r = cqasm::v3x::parser::parse_string(text, std::nullopt);
    MC_REQUIRE(r.errors.empty(), "refused: " + text + ": " + real::list(real::errors(r.errors)));
    return Tree{ std::static_pointer_cast<syn::Program>(r.root.get_ptr()) };
}

std::string header() { return "version 3.0\n"; }

/// every program is parsed once, and its nodes are then put in many others
const Tree& parsed(const std::string& text) {
    static std::map<std::string, Tree> all;
    auto at = all.find(text);
    if (at == all.end()) at = all.emplace(text, parse(text)).first;
    return at->second;
}
/// a tree of its own without positions: they are not serialized
template <class T>
tree::One<T> bare(const tree::One<T>& t) {
    return tree::One<T>{ ::tree::base::deserialize<T>(::tree::base::serialize(t)).get_ptr() };
}
const Tree& stripped(const std::string& text) {
    static std::map<std::string, Tree> all;
    auto at = all.find(text);
    if (at == all.end()) at = all.emplace(text, bare(parse(text))).first;
    return at->second;
}

struct Meaning {
    std::vector<real::Err> errors;
    Node program;
    std::string text(bool locations = false) const {
        std::string r;
        for (auto& e : errors) r += (locations ? e.loc.text() + " " : "") + e.message + "\n";
        return r + ref::dump(program, locations);
    }
};

/// analyses the tree, which must be left as it was
Meaning analyze(mc::Run& run, const Tree& t) {
    const auto before = ::tree::base::serialize(t);
    auto a = real::fresh();
    const auto r = a.analyze(*t);
    run.step();
    MC_REQUIRE(before == ::tree::base::serialize(t), "the analysis changes the syntax tree");
    MC_REQUIRE(!r.root.empty(), "no semantic tree");
    if (r.errors.empty()) MC_REQUIRE(r.root.is_well_formed(), "the semantic tree is incomplete");
    real::Convert c{ std::nullopt, {} };
    c.annotated = true;
    Meaning m{ real::errors(r.errors), c.program(*r.root) };
    run.visit(m.text());
    return m;
}

void nowhere(const Node& n) {
    MC_REQUIRE(!n.loc.set, "a position from nowhere on a node of kind " + n.kind);
    for (auto& k : n.kids) nowhere(k);
}

/// the same, with or without positions
void same(const std::string& what, const Meaning& expected, const Meaning& got, bool locations = false) {
    mc::same(what, expected.text(locations), got.text(locations));
}

// ---------------------------------------------------------------------------------------------------------- programs

void program(mc::Run& run, const std::string& text) {
    const auto r = cqasm::v3x::parser::parse_string(text, std::nullopt);
    if (!r.errors.empty()) return;
    const Tree t{ std::static_pointer_cast<syn::Program>(r.root.get_ptr()) };
    auto a = real::fresh();
    const auto whole = a.analyze(r);
    const auto expected = analyze(run, t);
    mc::same("the errors of the tree", real::list(real::errors(whole.errors)), real::list(expected.errors));
    auto plain = bare(t);
    const auto got = analyze(run, plain);
    same("the meaning without positions", expected, got);
    nowhere(got.program);
    same("the meaning of a copy", expected, analyze(run, t.clone()), true);
}

/// statements, each from its own program
void joined(mc::Run& run, const std::vector<std::string>& parts) {
    std::string text = header();
    for (auto& s : parts) text += s + "\n";
    const auto expected = analyze(run, parse(text));
    for (int positions = 0; positions < 3; ++positions) {
        auto t = bare(parsed(header()));
        for (size_t k = 0; k < parts.size(); ++k) {
            const bool with = positions == 2 ? k % 2 == 0 : positions == 1;
            t->block->statements.add((with ? parsed : stripped)(header() + parts[k])->block->statements[0].clone());
        }
        same(positions == 0 ? "the meaning of nodes without positions" : "the meaning of nodes of other programs", expected, analyze(run, t));
    }
}

/// a statement with parts of others
void mixed(mc::Run& run, const std::string& kind, const std::string& before, const std::string& x, const std::string& y) {
    auto last = [&](const std::string& s) { return parsed(header() + s)->block->statements[0].clone(); };
    std::string text;
    tree::One<syn::Statement> s;
    if (kind == "gate") {
        text = x + " " + y;
        s = tree::make<syn::GateInstruction>(last(x + " q")->as_gate_instruction()->gate, last("X " + y)->as_gate_instruction()->operands);
    } else if (kind == "modifier") {
        text = x + "." + y + " q, r[0]";
        auto outer = last(x + ".X q")->as_gate_instruction()->gate;
        outer->gate = last(y + " q")->as_gate_instruction()->gate.get_ptr();
        s = tree::make<syn::GateInstruction>(outer, last("X q, r[0]")->as_gate_instruction()->operands);
    } else if (kind == "variable") {
        text = x + " " + y;
        s = tree::make<syn::Variable>(tree::make<syn::Identifier>(y), last(x + " q")->as_variable()->typ);
    } else if (kind == "changed") {
        // the operands of a statement are replaced in place
        text = x + " " + y;
        s = last(x + " q");
        auto es = last("X " + y)->as_gate_instruction()->operands;
        if (auto* n = s->as_gate_instruction()) n->operands = es;
        if (auto* n = s->as_non_gate_instruction()) n->operands = es;
    } else {
        mc::fail("unknown kind");
    }
    auto whole = header();
    auto t = bare(parsed(header()));
    std::istringstream lines(before);
    for (std::string l; std::getline(lines, l);) {
        whole += l + "\n";
        t->block->statements.add(last(l));
    }
    whole += text + "\n";
    t->block->statements.add(s);
    same("the meaning of a statement with parts of others", analyze(run, parse(whole)), analyze(run, t));
}

// ------------------------------------------------------------------------------------------------------- annotations

Node named(const char* kind, const std::string& text) { return { kind, text }; }
Node integer(int64_t i) {
    Node r{ "int" };
    r.i = i;
    return r;
}
Node real_number(double d) {
    Node r{ "float" };
    r.f = d;
    return r;
}
Node boolean(bool b) {
    Node r{ "bool" };
    r.i = b;
    return r;
}
Node indexed(const std::string& v, std::vector<int64_t> is) {
    Node r{ "indexref", v };
    for (auto i : is) r.kids.push_back(integer(i));
    return r;
}

struct Operand {
    std::string text;
    std::optional<Node> value;  // none when it cannot be evaluated
};

const char* DECLARED = "qubit[3] q\nbit[2] b\nqubit s\n";

const std::vector<Operand>& operands() {
    static const std::vector<Operand> r{
        { "1", integer(1) }, { "foo", {} }, { "q", named("ref", "q#0") }, { "2.5", real_number(2.5) }, { "q[1]", indexed("q#0", { 1 }) }, { "1/0", {} },
        { "true", boolean(true) }, { "-2", integer(-2) }, { "pi", real_number(3.14159265358979323846) }, { "1 + 2 * 3", integer(7) }, { "1 < 2", boolean(true) }, { "b", named("ref", "b#1") },
        { "s", named("ref", "s#2") }, { "b[0:1]", indexed("b#1", { 0, 1 }) }, { "q[2,0]", indexed("q#0", { 2, 0 }) }, { "sqrt(4.0)", real_number(2) }, { "true ? 1 : 2", integer(1) },
        { "!false", boolean(true) }, { "~0", integer(-1) }, { "2 ** 3", real_number(8) }, { "9223372036854775807", integer(INT64_MAX) }, { "-0.0", real_number(-0.0) },
        { "q + 1", {} }, { "q[9]", {} }, { "sin()", {} }, { "bar(1)", {} }, { "1 ? 2 : 3", {} }, { "Q", {} },
    };
    return r;
}

/// the error that an expression makes where a text can have it
std::string complaint(const std::string& e) {
    static std::map<std::string, std::string> all;
    auto at = all.find(e);
    if (at == all.end()) {
        auto a = real::fresh();
        const auto r = a.analyze(*parse(header() + DECLARED + "Rx(" + e + ") s"));
        MC_REQUIRE(r.errors.size() == 1, "not one error for " + e);
        at = all.emplace(e, real::error(r.errors[0]).message).first;
    }
    return at->second;
}

struct Target {
    std::string text;
    int gates;      // further places for annotations: the gates, from the outside
    bool variable = false;
    bool valid = true;
};

const std::vector<Target>& targets() {
    static const std::vector<Target> r{
        { "X s", 1 }, { "inv.Rx(pi) q[0]", 2 }, { "ctrl.pow(2).inv.S q[0], q[1]", 4 }, { "b[0] = measure s", 0 }, { "b = measure(1,0,0) q[0:1]", 0 },
        { "reset q", 0 }, { "init s", 0 }, { "barrier q[0]", 0 }, { "wait(3) s", 0 }, { "asm(be) '''x'''", 0 }, { "qubit t", 0, true }, { "bit[4] u", 0, true },
        { "CNOT q, q", 1 }, { "X nowhere", 1, false, false }, { "reset b[7]", 0, false, false }, { "qubit q", 0, true, false }, { "inv.CNOT q, s", 2, false, false }, { "Rx(foo) s", 1, false, false },
        { "b[0] = measure q", 0, false, false },
    };
    return r;
}

struct Note {
    size_t statement;
    int place;  // 0 the statement, then its gates
    std::string interface, operation;
    std::vector<size_t> operands;
};

/// annotations: the places, names and operands on a program of the targets
void annotated(mc::Run& run, const std::vector<size_t>& statements, const std::vector<Note>& notes) {
    for (int positions = 0; positions < 2; ++positions) {
        std::string text = header() + DECLARED;
        bool valid = true;
        for (auto s : statements) {
            text += targets()[s].text + "\n";
            valid = valid && targets()[s].valid;
        }
        auto t = positions ? parse(text) : bare(parse(text));
        const auto base = analyze(run, t);
        MC_REQUIRE(base.errors.empty() == valid, "the statements: " + real::list(base.errors));
        std::vector<std::string> messages;
        for (auto& e : base.errors) messages.push_back(e.message);
        auto expected = base.program;
        // where each statement ended up
        auto& block = expected.kids.at(1);
        auto& variables = expected.kids.at(2);
        std::vector<Node*> made(statements.size(), nullptr);
        if (valid) {
            size_t at = 0, variable = 3;
            for (size_t k = 0; k < statements.size(); ++k) made[k] = &(targets()[statements[k]].variable ? variables.kids.at(variable++) : block.kids.at(at++));
        }
        std::map<const Node*, std::vector<Node>> added;
        for (auto& n : notes) {
            auto& s = t->block->statements[3 + n.statement];
            syn::Annotated* host = &*s;
            Node* node = made[n.statement];
            if (n.place > 0) {
                auto* g = &*s->as_gate_instruction()->gate;
                if (node) node = &node->kids.at(1);
                for (int k = 1; k < n.place; ++k) {
                    g = &*g->gate;
                    if (node) node = &node->kids.at(0);
                }
                host = g;
            }
            auto list = tree::make<syn::ExpressionList>();
            Node d{ "annotation", n.interface + " " + n.operation };
            d.kids.push_back({ "operands" });
            for (auto o : n.operands) {
                const auto& x = operands()[o];
                list->items.add((positions ? parsed : stripped)(header() + "X " + x.text)->block->statements[0]->as_gate_instruction()->operands->items[0].clone());
                if (x.value) d.kids[0].kids.push_back(*x.value);
                else messages.push_back(complaint(x.text));
            }
            host->annotations.add(tree::make<syn::AnnotationData>(tree::make<syn::Identifier>(n.interface), tree::make<syn::Identifier>(n.operation), list));
            if (node) added[node].push_back(d);
        }
        // gates carry theirs before the rest, everything else after it
        std::function<Node(const Node&)> with = [&](const Node& n) {
            Node r = n;
            r.kids.clear();
            const auto at = added.find(&n);
            const bool first = n.is("gate");
            if (at != added.end() && first) r.kids = at->second;
            for (auto& k : n.kids) r.kids.push_back(with(k));
            if (at != added.end() && !first) r.kids.insert(r.kids.end(), at->second.begin(), at->second.end());
            return r;
        };
        const auto got = analyze(run, t);
        std::vector<std::string> complaints;
        for (auto& e : got.errors) complaints.push_back(e.message);
        if (valid) {
            // positions of operands aside
            mc::same("the tree", ref::dump(with(expected), false), ref::dump(got.program, false));
            std::sort(messages.begin(), messages.end());
            std::sort(complaints.begin(), complaints.end());
            std::string a, b;
            for (auto& m : messages) a += m + "\n";
            for (auto& m : complaints) b += m + "\n";
            mc::same("the errors", a, b);
            // without the annotations it is as it was
            std::function<Node(const Node&)> without = [&](const Node& n) {
                Node r = n;
                r.kids.clear();
                for (auto& k : n.kids) {
                    if (!k.is("annotation")) r.kids.push_back(without(k));
                }
                return r;
            };
            mc::same("the rest of the tree", ref::dump(base.program, true), ref::dump(without(got.program), true));
        } else {
            // what is wrong with the statements is still reported
            for (auto& m : messages) {
                if (std::find(complaints.begin(), complaints.end(), m) == complaints.end()) {
                    bool of_a_statement = false;
                    for (auto& e : base.errors) of_a_statement = of_a_statement || e.message == m;
                    MC_REQUIRE(!of_a_statement, "the error is not reported any more: " + m);
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------------------- cases

const char SEP = '\x1f';
std::string join(const std::vector<std::string>& v) {
    std::string r;
    for (auto& s : v) r += (&s == &v[0] ? "" : std::string(1, SEP)) + s;
    return r;
}
std::vector<std::string> split(const std::string& s, char sep = SEP) {
    std::vector<std::string> r(1);
    for (char c : s) {
        if (c == sep) r.emplace_back();
        else r.back() += c;
    }
    return r;
}
std::vector<size_t> numbers(const std::string& s) {
    std::vector<size_t> r;
    std::istringstream is(s);
    for (size_t n; is >> n;) r.push_back(n);
    return r;
}

void check(mc::Run& run, const std::string& text) {
    auto p = split(text);
    const auto kind = p.at(0);
    p.erase(p.begin());
    if (kind == "program") program(run, p.at(0));
    else if (kind == "joined") joined(run, p);
    else if (kind == "mixed") mixed(run, p.at(0), p.at(1), p.at(2), p.at(3));
    else if (kind == "notes") {
        const auto statements = numbers(p.at(0));
        std::vector<Note> notes;
        for (size_t k = 1; k + 4 < p.size(); k += 5) notes.push_back({ std::stoul(p[k]), std::stoi(p[k + 1]), p[k + 2], p[k + 3], numbers(p[k + 4]) });
        annotated(run, statements, notes);
    } else mc::fail("unknown case");
}

void enumerate(mc::Run& run) {
    auto put = [&](const std::vector<std::string>& v) { run.one(join(v)); };
    auto all = pool::statements();
    all.insert(all.end(), pool::more().begin(), pool::more().end());
    // programs
    put({ "program", "version 3" });
    for (auto& v : pool::versions()) put({ "program", pool::program(v, { "qubit q", "X q" }) });
    for (auto& x : all) {
        for (auto& y : all) put({ "program", pool::program("3.0", { "qubit[2] q", "qubit[3] r", "bit[2] b", x, y }) });
    }
    for (auto& statements : layout::programs()) put({ "program", pool::program("3.0", statements) });
    for (size_t n : { 10, 100, 1000 }) {
        std::vector<std::string> v{ "qubit[3] r" };
        for (size_t k = 0; k < n; ++k) v.push_back(all[k % all.size()]);
        put({ "program", pool::program("3.0", v) });
    }
    // nodes of several programs
    space::tuples(pool::statements().size(), 2, [&](auto& ix) { put({ "joined", pool::statements()[ix[0]], pool::statements()[ix[1]] }); });
    for (auto& x : all) {
        for (auto& y : all) put({ "joined", "qubit q", "qubit[3] r", "bit b", x, y, x });
    }
    const auto& few = pool::statements();
    space::tuples(few.size(), 3, [&](auto& ix) {
        if (run.thorough || (ix[0] + ix[1] + ix[2]) % 3 == 0) put({ "joined", few[ix[0]], few[ix[1]], few[ix[2]] });
    });
    for (size_t n : { 10, 100, 1000 }) {
        for (auto* s : { "X r", "inv.pow(0.5).H r[0:1]", "qubit w", "reset r", "asm(a) '''b'''" }) {
            std::vector<std::string> v{ "joined", "qubit[3] r" };
            for (size_t k = 0; k < n; ++k) v.push_back(s);
            put(v);
        }
    }
    // parts of statements
    const std::string before = "qubit[2] q\nqubit[3] r\nbit[2] b";
    const std::vector<std::string> gates{ "X", "x", "H", "Rx(pi)", "Rx(1)", "Rx", "Rx(q)", "Rx(foo)", "CNOT", "CRk(2)", "CRk(1.5)", "SWAP", "inv.X", "pow(2).S", "pow(1/3).Rx(1)", "ctrl.X", "ctrl.inv.Y",
        "inv.CNOT", "ctrl.ctrl.X", "foo", "inv.foo", "pow(q).X", "U(1,2,3)", "U(1)", "Rn(0,1,0,pi,2)", "X(1)", "measure2" };
    const std::vector<std::string> lists{ "q", "r", "q[0]", "q, r", "r[0], r[1]", "q, q", "b", "pi", "1", "q[0], r[1:2]", "r[0:1], q", "foo", "r[9]", "q, r, q", "q[0:1], r[0,2]", "-1", "sin(1)", "q, b", "q[2/2]", "r[b]" };
    for (auto& g : gates) {
        for (auto& l : lists) put({ "mixed", "gate", before, g, l });
        for (auto* m : { "inv", "pow(2)", "pow(foo)", "ctrl" }) put({ "mixed", "modifier", before, m, g });
    }
    for (auto* t : { "qubit", "qubit[3]", "bit", "bit[2]", "qubit[1]", "qubit[0]", "bit[9223372036854775807]" }) {
        for (auto* n : { "q", "v", "pi", "sin", "X", "inv2", "b", "Q", "_a" }) put({ "mixed", "variable", before, t, n });
    }
    for (auto* s : { "reset", "init", "barrier", "wait(3)", "X", "inv.H", "b = measure", "b[0] = measure(1,0,0)" }) {
        // a measurement has its bits among its operands
        if (std::string(s).find("measure") != std::string::npos) continue;
        for (auto& l : lists) {
            if (l.find(", ") == std::string::npos || s[0] == 'X' || s[0] == 'i') {
                if (std::string(s) == "init" && l.find(", ") != std::string::npos) continue;
                put({ "mixed", "changed", before, s, l });
            }
        }
    }
    // annotations
    const auto& ts = targets();
    const size_t values = operands().size();
    auto note = [](std::vector<std::string>& v, size_t statement, int place, const std::string& i, const std::string& o, const std::vector<size_t>& ops) {
        std::string list;
        for (auto k : ops) list += std::to_string(k) + " ";
        for (auto& s : { std::to_string(statement), std::to_string(place), i, o, list }) v.push_back(s);
    };
    std::vector<size_t> good;
    for (size_t k = 0; k < ts.size(); ++k) good.push_back(k);
    for (auto k : good) {
        for (int place = 0; place <= ts[k].gates; ++place) {
            const auto one = std::to_string(k);
            for (size_t n = 0; n <= (run.thorough ? 3u : 2u); ++n) {
                space::tuples(n == 3 ? 12 : values, n, [&](auto& ix) {
                    std::vector<std::string> v{ "notes", one };
                    note(v, 0, place, "i", "o", std::vector<size_t>(ix.begin(), ix.end()));
                    put(v);
                });
            }
            for (size_t n = 3; n <= 5; ++n) {
                space::tuples(3, n, [&](auto& ix) {
                    std::vector<std::string> v{ "notes", one };
                    note(v, 0, place, "i", "o", std::vector<size_t>(ix.begin(), ix.end()));
                    put(v);
                });
            }
            for (auto* name : { "", "interface", "pi", "q", "X", "a.b", "\xc3\xa9", "measure", "a b" }) {
                std::vector<std::string> v{ "notes", one }, w = v;
                note(v, 0, place, name, "o", { 0 });
                note(w, 0, place, "i", name, {});
                put(v);
                put(w);
            }
            // several on one node
            const std::vector<std::vector<size_t>> some{ {}, { 0 }, { 1 }, { 2, 3 }, { 5, 4 }, { 6, 1, 7 } };
            for (size_t n = 2; n <= (run.thorough ? 4u : 3u); ++n) {
                space::tuples(some.size(), n, [&](auto& ix) {
                    std::vector<std::string> v{ "notes", one };
                    for (size_t m = 0; m < n; ++m) note(v, 0, place, m % 2 ? "j" : "i", "o" + std::to_string(m / 2), some[ix[m]]);
                    put(v);
                });
            }
            for (size_t n : { 10, 100, 500 }) {
                std::vector<std::string> v{ "notes", one }, w = v;
                std::vector<size_t> ops;
                for (size_t m = 0; m < n; ++m) {
                    note(v, 0, place, "i" + std::to_string(m), "o", { m % values });
                    ops.push_back(m % values);
                }
                note(w, 0, place, "i", "o", ops);
                put(v);
                put(w);
            }
        }
        // on several places at once
        const std::vector<std::vector<size_t>> some{ {}, { 0 }, { 1 }, { 5, 2 } };
        space::tuples(some.size() + 1, static_cast<size_t>(ts[k].gates) + 1, [&](auto& ix) {
            std::vector<std::string> v{ "notes", std::to_string(k) };
            for (size_t place = 0; place < ix.size(); ++place) {
                if (ix[place]) note(v, 0, static_cast<int>(place), "i" + std::to_string(place), "o", some[ix[place] - 1]);
            }
            put(v);
        });
    }
    // on several statements
    auto on_several = [&](const std::vector<size_t>& statements) {
        std::set<std::string> declared;
        for (auto k : statements) {
            if (ts[k].variable && ts[k].valid && !declared.insert(ts[k].text).second) return;
        }
        std::string list;
        for (auto k : statements) list += std::to_string(k) + " ";
        for (size_t operand = 0; operand < 3; ++operand) {
            std::vector<std::string> v{ "notes", list };
            for (size_t at = 0; at < statements.size(); ++at) {
                for (int place = 0; place <= ts[statements[at]].gates; ++place) note(v, at, place, "s" + std::to_string(at), "p" + std::to_string(place), { operand, (operand + at) % 4 });
            }
            put(v);
        }
    };
    for (auto x : good) {
        for (auto y : good) {
            on_several({ x, y });
            for (auto z : good) {
                if (run.thorough || (x + y + z) % 4 == 0) on_several({ x, y, z });
            }
        }
    }
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
