// C08: overload resolution picks the last applicable registration.
// Three layers: the generic resolver over stand-in types with a promotion relation of our own, the library's
// function and instruction tables, and copies and moves of all of them.
#include "libqasm/overload.hpp"
#include "libqasm/v3x/analyzer.hpp"
#include "libqasm/v3x/resolver.hpp"
#include "mc.hpp"
#include "space.hpp"

namespace stand_in {

struct Type : public cqasm::tree::Base {
    int id = 0;
    explicit Type(int i) : id(i) {}
};

struct Node : public cqasm::tree::Base {
    int type = 0;
    int origin = 0;
    int promoted = 0;
    Node(int t, int o, int p) : type(t), origin(o), promoted(p) {}
};

using TypeP = cqasm::tree::One<Type>;
using NodeP = cqasm::tree::One<Node>;

// a < b < c as for booleans, integers and floats; d stands alone
bool converts(int from, int to) { return from == to || (from < to && to <= 2); }

NodeP promote(const NodeP& value, const TypeP& type) {
    if (value->type == type->id) return value;
    if (!converts(value->type, type->id)) return NodeP{};
    return cqasm::tree::make<Node>(type->id, value->origin, value->promoted + 1);
}

using Resolver = cqasm::overload::OverloadedNameResolver<int, Type, Node>;

}  // namespace stand_in

namespace {

struct Registration {
    std::string name, types;
    int tag;
};

// the reference: the whole history of registrations, searched from its end
const Registration* model(const std::vector<Registration>& history, const std::string& name, const std::string& args,
    const std::function<bool(char, char)>& converts, bool& known) {
    known = false;
    const Registration* found = nullptr;
    for (auto& r : history) {
        if (r.name != name) continue;
        known = true;
        bool ok = r.types.size() == args.size();
        for (size_t i = 0; ok && i < args.size(); ++i) ok = converts(args[i], r.types[i]);
        if (ok) found = &r;
    }
    return found;
}

// --- operations, in all layers: "+name types" registers, "?name args" resolves, "c" copies the table and goes on
// with the copy, "m" moves it, "o" copies it and goes on with the original while the copy gets other registrations

bool fake_converts(char a, char b) { return stand_in::converts(a - 'a', b - 'a'); }

struct Fake {
    stand_in::Resolver r;
    void add(const std::string& name, const std::string& types, int tag) {
        cqasm::tree::Any<stand_in::Type> t;
        for (char c : types) t.add(cqasm::tree::make<stand_in::Type>(c - 'a'));
        r.add_overload(name, tag, t);
    }
    void resolve(const std::vector<Registration>& history, const std::string& name, const std::string& args) {
        cqasm::tree::Any<stand_in::Node> a;
        for (size_t i = 0; i < args.size(); ++i) a.add(cqasm::tree::make<stand_in::Node>(args[i] - 'a', static_cast<int>(i), 0));
        bool known = false;
        const auto* e = model(history, name, args, fake_converts, known);
        const std::string call = name + "(" + args + ")";
        try {
            const auto [tag, values] = r.resolve(name, a);
            MC_REQUIRE(e, call + " resolves to registration " + std::to_string(tag) + " although none applies");
            mc::same_value(call + " resolves to registration", e->tag, tag);
            mc::same_value(call + " hands over", static_cast<long long>(args.size()), static_cast<long long>(values.size()));
            for (size_t i = 0; i < args.size(); ++i) {
                mc::same_value(call + " type of argument " + std::to_string(i), e->types[i] - 'a', values[i]->type);
                mc::same_value(call + " argument in place " + std::to_string(i), static_cast<long long>(i), values[i]->origin);
                mc::same_value(call + " promotions of argument " + std::to_string(i), e->types[i] != args[i], values[i]->promoted);
            }
        } catch (const cqasm::overload::NameResolutionFailure&) {
            MC_REQUIRE(!known, call + ": the name is said to be unknown");
        } catch (const cqasm::overload::OverloadResolutionFailure&) {
            MC_REQUIRE(known, call + ": no overload is said to apply although the name is unknown");
            MC_REQUIRE(!e, call + ": no overload is said to apply, but registration " + std::to_string(e->tag) + " does");
        }
        // the arguments are as they were
        for (size_t i = 0; i < args.size(); ++i) {
            MC_REQUIRE(a.size() == args.size() && a[i]->type == args[i] - 'a' && a[i]->origin == static_cast<int>(i), call + " changes its arguments");
        }
    }
};

namespace v = cqasm::v3x::values;
namespace t = cqasm::v3x::types;
namespace sem = cqasm::v3x::semantic;
using cqasm::v3x::resolver::ConstEvalCoreFunctionTable;
using cqasm::v3x::resolver::InstructionTable;

bool real_converts(char a, char b) { return a == b || (a == 'b' && (b == 'i' || b == 'f')) || (a == 'i' && b == 'f'); }

// a value of the type with this letter, which can be told apart from its neighbours
v::Value value(char type, size_t i) {
    switch (type) {
        case 'b': return cqasm::tree::make<v::ConstBool>(i % 2 == 0);
        case 'i': return cqasm::tree::make<v::ConstInt>(static_cast<int64_t>(100 + i));
        case 'f': return cqasm::tree::make<v::ConstFloat>(0.5 + static_cast<double>(i));
        default: {
            static std::vector<cqasm::tree::One<sem::Variable>> keep;
            const bool array = type == 'V' || type == 'W';
            t::Type ty = t::from_spec(type);
            ty->size = array ? 3 : 1;
            auto var = cqasm::tree::make<sem::Variable>("v" + std::to_string(i), ty);
            keep.push_back(var);
            auto ref = cqasm::tree::make<v::VariableRef>();
            ref->variable = var;
            return ref;
        }
    }
}

std::string show(const v::Value& x) {
    if (auto* b = x->as_const_bool()) return b->value ? "true" : "false";
    if (auto* i = x->as_const_int()) return std::to_string(i->value);
    if (auto* f = x->as_const_float()) {
        std::ostringstream os;
        os << "f" << f->value;
        return os.str();
    }
    if (auto* r = x->as_variable_ref()) return r->variable->name;
    return "?";
}

std::string shown(char from, char to, size_t i) {
    const std::string n = from == 'b' ? (i % 2 == 0 ? "1" : "0") : from == 'i' ? std::to_string(100 + i) : "";
    if (to == 'f' && from != 'f') return "f" + n;
    if (to == 'i' && from == 'b') return n;
    return show(value(from, i));
}

std::string type_name(char c) {
    switch (c) {
        case 'Q': return "qubit";
        case 'B': return "bit";
        case 'b': return "bool";
        case 'i': return "int";
        case 'f': return "float";
        case 'V': return "qubit array";
        default: return "bit array";
    }
}

std::string pack_text(const std::string& args) {
    std::string r = "(";
    for (size_t i = 0; i < args.size(); ++i) r += (i ? ", " : "") + type_name(args[i]);
    return r + ")";
}

v::Values values_of(const std::string& args) {
    v::Values a;
    for (size_t i = 0; i < args.size(); ++i) a.add(value(args[i], i));
    return a;
}

void handed_over(const std::string& call, const Registration& e, const std::string& args, const v::Values& got) {
    mc::same_value(call + " hands over", static_cast<long long>(args.size()), static_cast<long long>(got.size()));
    for (size_t i = 0; i < args.size(); ++i) {
        MC_REQUIRE(t::type_check(t::from_spec(e.types[i]), v::type_of(got[i])), call + ": argument " + std::to_string(i) + " has another type than its parameter");
        mc::same(call + " argument " + std::to_string(i), shown(args[i], e.types[i], i), show(got[i]));
    }
}

void failed(const std::string& call, const std::string& name, const std::string& args, bool known, const Registration* e, const std::string& what, int kind) {
    MC_REQUIRE(!e, call + " fails although registration " + std::to_string(e ? e->tag : 0) + " applies: " + what);
    if (kind) mc::same_value(call + ": 1 for an unknown name, 2 for no applicable overload", known ? 2 : 1, kind);
    MC_REQUIRE(what.find("'" + name + "'") != std::string::npos, call + ": the failure does not tell the name: " + what);
    if (known) MC_REQUIRE(what.find(pack_text(args)) != std::string::npos, call + ": the failure does not tell the argument types: " + what);
}

struct Functions {
    ConstEvalCoreFunctionTable table;
    std::shared_ptr<v::Values> seen = std::make_shared<v::Values>();
    void add(const std::string& name, const std::string& types, int tag) {
        table.add(name, t::from_spec(types), [tag, seen = seen](const v::Values& args) -> v::Value {
            *seen = args;
            return cqasm::tree::make<v::ConstInt>(tag);
        });
    }
    void resolve(const std::vector<Registration>& history, const std::string& name, const std::string& args) {
        bool known = false;
        const auto* e = model(history, name, args, real_converts, known);
        const auto call = "function " + name + pack_text(args);
        const auto a = values_of(args);
        int kind = 0;
        std::string what;
        try {
            const auto r = table.resolve(name, a);
            MC_REQUIRE(e, call + " resolves although no registration applies");
            mc::same_value(call + " resolves to registration", e->tag, r->as_const_int()->value);
            handed_over(call, *e, args, *seen);
            return;
        } catch (const cqasm::v3x::resolver::NameResolutionFailure& x) {
            kind = 1;
            what = x.what();
        } catch (const cqasm::v3x::resolver::OverloadResolutionFailure& x) {
            kind = 2;
            what = x.what();
        }
        failed(call, name, args, known, e, what, kind);
    }
};

struct Instructions {
    InstructionTable table;
    std::vector<std::string> order;
    void add(const std::string& name, const std::string& types, int) { table.add(cqasm::v3x::instruction::Instruction{ name, types }); }
    void resolve(const std::vector<Registration>& history, const std::string& name, const std::string& args) {
        bool known = false;
        const auto* e = model(history, name, args, real_converts, known);
        const auto call = "instruction " + name + pack_text(args);
        const auto a = values_of(args);
        int kind = 0;
        std::string what;
        for (int gate = 0; gate < 2; ++gate) {
            try {
                auto g = cqasm::tree::make<sem::Gate>();
                g->name = "the gate";
                const auto r = gate ? table.resolve(name, g, a) : table.resolve(name, a);
                MC_REQUIRE(e, call + " resolves although no registration applies");
                auto* gi = r->as_gate_instruction();
                auto* ni = r->as_non_gate_instruction();
                MC_REQUIRE(gate ? gi != nullptr : ni != nullptr, call + ": the wrong kind of instruction");
                const auto& ref = gate ? gi->instruction_ref : ni->instruction_ref;
                mc::same(call + " resolves to the name", name, ref->name);
                mc::same(call + " resolves to the operand types", pack_text(e->types), fmt::format("({})", ref->operand_types));
                if (gate) {
                    mc::same(call + ": the gate", "the gate", gi->gate->name);
                } else {
                    mc::same(call + ": the name", name, ni->name);
                }
                handed_over(call, *e, args, gate ? gi->operands : ni->operands);
                continue;
            } catch (const cqasm::v3x::resolver::NameResolutionFailure& x) {
                kind = 1;
                what = x.what();
            } catch (const cqasm::v3x::resolver::OverloadResolutionFailure& x) {
                kind = 2;
                what = x.what();
            }
            failed(call, name, args, known, e, what, kind);
        }
    }
};

// the analyzer, with its scopes hidden: registrations in the one global scope
struct Whole {
    cqasm::v3x::analyzer::Analyzer analyzer{ "3.0" };
    std::shared_ptr<v::Values> seen = std::make_shared<v::Values>();
    void add(const std::string& name, const std::string& types, int tag) {
        auto f = [tag, seen = seen](const v::Values& args) -> v::Value {
            *seen = args;
            return cqasm::tree::make<v::ConstInt>(tag);
        };
        if (tag % 2) {
            analyzer.register_consteval_core_function(name, types, f);
        } else {
            analyzer.register_consteval_core_function(name, t::from_spec(types), f);
        }
        if (tag % 2) {
            analyzer.register_instruction(name, types);
        } else {
            analyzer.register_instruction(cqasm::v3x::instruction::Instruction{ name, types });
        }
    }
    void resolve(const std::vector<Registration>& history, const std::string& name, const std::string& args) {
        bool known = false;
        const auto* e = model(history, name, args, real_converts, known);
        const auto a = values_of(args);
        auto call = "analyzer, function " + name + pack_text(args);
        try {
            const auto r = analyzer.resolve_function(name, a);
            MC_REQUIRE(e, call + " resolves although no registration applies");
            mc::same_value(call + " resolves to registration", e->tag, r->as_const_int()->value);
            handed_over(call, *e, args, *seen);
        } catch (const cqasm::error::AnalysisError& x) {
            failed(call, name, args, known, e, x.what(), 0);
        }
        call = "analyzer, instruction " + name + pack_text(args);
        try {
            const auto r = analyzer.resolve_instruction(name, a);
            MC_REQUIRE(e, call + " resolves although no registration applies");
            mc::same(call + " resolves to the operand types", pack_text(e->types), fmt::format("({})", r->as_non_gate_instruction()->instruction_ref->operand_types));
            handed_over(call, *e, args, r->as_non_gate_instruction()->operands);
        } catch (const cqasm::error::AnalysisError& x) {
            failed(call, name, args, true, e, x.what(), 0);
        }
    }
};

template <typename Table>
void play(mc::Run& run, const std::vector<std::string>& ops) {
    Table table;
    std::vector<Registration> history;
    int tag = 0;
    for (auto& o : ops) {
        run.step();
        const size_t blank = o.find(' ', 1);
        const std::string name = o.size() > 1 ? o.substr(1, blank - 1) : "", types = o.size() > 1 ? o.substr(blank + 1) : "";
        if (o[0] == '+') {
            table.add(name, types, ++tag);
            history.push_back({ name, types, tag });
        } else if (o[0] == '?') {
            table.resolve(history, name, types);
        } else if (o[0] == 'c') {
            Table copy{ table };
            Table again;
            again = copy;
            again = again;
            table = again;
        } else if (o[0] == 'm') {
            Table moved{ std::move(table) };
            table = std::move(moved);
        } else if (o[0] == 'o') {
            Table copy{ table };
            for (auto& r : history) copy.add(r.name, r.types, 1000 + r.tag);
            copy.add("f", "", 2000);
        }
        std::string state;
        for (auto& r : history) state += r.name + " " + r.types + ";";
        run.visit(state);
    }
}

void check(mc::Run& run, const std::string& text) {
    auto f = space::unpack(text);
    const auto layer = f[0];
    f.erase(f.begin());
    if (layer == "fake") play<Fake>(run, f);
    if (layer == "fun") play<Functions>(run, f);
    if (layer == "ins") play<Instructions>(run, f);
    if (layer == "all") play<Whole>(run, f);
}

std::vector<std::string> lists(const std::string& letters, size_t longest) {
    std::vector<std::string> r;
    for (size_t n = 0; n <= longest; ++n) space::words(space::letters(letters), n, [&](auto& w) { r.push_back(w); });
    return r;
}

void explore(mc::Run& run, const std::string& layer, const std::string& letters, size_t longest, size_t depth, const std::string& arg_letters) {
    std::vector<std::string> plus, ask;
    for (auto& l : lists(letters, longest)) plus.push_back("+f " + l);
    plus.push_back("+F " + letters.substr(0, 1));
    plus.push_back("+g " + letters.substr(letters.size() - 1));
    for (std::string n : { "f", "F", "g", "h", "" }) {
        for (auto& l : lists(arg_letters, n == "f" ? longest + 1 : 1)) ask.push_back("?" + n + " " + l);
    }
    // every sequence of registrations, then every question, each asked in a table of its own up to a depth and all in one
    for (size_t n = 0; n <= depth; ++n) {
        space::tuples(plus.size(), n, [&](auto& ix) {
            std::vector<std::string> s{ layer };
            for (auto i : ix) s.push_back(plus[i]);
            if (n < depth) {
                for (auto& q : ask) {
                    auto one = s;
                    one.push_back(q);
                    run.one(space::pack(one));
                }
            }
            for (const char* how : { "c", "m", "o" }) {
                auto twice = s;
                twice.push_back(how);
                twice.insert(twice.end(), ask.begin(), ask.end());
                run.one(space::pack(twice));
            }
            auto all = s;
            all.insert(all.end(), ask.begin(), ask.end());
            all.insert(all.end(), ask.rbegin(), ask.rend());
            run.one(space::pack(all));
        });
    }
    // questions, copies and registrations in every order, over fewer of them
    const std::string x = letters.substr(0, 1), y = letters.substr(1, 1), z = letters.substr(2, 1);
    const std::vector<std::string> mixed{ "+f " + y, "+f " + z, "+f " + y + z, "+f", "+g " + z, "+F " + y, "?f " + x, "?f " + z, "?f " + x + y, "?g " + y, "?f ", "?F " + x, "c", "o" };
    auto fixed = mixed;
    fixed[3] = "+f ";
    for (size_t n = 1; n <= (run.thorough ? 5u : 4u); ++n) {
        space::tuples(fixed.size(), n, [&](auto& ix) {
            std::vector<std::string> s{ layer };
            for (auto i : ix) s.push_back(fixed[i]);
            s.insert(s.end(), { "?f " + x, "?f " + y, "?f " + z, "?f " + y + y, "?f ", "?g " + x, "?F " + y, "?F " + z });
            run.one(space::pack(s));
        });
    }
    // many registrations: the last one counts, however long ago and wherever the table grew
    for (size_t n = 1; n <= 70; ++n) {
        for (size_t at = 0; at <= n; at += n < 20 ? 1 : 7) {
            std::vector<std::string> s{ layer };
            for (size_t i = 0; i < n; ++i) s.push_back(i == at ? "+f " + y + x : i % 3 == 0 ? "+f " + z : i % 3 == 1 ? "+f" + std::to_string(i) + " " + x : "+f " + z + x);
            s.insert(s.end(), { "?f " + y + x, "?f " + x, "?f " + x + x, "?f " + z, "?f " + z + x, "?f1 " + x, "?f4 " + x, "?f4 " + z });
            run.one(space::pack(s));
        }
    }
    // long parameter lists: one argument that fits nothing, at every place
    for (size_t n = 1; n <= 12; ++n) {
        for (size_t at = 0; at <= n; ++at) {
            std::string args(n, x[0]);
            if (at < n) args[at] = letters.back();
            std::string alternating;
            for (size_t i = 0; i < n; ++i) alternating += i % 2 ? y : z;
            run.one(space::pack({ layer, "+f " + std::string(n, z[0]), "+f " + std::string(n, y[0]), "?f " + args, "+f " + alternating, "?f " + args, "+f " + args, "?f " + args,
                "?f " + std::string(n, x[0]), "?f " + std::string(n, y[0]), "?f " + std::string(n + 1, x[0]), "?f " + std::string(n - 1, x[0]) }));
        }
    }
}

void enumerate(mc::Run& run) {
    explore(run, "fake", "abcd", 2, run.thorough ? 4 : 3, "abcd");
    explore(run, "fun", "bifQ", run.thorough ? 2 : 1, run.thorough ? 3 : 3, "bifQ");
    explore(run, "ins", "bifV", run.thorough ? 2 : 1, run.thorough ? 3 : 3, "bifV");
    explore(run, "all", "bifW", run.thorough ? 2 : 1, 2, "bifW");
    // all types against each other
    const std::string letters = "QBVWbif";
    for (const char* layer : { "fun", "ins", "all" }) {
        for (char p : letters) {
            for (char q : letters) {
                for (char a : letters) {
                    for (char b : letters) {
                        run.one(space::pack({ layer, std::string("+f ") + p + q, std::string("+f ") + q + p, std::string("?f ") + a + b, std::string("+f ") + p, std::string("?f ") + a, std::string("?f ") + a + b }));
                    }
                }
            }
        }
        // names that differ in little
        const std::vector<std::string> names{ "f", "F", "ff", "f_", "_f", "f0", "operator+", "operator-", "operator", "Operator+", "1q_f", "f\xc3\xa9", "\xc3\xa9", "fF", "Ff" };
        for (auto& a : names) {
            for (auto& b : names) {
                for (auto& c : names) run.one(space::pack({ layer, "+" + a + " i", "+" + b + " f", "?" + c + " i", "?" + c + " b", "?" + c + " " }));
            }
        }
    }
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
