// C06: an error reports its message and location the same way in text and in JSON.
// Explored: every sequence of operations up to a depth on an error and two nodes (attaching a context, giving the
// nodes other locations, taking them away, changing them in place, copying and moving the error), from every way to
// construct the error; after every operation both forms are compared with the model.
#include <memory>

#include "json_reader.hpp"
#include "libqasm/error.hpp"
#include "mc.hpp"
#include "model_location.hpp"
#include "space.hpp"

using cqasm::annotations::SourceLocation;
using cqasm::error::Error;
using Loc = std::optional<model::Location>;

namespace cqasm::check {
CQASM_ANALYSIS_ERROR(CustomError);
}

namespace {

using cqasm::check::CustomError;

const std::vector<std::string>& messages() {
    static const std::vector<std::string> m = [] {
        std::vector<std::string> r{ "", "m", "expected an integer", "{}", "{0} {", "}", "%s%n", "say \"hi\"", "C:\\new\\temp",
            "two\nlines\r\n", "\ttab\x01\x1f\x7f", "caf\xc3\xa9 \xe2\x82\xac \xf0\x9f\x98\x80", "<unknown error message>", " ", "\"", "\\", "</script>",
            "Error: x", " at 1:2", "null", std::string(3000, 'x'), std::string(500, '"'), "<unknown file name>", "0", "\\u0041", "\x7f" };
        return r;
    }();
    return m;
}

const std::vector<std::optional<std::string>>& names() {
    static const std::vector<std::optional<std::string>> n{ std::nullopt, "", "input.cq", "/tmp/a b/{0}.cq", "C:\\dir\\\"x\".cq",
        "caf\xc3\xa9.cq", "a%20b?c#d", "<unknown file name>", "unknown", "{}", " ", std::string(300, 'n') };
    return n;
}

const std::vector<std::array<uint32_t, 4>>& ranges() {
    static const std::vector<std::array<uint32_t, 4>> r{ { 0, 0, 0, 0 }, { 1, 1, 1, 4 }, { 2, 3, 5, 1 }, { 0, 4, 0, 9 }, { 7, 0, 7, 2 },
        { 7, 0, 9, 0 }, { 3, 5, 3, 5 }, { 5, 5, 2, 9 }, { 4294967295u, 4294967295u, 4294967295u, 4294967295u }, { 12, 34, 12, 345 },
        { 2147483648u, 2147483649u, 3000000000u, 1 } };
    return r;
}

model::Location model_of(size_t name, size_t range) {
    auto& r = ranges()[range];
    return { names()[name], r[0], r[1], r[2], r[3] };
}

SourceLocation real_of(size_t name, size_t range) {
    auto& r = ranges()[range];
    return SourceLocation{ names()[name], SourceLocation::Range{ { r[0], r[1] }, { r[2], r[3] } } };
}

struct State {
    std::string message;
    Loc location;
    Loc node[2];
};

void object_is(const json::Value& v, const char* what, const std::vector<std::string>& keys) {
    MC_REQUIRE(v.kind == json::Value::OBJECT, std::string(what) + " is no JSON object");
    for (auto& k : keys) MC_REQUIRE(v.find(k), std::string(what) + " has no member " + k);
    for (auto& [k, m] : v.members) {
        size_t n = 0;
        for (auto& [k2, m2] : v.members) n += k == k2;
        MC_REQUIRE(n == 1, std::string(what) + " has the member " + k + " more than once");
    }
}

void number_is(const json::Value& position, const char* member, uint32_t expected, const std::string& what) {
    auto& v = position.at(member);
    MC_REQUIRE(v.kind == json::Value::NUMBER, what + "." + member + " is no number");
    mc::same("JSON " + what + "." + member, std::to_string(expected), v.text);
}

void compare(mc::Run& run, const Error& e, const State& s) {
    const std::string message = s.message.empty() ? "<unknown error message>" : s.message;
    const std::string expected = (s.location ? "Error at " + s.location->text() : std::string("Error")) + ": " + message;
    const bool nul = expected.find('\0') != std::string::npos;
    if (!nul) {
        mc::same("what()", expected, e.what());
        mc::same("what(), again", expected, static_cast<const std::exception&>(e).what());
        std::ostringstream os;
        os << e << "|" << e;
        mc::same("streaming", expected + "|" + expected, os.str());
        mc::same("formatting", "<" + expected + ">", fmt::format("<{}>", e));
    }
    const auto text = e.to_json();
    json::Value j;
    try {
        j = json::parse(text);
    } catch (const std::exception& x) {
        mc::fail("the JSON form " + mc::clip(mc::quote(text)) + " is not valid JSON: " + x.what());
    }
    try {
        object_is(j, "the error", { "range", "message", "severity" });
        auto& range = j.at("range");
        object_is(range, "range", { "start", "end" });
        const model::Location zero;
        const auto& l = s.location ? *s.location : zero;
        number_is(range.at("start"), "line", l.l1, "start");
        number_is(range.at("start"), "character", l.c1, "start");
        number_is(range.at("end"), "line", l.l2, "end");
        number_is(range.at("end"), "character", l.c2, "end");
        MC_REQUIRE(j.at("message").kind == json::Value::STRING, "the message is no JSON string");
        mc::same("JSON message", message, j.at("message").text);
        MC_REQUIRE(j.at("severity").kind == json::Value::NUMBER, "the severity is no number");
        mc::same("JSON severity", "1", j.at("severity").text);
        const auto* related = j.find("relatedInformation");
        if (l.name) {
            MC_REQUIRE(related && related->kind == json::Value::ARRAY, "no related information although the file name is known: " + text);
            mc::same_value("entries of related information", 1, static_cast<long long>(related->items.size()));
            auto& uri = related->items[0].at("location").at("uri");
            MC_REQUIRE(uri.kind == json::Value::STRING, "the URI is no JSON string");
            mc::same("JSON uri", "file:///" + model::percent(*l.name), uri.text);
        } else {
            MC_REQUIRE(!related || related->items.empty(), "related information although no file name is known: " + text);
        }
    } catch (const std::runtime_error& x) {
        mc::fail(std::string("the JSON form has ") + x.what() + ": " + mc::clip(text));
    }
    run.step(6);
    run.visit(expected + "|" + (s.node[0] ? s.node[0]->text() : "-") + "|" + (s.node[1] ? s.node[1]->text() : "-"));
}

// Operations. 'l' values index this small set of locations.
const std::vector<std::pair<size_t, size_t>> SMALL{ { 2, 1 }, { 0, 2 }, { 3, 0 } };

// case: <constructor> <message> <name> <range> <op>...
// constructors: n (no location), m (a node without location), a (a node with the location), p (a location pointer),
//               q (a null location pointer), f (file name and range), c (custom class, default), d (custom class, node)
// ops: x0 x1 (context of node 0/1), s<node><loc> (set), e<node> (erase), i<node> (grow in place), y (copy),
//      v (move), g (assign over another error), t (thrown and caught by reference), k (the node goes away)
void check(mc::Run& run, const std::string& text) {
    std::istringstream in(text);
    char kind = 0;
    size_t m = 0, name = 0, range = 0;
    in >> kind >> m >> name >> range;
    State s;
    auto nodes = std::make_unique<cqasm::tree::Annotatable[]>(2);
    s.message = messages()[m];
    if (kind == 'a' || kind == 'd') {
        nodes[0].set_annotation(real_of(name, range));
        s.node[0] = model_of(name, range);
    }
    // a second node that starts out with a location of its own
    nodes[1].set_annotation(real_of(SMALL[0].first, SMALL[0].second));
    s.node[1] = model_of(SMALL[0].first, SMALL[0].second);
    std::unique_ptr<Error> e;
    const auto& msg = messages()[m];
    switch (kind) {
        case 'n': e = std::make_unique<Error>(msg); break;
        case 'm':
        case 'a': e = std::make_unique<Error>(msg, &nodes[0]); break;
        case 'p': e = std::make_unique<Error>(msg, std::make_shared<SourceLocation>(real_of(name, range))); break;
        case 'q': e = std::make_unique<Error>(msg, std::shared_ptr<SourceLocation>{}); break;
        case 'f': e = std::make_unique<Error>(msg, names()[name], real_of(name, range).range); break;
        case 'c': e = std::make_unique<CustomError>(std::string(msg)); break;
        case 'd': e = std::make_unique<CustomError>(std::string(msg), &nodes[0]); break;
    }
    if (kind == 'a' || kind == 'd' || kind == 'p' || kind == 'f') s.location = model_of(name, range);
    compare(run, *e, s);
    std::string op;
    std::vector<std::pair<std::unique_ptr<Error>, State>> kept;
    while (in >> op) {
        const size_t n = op.size() > 1 ? static_cast<size_t>(op[1] - '0') : 0;
        switch (op[0]) {
            case 'x':
                e->context(nodes[n]);
                if (!s.location && s.node[n]) s.location = s.node[n];
                break;
            case 's': {
                const auto& l = SMALL[static_cast<size_t>(op[2] - '0')];
                nodes[n].set_annotation(real_of(l.first, l.second));
                s.node[n] = model_of(l.first, l.second);
                break;
            }
            case 'e':
                nodes[n].erase_annotation<SourceLocation>();
                s.node[n].reset();
                break;
            case 'i':
                if (auto* p = nodes[n].get_annotation_ptr<SourceLocation>()) {
                    p->expand_to_include({ 100, 7 });
                    p->file_name = "other.cq";
                    if (std::pair{ s.node[n]->l2, s.node[n]->c2 } < std::pair{ 100u, 7u }) {
                        s.node[n]->l2 = 100;
                        s.node[n]->c2 = 7;
                    }
                    s.node[n]->name = "other.cq";
                }
                break;
            case 'y': {
                auto copy = std::make_unique<Error>(*e);
                kept.emplace_back(std::move(e), s);
                e = std::move(copy);
                break;
            }
            case 'v': {
                auto moved = std::make_unique<Error>(std::move(*e));
                e = std::move(moved);
                break;
            }
            case 'g': {
                auto other = std::make_unique<Error>("another message", names()[4], real_of(4, 2).range);
                (void)other->what();
                *other = *e;
                kept.emplace_back(std::move(e), s);
                e = std::move(other);
                break;
            }
            case 't':
                try {
                    throw *e;
                } catch (Error& x) {
                    compare(run, x, s);
                    x.context(nodes[1]);
                    State t = s;
                    if (!t.location) t.location = t.node[1];
                    compare(run, x, t);
                }
                break;
            case 'k':
                nodes = std::make_unique<cqasm::tree::Annotatable[]>(2);
                s.node[0].reset();
                s.node[1].reset();
                break;
        }
        compare(run, *e, s);
    }
    // an error that was copied from is not affected by what happened to the copy
    for (auto& [k, st] : kept) compare(run, *k, st);
}

void enumerate(mc::Run& run) {
    auto num = [](size_t n) { return std::to_string(n); };
    const std::string kinds = "nmapqfcd";
    for (char k : kinds) {
        for (size_t m = 0; m < messages().size(); ++m) {
            for (size_t n = 0; n < names().size(); ++n) {
                for (size_t r = 0; r < ranges().size(); ++r) {
                    if ((k == 'n' || k == 'm' || k == 'q' || k == 'c') && (n || r)) continue;
                    run.one(std::string(1, k) + " " + num(m) + " " + num(n) + " " + num(r));
                }
            }
        }
    }
    const std::vector<std::string> ops{ "x0", "x1", "s00", "s01", "s02", "s11", "e0", "e1", "i0", "i1", "y", "v", "g", "t", "k" };
    for (char k : kinds) {
        for (size_t depth = 1; depth <= (run.thorough ? 5u : 4u); ++depth) {
            space::tuples(ops.size(), depth, [&](auto& ix) {
                std::string s;
                for (auto i : ix) s += " " + ops[i];
                run.one(std::string(1, k) + " 1 3 2" + s);
                if (depth <= 2) {
                    run.one(std::string(1, k) + " 0 2 1" + s);
                    run.one(std::string(1, k) + " 7 0 0" + s);
                    run.one(std::string(1, k) + " 3 1 3" + s);
                }
            });
        }
    }
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
