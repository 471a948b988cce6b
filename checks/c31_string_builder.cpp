// C31: escape sequences and fragments build exactly the intended string.
#include "libqasm/string_builder.hpp"
#include "libqasm/utils.hpp"
#include "mc.hpp"
#include "space.hpp"

using cqasm::syntactic::StringBuilder;

namespace {

struct Op {
    bool escape;
    std::string text;
};

const std::vector<Op>& ops() {
    static const std::vector<Op> o = [] {
        std::vector<Op> r;
        // the known escapes first
        for (const char* e : { "\\t", "\\n", "\\r", "\\'", "\\\"", "\\\\" }) r.push_back({ true, e });
        // everything else that may be handed over as an escape, kept verbatim
        for (const char* e : { "\\x", "\\0", "t", "\\", "\\tt", "\\T", "", "\\ ", "n", "\\\\n", "\\%", "\\b", "\\a", "\\u0041", "x\\n" }) r.push_back({ true, e });
        for (const char* f : { "", "a", "\\n", "\n", "\"", "\\", "'", "%d {}", "caf\xc3\xa9", "n", "\t", "\\\\", "abcdefghijklmnopqrstuvwxyz", " ", "0" }) r.push_back({ false, f });
        r.push_back({ false, std::string("x\0y", 3) });
        r.push_back({ false, std::string(1, '\0') });
        r.push_back({ false, "\xff" });
        return r;
    }();
    return o;
}

std::string model(const Op& o) {
    if (!o.escape) return o.text;
    static const std::map<std::string, char> known{ { "\\t", '\t' }, { "\\n", '\n' }, { "\\r", '\r' }, { "\\'", '\'' }, { "\\\"", '"' }, { "\\\\", '\\' } };
    const auto it = known.find(o.text);
    return it == known.end() ? o.text : std::string(1, it->second);
}

// case: operations, packed as pairs (e or f, text)
void check(mc::Run& run, const std::string& text) {
    const auto f = space::unpack(text);
    if (!f.empty() && f[0] == "q") {
        const std::string quoted = f[1] + f[2] + f[1];
        const std::string before = quoted;
        mc::same("between the triple quotes of " + mc::clip(quoted), f[2], cqasm::utils::remove_triple_quotes(quoted));
        mc::same("the argument afterwards", before, quoted);
        run.step(2);
        run.visit(quoted);
        return;
    }
    StringBuilder b, other;
    std::string expected;
    for (size_t i = 0; i + 1 < f.size(); i += 2) {
        const Op o{ f[i] == "e", f[i + 1] };
        const std::string argument = o.text;
        if (o.escape) {
            b.push_escape(o.text);
        } else {
            b.push_string(o.text);
        }
        other.push_string("z");  // another builder does not mix in
        expected += model(o);
        mc::same("the string after " + std::to_string(i / 2 + 1) + " steps", expected, b.stream.str());
        mc::same("the argument afterwards", argument, o.text);
        run.step();
        run.visit(expected);
    }
    mc::same("the other builder", std::string(f.size() / 2, 'z'), other.stream.str());
    mc::same("a fresh builder", "", StringBuilder{}.stream.str());
}

void enumerate(mc::Run& run) {
    for (const char* q : { "'''" }) {
        auto quoted = [&](const std::string& body) { run.one(space::pack({ "q", q, body })); };
        space::byte_strings(run.thorough, space::letters("\"'\\\n a{}/*\t0"), space::letters("\"'\\\n a"), space::letters("\"' a"), quoted);
    }
    auto& o = ops();
    run.one("");
    for (size_t n = 1; n <= (run.thorough ? 4u : 3u); ++n) {
        space::tuples(o.size(), n, [&](auto& ix) {
            std::vector<std::string> f;
            for (auto i : ix) {
                f.push_back(o[i].escape ? "e" : "f");
                f.push_back(o[i].text);
            }
            run.one(space::pack(f));
        });
    }
    // every string of up to three bytes that starts with a backslash, as an escape; every byte as a fragment
    for (auto& a : space::all_bytes()) {
        run.one(space::pack({ "f", a }));
        run.one(space::pack({ "e", a }));
        run.one(space::pack({ "e", "\\" + a }));
        run.one(space::pack({ "f", "\\" + a }));
        run.one(space::pack({ "e", "\\" + a, "e", "\\\\", "f", a, "e", "\\t" }));
        for (char c : std::string("tnr'\"\\ x")) run.one(space::pack({ "e", "\\" + a + c }));
        for (char c : std::string("tnr'\"\\ x")) run.one(space::pack({ "e", std::string("\\") + c + a }));
    }
    // long sequences over few operations
    const std::vector<Op> few{ { true, "\\n" }, { true, "\\\\" }, { false, "a" }, { false, "\\" }, { true, "\\q" } };
    for (size_t n = 4; n <= (run.thorough ? 9u : 7u); ++n) {
        space::tuples(few.size(), n, [&](auto& ix) {
            std::vector<std::string> f;
            for (auto i : ix) {
                f.push_back(few[i].escape ? "e" : "f");
                f.push_back(few[i].text);
            }
            run.one(space::pack(f));
        });
    }
    for (size_t n : { 100, 255, 256, 257, 511, 512, 513, 1000, 1024, 4096, 5000 }) {
        for (auto& a : few) {
            std::vector<std::string> f;
            for (size_t i = 0; i < std::min<size_t>(n, 1024); ++i) {
                f.push_back(a.escape ? "e" : "f");
                f.push_back(a.text);
            }
            run.one(space::pack(f));
            run.one(space::pack({ "f", std::string(n, 'q'), a.escape ? "e" : "f", a.text, "f", std::string(n, '\\') }));
        }
    }
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
