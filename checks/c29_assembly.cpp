// C29: assembly text and backend names pass through verbatim.
// Explored: all contents up to a length over characters and fragments that mean something elsewhere in the language, at
// every place among other statements, with many backend names; the content must come out of both trees unchanged, or
// end at the first closing quotes.
#include "lang.hpp"

namespace {

void check(mc::Run& run, const std::string& text) {
    const auto f = space::unpack(text);
    if (f[0] == "text") {
        // whatever comes: as the model says
        lang::analyze(run, f[1]);
        return;
    }
    // directly: name and content between two statements and next to another declaration
    const auto& name = f[1];
    const auto& content = f[2];
    const std::string declaration = "asm(" + name + ") '''" + content + "'''";
    const size_t at = std::stoul(f[0]);
    const std::vector<std::string> others{ "qubit q", "X q", "asm(other) '''  '''", "b = measure q" };
    std::string program = "version 3;bit b";
    for (size_t k = 0; k <= others.size(); ++k) {
        if (k == at) program += "\n" + declaration;
        if (k < others.size()) program += ";" + others[k];
    }
    const auto p = cqasm::v3x::parser::parse_string(program, "input.cq");
    MC_REQUIRE(p.errors.empty(), "refused: " + real::list(real::errors(p.errors)));
    run.step();
    const auto& statements = p.root->as_program()->block->statements;
    mc::same_value("statements", 6, static_cast<long long>(statements.size()));
    const auto* a = statements[at + 1]->as_asm_declaration();
    MC_REQUIRE(a, "the declaration is not in its place");
    mc::same("the content in the syntax tree", content, a->backend_code);
    mc::same("the backend in the syntax tree", name, a->backend_name->name);
    const auto r = real::fresh().analyze(p);
    MC_REQUIRE(r.errors.empty(), "refused: " + real::list(real::errors(r.errors)));
    run.step();
    const auto& ss = r.root->block->statements;
    mc::same_value("statements of the semantic tree", 4, static_cast<long long>(ss.size()));
    const auto* s = ss[at > 0 ? at - 1 : 0]->as_asm_declaration();
    MC_REQUIRE(s, "the declaration is not in its place in the semantic tree");
    mc::same("the content in the semantic tree", content, s->backend_code);
    mc::same("the backend in the semantic tree", name, s->backend_name);
    size_t declarations = 0;
    for (const auto& x : ss) declarations += x->as_asm_declaration() != nullptr;
    mc::same_value("declarations", 2, static_cast<long long>(declarations));
    run.visit(content + "/" + name);
}

/// can it stand between triple quotes?
bool fits(const std::string& s) { return ("'''" + s + "'''").find("'''", 3) == s.size() + 3; }

void enumerate(mc::Run& run) {
    auto one = [&](const std::string& content, const std::string& name = "backend", int at = -1) {
        if (!fits(content)) {
            run.one(space::pack({ "text", "version 3;qubit q\nasm(" + name + ") '''" + content + "'''\nX q" }));
            return;
        }
        for (int k = 0; k <= 4; ++k) {
            if (at == -1 || k == at) run.one(space::pack({ std::to_string(k), name, content }));
        }
    };
    // every character, alone and between others
    std::vector<std::string> chars;
    for (int c = 0; c < 128; ++c) chars.emplace_back(1, static_cast<char>(c));
    for (auto* x : { "\xc2\x80", "\xc3\xa9", "\xdf\xbf", "\xe0\xa0\x80", "\xe2\x82\xac", "\xef\xbb\xbf", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf0\x9f\x98\x80", "\xf4\x8f\xbf\xbf" }) chars.emplace_back(x);
    one("");
    for (auto& c : chars) {
        one(c);
        for (auto* x : { "a", "'", "\n", "\\", " ", "''" }) {
            one(c + x, "b", 2);
            one(x + c, "b", 2);
            one(x + c + x, "b", 2);
        }
    }
    for (auto& c : chars) {
        for (auto& d : chars) one(c + d, "b", 1);
    }
    // fragments
    const std::vector<std::string> fragments{ "'", "\"", "\\", "\n", "\r\n", "\r", " ", "\t", "//", "/*", "*/", "{", "}", "a", "\xc3\xa9", "asm(x)", ";", "''", "\\'", "\\n", "version 4" };
    space::words(fragments, 3, [&](auto& s) { one(s, "b", run.thorough ? -1 : 3); });
    const std::vector<std::string> few{ "'", "\n", "//", "/*", "*/", "\\", "x", " " };
    for (size_t n = 4; n <= (run.thorough ? 6u : 4u); ++n) space::words(few, n, [&](auto& s) { one(s, "b", 0); });
    for (size_t n = 3; n <= (run.thorough ? 9u : 7u); ++n) space::words(space::letters("' a"), n, [&](auto& s) { one(s, "b", 4); });
    // lengths
    for (auto& fill : { "x", " ", "\n", "\\", "\xc3\xa9", "''x", "/*" }) {
        std::string s;
        for (size_t n = 1; n <= 300; ++n) one(s += fill, "b", 2);
        for (size_t n : { 1000, 4096, 10000, 30000 }) {
            s.clear();
            for (size_t k = 0; k < n; ++k) s += fill;
            one(s, "b", 2);
            one(" " + s + "\n", "b", 2);
        }
    }
    // names
    for (auto* n : { "a", "Z", "_", "_1", "a1", "pi", "X", "q", "b", "sin", "Asm", "asm_", "truE", "inv_", "True", "PRAGMA", "backend_with_a_very_long_name_0123456789" }) {
        for (auto& c : { "", "code", " {\n} ", "'", "\xc3\xa9" }) one(c, n);
    }
    for (size_t n = 1; n <= 300; n += 7) one("x", std::string(n, 'n'), 1);
    const std::vector<std::string> words{ "", "a", "1", "1.5", "asm", "true", "a b", "a,b", "'x'", "\"x\"", "a.b", "a-b", "\xc3\xa9", "version", "qubit", "(a)", "a[0]", "'''a'''" };
    for (auto& n : words) {
        for (auto* q : { "'''", "''", "'", "\"", "\"\"\"", "''''", "'''''", "''''''", "" }) {
            run.one(space::pack({ "text", "version 3;asm(" + n + ") " + q + "code" + q }));
            run.one(space::pack({ "text", "version 3;asm(" + n + ")" + q + "code" + q + ";qubit q" }));
            run.one(space::pack({ "text", "version 3;asm (" + n + ") /* c */ " + q + "code" + q + "\nX q" }));
            run.one(space::pack({ "text", "version 3;asm " + n + " " + q + "code" + q }));
        }
    }
    // where the text ends, and what comes after
    for (auto* a : { "", "'", "''", "'''", "''''", "'''''", "''''''", "'''''''", "x'''", "x''''", "'x'''" }) {
        for (auto* b : { "", "'", "''", "'''", "\n", ";", " ", "x", "\nX q", ";asm(c) '''y'''", "'''y'''", "//'''" }) {
            for (auto* c : { "", "'''", "\n'''", " z", "\nqubit r" }) run.one(space::pack({ "text", std::string("version 3;qubit q;asm(b) '''") + a + b + c }));
        }
    }
    // several of them
    for (auto& a : few) {
        for (auto& b : few) {
            for (auto& c : few) {
                run.one(space::pack({ "text", "version 3;asm(a) '''" + a + "''';asm(a) '''" + b + "'''\nqubit q;asm(b) '''" + c + a + "''';X q" }));
                run.one(space::pack({ "text", "version 3;asm(a) '''" + a + "'''asm(a) '''" + b + "'''\nqubit q;asm(b) '''" + c + "''';X foo" }));
            }
        }
    }
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
