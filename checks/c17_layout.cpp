// C17: layout and comments never change the meaning of a program.
// Explored: programs with every form of statement in all layouts that change one or two gaps between tokens, or all of
// them; each gives the trees or the errors of the plain layout. Layouts that join tokens are told by the model's lexer.
#include "layout.hpp"

namespace {

/// the tokens, any number of separators being one
std::string tokens(const std::string& text) {
    const auto l = ref::Lexer{}.run(text);
    if (l.problem) return "problem";
    std::string r;
    bool separated = true;
    for (auto& t : l.tokens) {
        if (t.type == "newline" || t.type == ";") {
            separated = true;
            continue;
        }
        if (separated && t.type != "eof") r += "\n";
        separated = false;
        r += t.type + " " + std::to_string(t.text.size()) + ":" + t.text + " ";
    }
    return r;
}

struct Outcome {
    std::string parse, analysis;
};

Outcome outcome(const std::string& text) {
    Outcome r;
    const auto p = cqasm::v3x::parser::parse_string(text, "input.cq");
    if (!p.errors.empty()) {
        r.parse = "error";
        return r;
    }
    r.parse = ref::dump(real::convert(p, "input.cq"), false);
    const auto a = real::fresh().analyze(p);
    if (a.errors.empty()) {
        r.analysis = ref::dump(real::convert(a, "input.cq"), false);
    } else {
        for (auto& e : real::errors(a.errors)) r.analysis += e.message + "\n";
    }
    return r;
}

void check(mc::Run& run, const std::string& text) {
    const auto f = space::unpack(text);
    static std::string last, last_tokens;
    static Outcome expected;
    if (f[0] != last) {
        last = f[0];
        last_tokens = tokens(f[0]);
        expected = outcome(f[0]);
        MC_REQUIRE(expected.parse != "error", "the plain program is refused");
        run.step();
    }
    const auto t = tokens(f[1]);
    run.visit(t);
    if (t != last_tokens) return;  // joined or split: another program
    const auto r = outcome(f[1]);
    run.step();
    mc::same("the syntax tree", expected.parse, r.parse);
    mc::same("the analysis", expected.analysis, r.analysis);
}

void enumerate(mc::Run& run) {
    size_t n = 0;
    for (auto& statements : layout::programs()) {
        const auto p = layout::program(statements);
        std::vector<std::string> base;
        for (char k : p.kinds) base.push_back(k == ';' ? "\n" : " ");
        const auto plain = layout::text(p, base);
        layout::all(run.thorough || n++ < lang::forms().size(), p, [&](const std::string& s) { run.one(space::pack({ plain, s })); });
        // comments of every content, in every gap
        for (size_t k = 1; k < base.size(); ++k) {
            for (auto* c : { "/*/*/", "/****/", "/* * / */", "/*\r*/", "/*\r\n;*/", "/*version 4*/", "/*\"*/", "/*\\*/", "/* // */", "/*'*/", "/*\xf0\x9f\x98\x80*/", "/**//**/", "/*\t*/\t/**/" }) {
                auto b = base;
                b[k] = std::string(" ") + c + (p.kinds[k] == ';' ? "\n" : "");
                run.one(space::pack({ plain, layout::text(p, b) }));
            }
            if (p.kinds[k] != ';') continue;
            for (auto* c : { "//", "///", "// /*", "//*/", "// \\", "// '''", "// version 4;", "//\t", "// \xe2\x82\xac", "//;", "// X q" }) {
                for (auto* end : { "\n", "\r\n", "\n\n", "\n;" }) {
                    auto b = base;
                    b[k] = std::string(c) + end;
                    run.one(space::pack({ plain, layout::text(p, b) }));
                }
            }
        }
    }
    // long runs of blanks, comments and separators
    for (size_t k : { 10, 100, 1000, 5000 }) {
        for (auto* x : { " ", "\t", "/**/", "/*\n*/", " /* c */\t" }) {
            std::string s;
            for (size_t j = 0; j < k; ++j) s += x;
            run.one(space::pack({ "version 3\nqubit q\nX q", "version 3\nqubit " + s + "q\nX " + s + " q" + s }));
            run.one(space::pack({ "version 3\nqubit q\nX q", s + "version 3" + s + "\n" + s + "qubit q\n" + s + "\n" + s + "X q" }));
        }
        for (auto* x : { "\n", ";", "\r\n", "// c\n", ";/**/\n" }) {
            std::string s;
            for (size_t j = 0; j < k; ++j) s += x;
            run.one(space::pack({ "version 3\nqubit q\nX q", s + "version 3" + s + "qubit q" + s + "X q" + s }));
        }
    }
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
