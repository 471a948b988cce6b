// C15: every text gives exactly one tree or at least one error, and always the same.
// Explored: all short texts over all bytes and hostile alphabets, all truncations and edits of one character of
// programs, all pairs of texts one after the other. Built with the address and undefined behaviour sanitizers, so that
// an access outside of memory that happens to go well is a crash.
#include <array>
#include <unordered_map>

#include "lang.hpp"
#include "pool.hpp"

namespace {

struct Lines {
    bool decoded;
    std::vector<uint32_t> columns;
};

bool inside(const std::vector<uint32_t>& columns, const ref::Loc& l) {
    return l.l1 >= 1 && l.l1 <= columns.size() && l.c1 >= 1 && l.c1 <= columns[l.l1 - 1];
}

void check_errors(const std::string& what, const std::vector<real::Err>& es, const ref::Lexed& text, const lang::File& file) {
    for (auto& e : es) {
        MC_REQUIRE(!e.message.empty() && e.message != "<unknown error message>", what + " without a message");
        if (!text.decoded) continue;
        MC_REQUIRE(inside(text.columns, e.loc), what + " outside the text: " + real::describe(e));
        MC_REQUIRE(std::pair(e.loc.l1, e.loc.c1) <= std::pair(e.loc.l2, e.loc.c2), what + " that ends before it starts: " + real::describe(e));
        mc::same("the file name of " + what, file && !file->empty() ? "file:///" + *file : "", e.uri);
    }
}

/// everything that parsing and analysing say about a text
std::string outcome(mc::Run& run, const std::string& text, const lang::File& file) {
    const auto lexed = ref::Lexer{}.run(text);
    const auto parsed = cqasm::v3x::parser::parse_string(text, file);
    run.step();
    const auto pe = real::errors(parsed.errors);
    MC_REQUIRE(parsed.root.empty() == !pe.empty(), pe.empty() ? "neither a tree nor an error" : "both a tree and errors: " + real::list(pe));
    check_errors("a parse error", pe, lexed, file);
    std::string r;
    for (auto& s : parsed.to_strings()) r += s + "\n";
    r += parsed.to_json() + "\n";
    const lang::File nodes = file && file->empty() ? std::nullopt : file;
    if (pe.empty()) {
        MC_REQUIRE(parsed.root.is_well_formed(), "an incomplete tree");
        r += ref::dump(real::convert(parsed, nodes), true);
    }
    static auto idle = real::fresh();  // has nothing to do when there are parse errors
    const auto analyzed = pe.empty() ? real::fresh().analyze(parsed) : idle.analyze(parsed);
    run.step();
    const auto ae = real::errors(analyzed.errors);
    if (!pe.empty()) {
        mc::same("the parse errors in the result of the analysis", real::list(pe), real::list(ae));
        MC_REQUIRE(analyzed.root.empty(), "a semantic tree of a text that does not parse");
    }
    check_errors("an error", ae, lexed, file);
    for (auto& s : analyzed.to_strings()) r += s + "\n";
    r += analyzed.to_json() + "\n";
    if (ae.empty()) {
        MC_REQUIRE(!analyzed.root.empty() && analyzed.root.is_well_formed(), "an incomplete semantic tree");
        r += ref::dump(real::convert(analyzed, nodes), true);
    }
    run.visit(pe.empty() ? "tree " + std::to_string(ae.size()) : real::list(pe));
    return r;
}

void check(mc::Run& run, const std::string& text) {
    const auto f = space::unpack(text);
    lang::File file = "input.cq";
    if (f[0] == "none") file = std::nullopt;
    if (f[0] == "empty") file = "";
    if (f[0] == "sequence") {
        // outcomes of a text, the first time and after each of the others
        static std::unordered_map<std::string, std::string> first;
        for (size_t k = 1; k < f.size(); ++k) {
            const auto o = outcome(run, f[k], file);
            const auto [at, added] = first.emplace(f[k], o);
            if (!added) mc::same("the outcome of " + mc::quote(f[k]) + " after other texts", at->second, o);
        }
        return;
    }
    const auto once = outcome(run, f[1], file);
    if (f[1].size() < 2 || f[0] == "twice") mc::same("the outcome the second time", once, outcome(run, f[1], file));
}

std::vector<std::string> seeds() {
    std::vector<std::string> r;
    std::string all = "version 3.0\n";
    for (auto& f : lang::forms()) {
        r.push_back("version 3.0;" + f);
        all += f + "\n";
    }
    r.push_back("/* a */ version 3 // b\n" + pool::program("3.0", { "qubit[2] q", "bit[2] b", "H q[0]", "ctrl.X q[0], q[1]", "b = measure q" }).substr(12));
    r.push_back(pool::program("3.0", { "qubit q", "X r", "qubit q", "q = measure q", "Rx(1/0) q", "X q[4:1]", "barrier 1" }));
    r.push_back("version 3\nasm(a) ''' \xc3\xa9 \n '' \xe2\x82\xac '''\nqubit \xc3\xa9\n");
    return r;
}

void enumerate(mc::Run& run) {
    auto one = [&](const std::string& s) { run.one(space::pack({ "one", s })); };
    const auto bytes = space::all_bytes();
    // short texts
    one("");
    for (size_t n = 1; n <= 2; ++n) space::words(bytes, n, one);
    for (auto& b : bytes) {
        for (auto* before : { "version 3", "version 3;", "version 3;X ", "version 3;X q", "version 3;X 1", "version 3;X 1.", "version 3;X 1e", "version 3;asm(a)'''", "version 3;asm(a)''''",
                 "version 3;/", "version 3;/*", "version 3;/**", "version 3;//", "version 3;X q[", "version 3;qubit[", "version ", "version 3.", "v", "version 3;X \xc3", "version 3;X \xe2\x82",
                 "version 3;X \xf0\x9f\x98", "version 3;\xef\xbb", "\xef\xbb\xbfversion 3" }) {
            one(before + b);
            one(before + b + " q");
            one(before + b + "'''\n*/;]");
        }
    }
    // hostile alphabets
    space::words(space::letters("\"'\\/*=[(.:;\n\r\t $\x01\x7f\xc3\xa9\xffqX0_1e-") , 3, one);
    space::words({ "version", " ", "3", ".", ";", "X", "'''", "\xff" }, run.thorough ? 6 : 5, one);
    auto in = [&](const std::vector<std::string>& alphabet, size_t longest, const std::string& before) {
        for (size_t n = 1; n <= longest; ++n) space::words(alphabet, n, [&](const std::string& s) { one(before + s); });
    };
    in(space::letters("[](),:;q"), run.thorough ? 6 : 4, "version 3;X q");
    in({ "/*", "*/", "//", "\n", "'''", "X q", "\xc3\xa9" }, run.thorough ? 6 : 4, "version 3;");
    in({ "qubit", "[", "0", "]", "q", ";", "X", "99999999999999999999" }, run.thorough ? 6 : 4, "version 3;");
    in({ "-", "!", "(", ")", "1", "/", "0", "**", "?", ":" }, run.thorough ? 5 : 4, "version 3;qubit q;Rx(1");
    // truncations and edits of one character
    const std::vector<std::string> bad{ std::string(1, '\0'), "\x01", "\x80", "\xff", "\xc3", "\xe2\x82", "\xf4\x90\x80\x80", "\xed\xa0\x80", "\xc0\xaf", "\xf0\x9f\x98\x80", "\xef\xbb\xbf", "\xe2\x80\xa8",
        "'", "'''", "\"", "/*", "*/", "//", "\\", "\n", "\r", ";", "$", "@", "#", "{", "}", "[", "]", "(", ")", ".", ",", ":", "=", "-", "0", "9", "e", "_", " ", "\t", "\v", "\f" };
    for (auto& s : seeds()) {
        for (size_t k = 0; k <= s.size(); ++k) {
            one(s.substr(0, k));
            if (s.size() < 60 || run.thorough) one(s.substr(k));
        }
        for (size_t k = 0; k < s.size(); ++k) {
            auto t = s;
            t.erase(k, 1);
            one(t);
            for (auto& x : bad) {
                if (s.size() > 60 && !run.thorough && (k + x.size()) % 3) continue;
                t = s;
                t.replace(k, 1, x);
                one(t);
                t = s;
                t.insert(k, x);
                one(t);
            }
            if (k + 1 < s.size()) {
                t = s;
                std::swap(t[k], t[k + 1]);
                one(t);
                // line ends and zeros in the middle
                one(s.substr(0, k) + s.substr(s.size() - k / 2));
            }
        }
    }
    // every token replaced by, and preceded by, a token of another kind
    const std::vector<std::string> odd{ "1.0e999", ".5e400", "9.9e-400", "99999999999999999999", "9223372036854775808", "-9223372036854775808", "(1.0e999)", "0x10", "1.", "1.5.5", " , ", "\"s\"", "version 3",
        "measure", "inv", "true", "pi", "q[1.0e999]", "q[99999999999999999999]", "f(1.0e999)", "/* 1.0e999", "// 1.0e999\n", "1.0e999 99999999999999999999" };
    for (auto& f : lang::forms()) {
        const auto tokens = lang::split(f);
        for (size_t k = 0; k <= tokens.size(); ++k) {
            for (auto& x : odd) {
                auto t = tokens;
                t.insert(t.begin() + static_cast<long>(k), x);
                one("version 3;" + lang::join(t));
                if (k == tokens.size()) continue;
                t.erase(t.begin() + static_cast<long>(k) + 1);
                one("version 3.0\n" + lang::join(t));
                run.one(space::pack({ "none", "version 3.0\nqubit q;" + lang::join(t) }));
            }
        }
    }
    for (auto& x : odd) {
        for (auto& y : odd) {
            one("version " + x + ";qubit[" + y + "] q");
            one("version 3;Rx(" + x + " + " + y + ") q[" + x + ":" + y + "];X " + x + ", " + y);
        }
    }
    // file names
    for (auto* file : { "none", "empty", "twice" }) {
        for (auto& s : seeds()) {
            for (size_t k = 0; k <= s.size(); ++k) run.one(space::pack({ file, s.substr(0, k) }));
            for (auto* x : { "$", ";;;", "\n\n", "]" }) run.one(space::pack({ file, s + x }));
        }
        auto all = pool::statements();
        all.insert(all.end(), pool::more().begin(), pool::more().end());
        for (auto& x : all) run.one(space::pack({ file, pool::program("3.0", { "qubit q", "qubit[3] r", "bit b", x }) }));
    }
    // one text after another
    std::vector<std::string> texts{ "", "\xff", "version", "version 4", "version 3;$", "version 3;asm(x)'''", "version 3;X q[", "version 3;Rx(1e999) q", "version 3;qubit[99999999999999999999] q",
        "version 3;'''", "version 3;/*" };
    for (auto& s : seeds()) texts.push_back(s);
    for (auto& x : pool::statements()) texts.push_back(pool::program("3.0", { "qubit q", "bit[3] b", "qubit[3] r", x }));
    for (auto& a : texts) {
        for (auto& b : texts) run.one(space::pack({ "sequence", b, a, b }));
    }
    // triples of a few
    const std::vector<size_t> few{ 1, 3, 5, 7, 11, 12, 14, texts.size() - 1, texts.size() - 3, texts.size() - 20, 33, 34 };
    space::tuples(few.size(), run.thorough ? 4 : 3, [&](auto& ix) {
        std::vector<std::string> v{ "sequence" };
        for (auto i : ix) v.push_back(texts[few[i]]);
        for (auto i : ix) v.push_back(texts[few[i]]);
        run.one(space::pack(v));
    });
    // long ones
    for (size_t n : { 100, 255, 256, 257, 1000, 4096, 65535, 65536, 100000 }) {
        for (auto* x : { " ", ";", "\n", "q", "1", "/", "'", "\xc3\xa9", "$", "\\", "." }) {
            std::string s;
            for (size_t k = 0; k < n; ++k) s += x;
            one(s);
            one("version 3;" + s);
            one("version 3;X " + s);
            one("version 3;asm(b) '''" + s + "'''");
            one("version 3;asm(b) '''" + s);
            one("version 3;/*" + s + "*/ X q");
            one("version 3//" + s + "\nX q");
            one("version " + s);
            if (n <= 4096) one("version 3;Rx(1" + s + ") q[" + s + "]");
        }
    }
    // nests; the stand-in of the parser generator's run time is slow on some of them
    for (size_t n : { 2, 8, 60, 300 }) {
        for (auto* x : { "(", "-", "[", "inv.", "pow(", "sin(", "1?", "ctrl.", "q[", "1**" }) {
            const std::string t = x;
            if ((t == "q[" && n > 8) || (t == "1**" && n > 60)) continue;
            std::string s;
            for (size_t k = 0; k < n; ++k) s += x;
            one("version 3;" + s);
            one("version 3;X " + s);
            one("version 3;X " + s + "1");
            one("version 3;Rx(" + s + "1) q");
        }
    }
}

}  // namespace

int main(int argc, char** argv) {
    mc::Options o;
    o.memory_mb = 0;
    o.hang_seconds = 60;
    return mc::main(argc, argv, enumerate, check, o);
}
