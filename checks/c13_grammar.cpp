// C13: exactly the documented grammar is accepted, statement by statement, and the tree holds what was written.
// Explored: all sequences of tokens up to a length, all edits of one token (and of two) of every form of statement, all
// pairs of statements with every separator, all version sections up to a length.
#include "lang.hpp"

namespace {

void check(mc::Run& run, const std::string& text) {
    real::Want want;
    want.locations = false;
    lang::parse(run, text, want);
}

void enumerate(mc::Run& run) {
    const auto& t = lang::tokens();
    auto body = [&](const std::string& s) { run.one("version 3;" + s); };
    // all sequences of tokens
    for (size_t n = 0; n <= 3; ++n) space::words([&] { auto r = t; for (auto& x : r) x += ' '; return r; }(), n, body);
    auto spaced = [](const std::string& s) {
        auto r = lang::split(s);
        for (auto& x : r) x = x == "\\n" ? "\n" : x + " ";
        return r;
    };
    const auto most = spaced("measure reset wait inv pow ctrl qubit bit asm true q X 7 1.5 '''t''' ; \\n : , . = [ ] ( ) + - ! ** * < ?");
    const auto some = spaced("measure reset wait inv pow qubit asm q X 7 '''t''' ; : , . = [ ] ( ) - ** ?");
    const auto few = spaced("q 7 = measure ( ) , [ ] . inv ;");
    const auto inserted = spaced("q 7 1.5 true = measure wait ( ) , . [ ] : - inv '''t'''");
    const auto tiny = spaced("q ( ) , = measure ;");
    space::words(run.thorough ? some : spaced("measure reset wait pow qubit asm q 7 '''t''' ; , . = [ ( ) -"), 4, body);
    space::words(few, 4, body);
    if (run.thorough) space::words(few, 5, body);
    space::words(tiny, 6, body);
    if (run.thorough) space::words(tiny, 7, body);
    for (auto* start : { "b = measure", "wait (", "asm (", "pow (", "inv .", "qubit [", "X q [", "Rx (", "reset", "b [", "ctrl . inv ." }) {
        space::words(run.thorough ? most : some, 2, [&](auto& s) { body(std::string(start) + " " + s); });
        space::words(few, 3, [&](auto& s) { body(std::string(start) + " " + s); });
    }
    // one token deleted, inserted, replaced, swapped
    auto edits = [&](const std::vector<std::string>& form, const std::vector<std::string>& with, const std::function<void(const std::vector<std::string>&)>& f) {
        for (size_t k = 0; k < form.size(); ++k) {
            auto d = form;
            d.erase(d.begin() + static_cast<long>(k));
            f(d);
            if (k + 1 < form.size()) {
                d = form;
                std::swap(d[k], d[k + 1]);
                f(d);
            }
            d = form;
            d.insert(d.begin() + static_cast<long>(k), form[k]);
            f(d);
            for (auto& x : with) {
                d = form;
                d[k] = x;
                f(d);
            }
        }
        for (size_t k = 0; k <= form.size(); ++k) {
            for (auto& x : with) {
                auto d = form;
                d.insert(d.begin() + static_cast<long>(k), x);
                f(d);
            }
        }
    };
    const std::vector<std::string> signs{ "q", "(", ")", ",", ".", "=", ";", "7" };
    for (auto& form : lang::forms()) {
        const auto ts = lang::split(form);
        body(form);
        body(lang::join(ts, ""));
        edits(ts, t, [&](auto& d) { body(lang::join(d)); });
        // two tokens inserted anywhere, three at the end
        for (size_t k = 0; k <= ts.size(); ++k) {
            auto before = lang::join({ ts.begin(), ts.begin() + static_cast<long>(k) });
            auto after = lang::join({ ts.begin() + static_cast<long>(k), ts.end() });
            space::words(run.thorough ? most : inserted, 2, [&](auto& s) { body(before + " " + s + after); });
            if (k == ts.size()) space::words(run.thorough ? some : few, 3, [&](auto& s) { body(before + " " + s); });
        }
        if (run.thorough) {
            edits(ts, signs, [&](auto& d) { edits(d, signs, [&](auto& d2) { body(lang::join(d2)); }); });
        } else if (ts.size() <= 6) {
            const std::vector<std::string> s{ "q", "(", "," };
            edits(ts, s, [&](auto& d) { edits(d, s, [&](auto& d2) { body(lang::join(d2)); }); });
        }
    }
    // pairs and triples of statements, separated and not
    const std::vector<std::string> separators{ ";", "\n", "\r\n", ";;", "\n;\n", " ; ", " ", ",", " // c\n", "/* ; */", ". ", ":" };
    const auto& forms = lang::forms();
    for (auto& a : forms) {
        for (auto& b : forms) {
            for (auto& s : separators) body(a + s + b);
            run.one("version 3" + std::string(" ") + a + ";" + b);
            run.one("version 3\n" + a + "\n\n" + b + "\n");
            run.one("version 3.0;;" + a + ";" + b + ";;");
            if (run.thorough) {
                for (auto& c : forms) body(a + ";" + b + "\n" + c);
            }
        }
        // a statement before the version, twice a version
        run.one(a + ";version 3");
        run.one(a + ";version 3;" + a);
        run.one("version 3;" + a + ";version 3");
        run.one("version 3;version 3;" + a);
        run.one(a);
    }
    // version sections
    const std::vector<std::string> v{ "version ", "3", "3.0", "\n", ";", "q ", " ", ".", "X q" };
    for (size_t n = 0; n <= (run.thorough ? 6u : 5u); ++n) space::words(v, n, [&](auto& s) { run.one(s); });
    // expressions in expressions, and lists with the same entry more than once, wherever they can stand
    std::vector<std::string> level0{ "q", "f()" }, level1 = level0, level2;
    auto grow = [](const std::vector<std::string>& by, const std::vector<std::string>& small, std::vector<std::string>& to) {
        for (auto& x : by) {
            for (auto& s : { "f(" + x + ")", "-" + x, "(" + x + ")", "q[" + x + "]", x + "**7" }) to.push_back(s);
            for (auto& y : small) {
                for (auto& s : { "f(" + x + "," + y + ")", "f(" + y + "," + x + ")", "q[" + x + ":" + y + "]", "q[" + y + "," + x + "]", x + "-" + y, x + "?" + y + ":q" }) to.push_back(s);
            }
        }
    };
    grow(level0, { "q", "f()", "f(q)" }, level1);
    grow(level1, run.thorough ? level1 : level0, level2);
    for (auto* l : { &level1, &level2 }) {
        for (auto& x : *l) {
            body("X " + x);
            if (l == &level1 || run.thorough) {
                for (auto* form : { "X q,@", "Rx(@)q", "pow(@).X q", "b=measure@", "b=measure(@)q", "measure(@)q", "@=measure q", "reset @", "init @", "barrier @", "wait(@)q", "wait(7)@", "inv.ctrl.Rx(7,@)@" }) {
                    std::string s = form;
                    for (size_t k; (k = s.find('@')) != std::string::npos;) s.replace(k, 1, " " + x);
                    body(s);
                }
            }
        }
    }
    const std::vector<std::string> entries{ "a", "b", "7", "7.5", "a[7]", "f(a)" };
    for (size_t n = 2; n <= (run.thorough ? 5u : 4u); ++n) {
        std::vector<size_t> k(n);
        for (bool more = true; more;) {
            std::string s, r;
            for (size_t i = 0; i < n; ++i) {
                s += (i ? "," : "") + entries[k[i]];
                r += (i % 2 ? ":" : i ? "," : "") + entries[k[i]];
            }
            body("X " + s);
            body("X(" + s + ")f(" + s + ")");
            body("X q[" + s + "]");
            if (n % 2 == 0) body("X q[" + r + "]");
            more = false;
            for (size_t i = 0; i < n && !more; ++i) {
                more = ++k[i] < (n > 3 ? 3u : entries.size());
                if (!more) k[i] = 0;
            }
        }
    }
    // the same statement again, next and later
    for (auto& a : forms) {
        for (auto& b : forms) {
            body(a + ";" + b + ";" + a + ";" + a);
            body(a + "\n" + b + "\n" + b + ";" + a);
        }
    }
    // long lists and chains, and as many statements
    for (size_t n : { 1, 2, 3, 5, 10, 30, 100, 300 }) {
        auto repeat = [&](const std::string& s, const std::string& by) {
            std::string r;
            for (size_t k = 0; k < n; ++k) r += (k ? by : "") + s;
            return r;
        };
        for (auto* end : { "", ",", " q", ")", ";", "]" }) {
            const std::string e = end;
            body("X " + repeat("q", ",") + e);
            body("X q[" + repeat("0", ",") + "]" + e);
            body("X q[" + repeat("0:1", ",") + "]" + e);
            body("Rn(" + repeat("1", ",") + ") q" + e);
            body("X f(" + repeat("1", ",") + ")" + e);
            body(repeat("inv.", "") + "X q" + e);
            body(repeat("pow(2).", "") + "X q" + e);
            body(repeat("X q", ";") + e);
            body(repeat("qubit q", "\n") + e);
            body(repeat(";", "") + e);
            body(repeat(";\n", "") + "X q" + e);
        }
    }
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
