// C34: a call that fails in the middle leaves nothing behind.
// Explored: for every use of the library of a pool, every point at which memory can run out (for one allocation, or for all
// from there on), and for every call of a registered function that an analysis makes, every way in which it can fail.
// After each failure everything that was allocated has to be released, analyzers and trees have to be as before, and the
// same use has to give what it gives undisturbed.
#include <dirent.h>
#include <sys/wait.h>
#include <unistd.h>

#include <filesystem>

#include "uses.hpp"

namespace {

using namespace uses;

std::string scratch;

size_t open_files() {
    size_t n = 0;
    if (auto* d = opendir("/proc/self/fd")) {
        while (readdir(d)) ++n;
        closedir(d);
    }
    return n;
}

/// one run with the `at`th allocation failing; the number of allocations
size_t once(const std::string& kind, const std::string& text, size_t at, bool all, const std::string& expected, const std::string& before, std::string* result = nullptr, int again = 0) {
    const auto where = (at ? "memory runs out at allocation " + std::to_string(at) + (all ? " and from there on: " : ": ") : std::string("undisturbed: "));
    std::string name = "input.cq";
    Subject s;
    prepare(s, kind, text);
    const auto files = open_files();
    std::string thrown;
    size_t n = 0;
    bool failed = false;
    {
        memory::Failing f{ at, all };
        try {
            act(s, kind, text, name);
        } catch (const std::bad_alloc&) {
            memory::on = false;
            thrown = "bad_alloc";
        } catch (const std::exception& e) {
            memory::on = false;
            thrown = e.what();
            if (thrown.empty()) thrown = "an exception";
        }
        n = memory::count;
        failed = memory::failed;
    }
    mc::same_value(where + "open files", static_cast<long long>(files), static_cast<long long>(open_files()));
    if (result) {
        *result = thrown.empty() ? outcome(s, kind) : "threw " + thrown;
    } else if (thrown.empty()) {
        const auto got = outcome(s, kind);
        // it may do without that memory, or say that there was none, but not give another answer
        const bool text_only = kind == "strings" || kind == "json" || kind == "write";
        if (got != expected && !(text_only && failed) && !(is_result(kind) && got.rfind("accepted", 0) != 0 && !got.empty() && failed)) mc::same(where + "the result", expected, got);
        MC_REQUIRE(!(is_result(kind) && got.empty()), where + "neither a tree nor an error");
    } else if (expected != "threw " + thrown) {
        MC_REQUIRE(failed, where + "threw " + thrown);
    }
    if (kind == "change" && !thrown.empty()) {
        const auto now = state(*s.analyzer);
        if (now != before && now != expected) mc::same(where + "the analyzer after a registration that failed", before, now);
        // and it can be done now
        if (now == before && text != "close") {
            change(*s.analyzer, text);
            mc::same(where + "the analyzer after doing it again", expected, state(*s.analyzer));
        }
    } else if (s.analyzer && kind != "change" && kind != "new") {
        mc::same(where + "the analyzer afterwards", before, state(*s.analyzer));
        // the same again, undisturbed
        if (at) {
            s.drop_results();
            if (kind == "analyze") {
                act(s, kind, text, name);
                mc::same(where + "the same again", expected, outcome(s, kind));
            }
        }
    }
    s.drop_results();
    s.parsed.reset();
    s.analyzer.reset();
    const auto kept = memory::live;
    memory::live = 0;
    if (kept) {
        // it may keep something for the next time, but not each time
        if (again == 3) mc::fail(where + std::to_string(kept) + " blocks of memory are not released, each time");
        once(kind, text, at, all, expected, before, result, again + 1);
    }
    return n;
}

void failing_memory(mc::Run& run, const std::string& kind, const std::string& text) {
    static const auto warm = state(cqasm::v3x::default_analyzer("3.0"));  // what is made once
    std::string before;
    {
        Subject s;
        prepare(s, kind, text);
        if (s.analyzer) before = state(*s.analyzer);
    }
    std::string expected;
    once(kind, text, 0, false, "", before, &expected);
    memory::live = 0;
    const auto n = once(kind, text, 0, false, expected, before);
    for (int all = 0; all < 2; ++all) {
        for (size_t k = 1; k <= n; ++k) {
            once(kind, text, k, all, expected, before);
            run.step();
            run.slot->beat = mc::now();
        }
    }
    run.visit(kind + text);
}

/// the first use of the library, in a process of its own for every point at which memory runs out
void failing_first(mc::Run& run, const std::string& text) {
    auto child = [&](size_t at, bool all, size_t& n) {
        int p[2];
        if (pipe(p)) mc::fail("pipe");
        const pid_t c = fork();
        if (c == 0) {
            std::string what;
            size_t allocations = 0;
            try {
                {
                    std::optional<AnalysisResult> r;
                    memory::Failing f{ at, all };
                    try {
                        auto a = cqasm::v3x::default_analyzer("3.0");
                        r.emplace(a.analyze_string(text, "input.cq"));
                    } catch (const std::bad_alloc&) {
                    }
                    memory::on = false;
                    allocations = memory::count;
                }
                const auto m = ref::analyze(*ref::parse(text).program);
                real::same_analysis(m, cqasm::v3x::default_analyzer("3.0").analyze_string(text, "input.cq"), "input.cq");
                real::same_analysis(m, real::fresh().analyze_string(text, "input.cq"), "input.cq");
            } catch (const mc::Failure& f) {
                what = f.what;
            } catch (const std::exception& e) {
                what = std::string("an exception: ") + e.what();
            }
            what = std::to_string(allocations) + " " + what.substr(0, 2000);
            (void)!write(p[1], what.data(), what.size());
            _exit(0);
        }
        close(p[1]);
        std::string r;
        char b[4096];
        for (ssize_t k; (k = read(p[0], b, sizeof b)) > 0;) r.append(b, static_cast<size_t>(k));
        close(p[0]);
        int status = 0;
        waitpid(c, &status, 0);
        const auto where = "memory runs out at allocation " + std::to_string(at) + " of the first use" + (all ? " and from there on: " : ": ");
        MC_REQUIRE(WIFEXITED(status) && WEXITSTATUS(status) == 0 && !r.empty(), where + "the process dies");
        const auto blank = r.find(' ');
        n = std::stoul(r.substr(0, blank));
        if (blank + 1 < r.size()) mc::fail(where + "afterwards: " + r.substr(blank + 1));
        run.step();
        run.slot->beat = mc::now();
    };
    size_t n = 0, ignored = 0;
    child(0, false, n);
    for (int all = 0; all < 2; ++all) {
        for (size_t k = 1; k <= n; k += run.thorough ? 1 : 3) child(k, all, ignored);
    }
    run.visit("first");
}

// ------------------------------------------------------------------------------------------------ registered functions

struct Odd {};

/// a registered function fails, at the `at`th call of the analysis, in the given way
void failing_function(mc::Run& run, const std::string& how, const std::string& text) {
    size_t calls = 0, at = 0;
    auto make = [&] {
        auto a = real::fresh();
        auto f = [&](const values::Values& v) -> values::Value {
            memory::Paused p;
            ++calls;
            if (calls == at) {
                if (how == "error") throw AnalysisError{ "no value today" };
                if (how == "located error") throw AnalysisError{ "no value today", "elsewhere.cq", Range{ { 70, 1 }, { 70, 5 } } };
                if (how == "runtime error") throw std::runtime_error{ "no value today" };
                if (how == "memory") throw std::bad_alloc{};
                if (how == "number") throw 42;
                if (how == "odd") throw Odd{};
                if (how == "inside") {
                    // it uses the library itself
                    auto inner = real::fresh();
                    inner.register_variable("k", one(1));
                    for (size_t k = 0; k < probes().size(); ++k) (void)inner.analyze(probe(k));
                    (void)inner.analyze_string(text, "input.cq");
                    (void)inner.analyze_string("version 3; X [", "input.cq");
                }
            }
            return one(v[0]->as_const_int() ? v[0]->as_const_int()->value + 1 : 0);
        };
        a.register_consteval_core_function("f", "i", f);
        a.register_consteval_core_function("f", "ii", f);
        a.register_variable("k", one(4));
        return a;
    };
    auto a = make();
    const auto p = parser::parse_string(text, "input.cq");
    MC_REQUIRE(p.errors.empty(), "the program is not accepted: " + real::list(real::errors(p.errors)));
    const auto before = state(a);
    calls = 0;
    const auto expected = dump(a.analyze(p));
    const auto n = calls;
    const auto undisturbed = a.analyze(p);
    for (at = 1; at <= n; ++at) {
        calls = 0;
        const auto where = "call " + std::to_string(at) + " of a registered function fails (" + how + "): ";
        std::string came = "nothing";
        std::optional<AnalysisResult> r;
        try {
            r.emplace(a.analyze(p));
        } catch (const AnalysisError& e) {
            came = std::string("an analysis error: ") + e.what();
        } catch (const std::bad_alloc&) {
            came = "memory";
        } catch (const std::exception& e) {
            came = std::string("runtime error") + (std::string(e.what()) == "no value today" ? "" : " changed");
        } catch (int i) {
            came = i == 42 ? "number" : "another number";
        } catch (const Odd&) {
            came = "odd";
        }
        run.step();
        if (how == "inside") {
            mc::same(where + "exception", "nothing", came);
            mc::same(where + "the result", expected, dump(*r));
        } else if (how == "error" || how == "located error") {
            mc::same(where + "exception", "nothing", came);
            // one error more than without, with its message
            size_t with = 0;
            for (auto& e : real::errors(r->errors)) {
                if (e.message.find("no value today") != std::string::npos) {
                    ++with;
                    MC_REQUIRE(e.loc.l1 > 0, where + "the error has no place");
                    if (how == "located error") mc::same_value(where + "line of the error", 70, e.loc.l1);
                }
            }
            mc::same_value(where + "errors with that message", 1, static_cast<long long>(with));
        } else {
            mc::same(where + "exception", how, came);
        }
        const auto saved = at;
        at = 0;
        mc::same(where + "the analyzer afterwards", before, state(a));
        mc::same(where + "the same again", expected, dump(a.analyze(p)));
        mc::same(where + "an earlier result", expected, dump(undisturbed));
        at = saved;
    }
    run.visit(how + text);
}

void check(mc::Run& run, const std::string& text) {
    const auto f = space::unpack(text);
    if (f[0] == "memory") failing_memory(run, f[1], f[1] == "file" ? scratch + "/" + f[2] : f[2]);
    else if (f[0] == "first") failing_first(run, f[1]);
    else if (f[0] == "function") failing_function(run, f[1], f[2]);
    else mc::fail("unknown case");
}

void enumerate(mc::Run& run) {
    run.one(space::pack({ "first", "version 3.0; qubit[2] q; bit b; Rx(pi + sin(1.5)) q[0]\nb = measure q[1]; inv.X q" }));
    auto memory = [&](const std::string& kind, const std::string& text) { run.one(space::pack({ "memory", kind, text })); };
    for (auto* o : { "variable", "other variable", "function", "overload", "instruction", "new instruction", "open", "close" }) memory("change", o);
    memory("new", "3.0");
    memory("new", "2.0");
    memory("fold", "A \"text\" of more than a few letters\n");
    memory("error", "a message \" that is longer than a short one");
    memory("file", "a.cq");
    memory("file", "b.cq");
    memory("file", "none.cq");
    std::vector<std::string> programs;
    for (auto& f : lang::forms()) programs.push_back("version 3;" + f + "\n");
    for (auto& s : pool::statements()) programs.push_back(pool::program("3.0", { "qubit[3] q", "qubit[2] r", "bit[3] b", s }));
    std::vector<std::string> more;
    for (auto& s : pool::more()) more.push_back(pool::program("3.0", { "qubit[3] q", "bit c", s }));
    for (auto& p : programs) {
        for (auto* k : { "parse", "analyze", "strings", "json" }) memory(k, p);
        if (run.thorough) {
            for (auto* k : { "whole", "copy", "write", "read", "copy tree" }) memory(k, p);
        }
    }
    for (auto& p : more) {
        for (auto* k : { "parse", "analyze" }) {
            if (run.thorough || std::string(k) == "analyze") memory(k, p);
        }
    }
    for (auto* p : { "version 3; qubit[2] q; bit b; Rx(pi + k) q[0]; ctrl.pow(2).inv.X q, q[1]; b = measure(1,0,0) q[1]; asm(x) '''y'''; wait(3) q", "version 3.0; X q; bit[2] q; Y q; qubit q; Z(1) q; Rx q[0]" }) {
        for (auto* k : { "parse", "analyze", "whole", "copy", "strings", "json", "write", "read", "copy tree" }) memory(k, p);
    }
    for (auto* p : { "version 3; X [", "version 3; 1.5e999", "version 3; qubit q; X q\n$", "", "\xff", "version 9999999999999999999999", "version 3; qubit[99999999999999999999] q" }) {
        for (auto* k : { "parse", "whole" }) memory(k, p);
    }
    // registered functions
    const std::vector<std::string> calls{ "f(1)", "f(1) + f(2)", "f(f(f(1)))", "f(1, f(2)) * f(k)", "-f(1)", "true ? f(1) : f(2)", "sin(f(1))", "f(1) / f(-1)" };
    const std::vector<std::string> places{ "Rx(@) q", "X q[@ % 2]", "pow(@).X q", "wait(@) q", "X q[@ % 2, @ % 2:@ % 2]", "b = measure(@,@,@) q[0]", "U(@,@,@) q", "CRk(@) q[0], q[1]; X b; Rx(@) q", "Rx(@) q; qubit z; Rx(@) z; Rx(@) nothing", "Rx(g(@)) q; ctrl.pow(@).X q[0], q[1]" };
    for (auto* how : { "error", "located error", "runtime error", "memory", "number", "odd", "inside" }) {
        for (auto& p : places) {
            for (auto& c : calls) {
                std::string s;
                for (char x : p) s += x == '@' ? c : std::string(1, x);
                for (auto* v : { "3.0", "2.0" }) run.one(space::pack({ "function", how, pool::program(v, { "qubit[2] q", "bit b", s, "X q" }) }));
            }
        }
    }
}

}  // namespace

int main(int argc, char** argv) {
    char dir[] = "/tmp/verif-failures-XXXXXX";
    if (!mkdtemp(dir)) return 2;
    scratch = dir;
    std::ofstream(scratch + "/a.cq") << "version 3; qubit[1000] q; Rx(1.5) q[999]";
    std::ofstream(scratch + "/b.cq") << "version 3,1; qubit";
    mc::Options o;
    o.hang_seconds = 60;
    const int r = mc::main(argc, argv, enumerate, check, o);
    if (scratch.rfind("/tmp/verif-failures-", 0) == 0) std::filesystem::remove_all(scratch);
    return r;
}
