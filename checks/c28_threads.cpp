// C28: independent analyses running concurrently do not interfere.
// Explored: pairs of jobs on two threads, from a cold start and after the library was used: every schedule up to
// accesses that cannot influence each other, with up to one switch (thorough: two) before an access to shared memory.
#include "c28_runtime.hpp"
#include "lang.hpp"
#include "pool.hpp"
#include "libqasm/string_builder.hpp"
#include "libqasm/utils.hpp"
#include "libqasm/v3x/cqasm.hpp"
#include "libqasm/v3x/cqasm_python.hpp"
#include "libqasm/v3x/primitives.hpp"

namespace {

namespace tree = cqasm::tree;

std::string strings(const std::vector<std::string>& v) { return space::pack(v); }

/// an analyzer of which both threads may use copies (made before they start)
std::optional<cqasm::v3x::analyzer::Analyzer> original;

/// what a job does: a kind, and a text
std::string job(const std::string& spec) {
    const char kind = spec[0];
    const std::string text = spec.substr(1);
    std::ostringstream os;
    try {
        switch (kind) {
            case 'p': {  // parses
                const auto r = cqasm::v3x::parser::parse_string(text, "input.cq");
                os << strings(r.to_strings()) << r.to_json();
                break;
            }
            case 'a': {  // parses and analyses
                const auto r = cqasm::v3x::default_analyzer("3.0").analyze_string(text, "input.cq");
                os << strings(r.to_strings()) << r.to_json();
                break;
            }
            case 'v': {  // through the interface for Python
                V3xAnalyzer a;
                os << strings(V3xAnalyzer::parse_string(text)) << a.analyze_string_to_json(text, "x.cq") << strings(a.analyze_string(text));
                break;
            }
            case 'm': {  // an analyzer with additions, used twice, and a copy of it
                auto a = cqasm::v3x::default_analyzer();
                a.register_instruction("X", "B");
                a.register_variable("one", tree::make<cqasm::v3x::values::ConstInt>(1));
                auto b = a;
                b.register_instruction("H", "W");
                os << a.analyze_string(text, std::nullopt).to_json() << b.analyze_string(text, "b").to_json() << strings(a.analyze_string(text, "c").to_strings());
                break;
            }
            case 'c': {  // a copy of an analyzer, of which the other one may have a copy, too
                auto a = *original;
                const auto r = a.analyze_string(text, "input.cq");
                os << strings(r.to_strings()) << r.to_json();
                break;
            }
            case 's': {  // writes and reads trees
                const auto r = cqasm::v3x::default_analyzer("3.0").analyze_string(text, std::nullopt);
                if (r.errors.empty()) {
                    const auto b = ::tree::base::serialize(r.root);
                    const auto t = ::tree::base::deserialize<cqasm::v3x::semantic::Program>(b);
                    os << ::tree::base::serialize(t);
                    t->dump_json(os);
                    const auto c = r.root.clone();
                    os << c.equals(r.root) << ::tree::base::serialize(c);
                }
                break;
            }
            case 'e': {  // errors
                const cqasm::error::Error e{ text, "f " + text, cqasm::annotations::SourceLocation::Range{ { 1, 2 }, { 3, 4 } } };
                auto f = e;
                os << e.what() << e.to_json() << f.what() << fmt::format("{}", f) << cqasm::error::Error{ "" }.what();
                break;
            }
            case 'u': {  // helpers
                os << cqasm::utils::url_encode(text) << cqasm::utils::json_encode(text) << cqasm::utils::to_lowercase(text)
                   << cqasm::utils::equal_case_insensitive(text, "x");
                cqasm::syntactic::StringBuilder b;
                b.push_string(text);
                b.push_escape("\\n");
                os << b.stream.str();
                break;
            }
            default: {  // primitives
                cqasm::version::Version v{ "1.2.3" };
                os << fmt::format("{}", v) << (v == cqasm::version::Version{ "1.2" }) << (v < cqasm::version::Version{ "3.0" });
                const auto i = tree::make<cqasm::v3x::instruction::Instruction>(text, "QiV");
                os << *i << (*i == *i);
                os << fmt::format("{}", cqasm::annotations::SourceLocation{ text, cqasm::annotations::SourceLocation::Range{ { 1, 2 }, { 3, 4 } } });
                break;
            }
        }
    } catch (const std::exception& e) {
        os << "threw " << e.what();
    } catch (...) {
        os << "threw something";
    }
    return os.str();
}

std::string status_text(const rt::Outcome& o) {
    if (WIFSIGNALED(o.status)) return WTERMSIG(o.status) == SIGALRM ? "the threads do not finish" : std::string("the process dies: ") + strsignal(WTERMSIG(o.status));
    return "the process ends early";
}

void check(mc::Run& run, const std::string& text) {
    const auto f = space::unpack(text);
    const std::string spec[2] = { f[0], f[1] };
    const bool warm = f[2] == "1";
    const size_t bound = std::stoull(f[3]);
    const uint64_t part = std::stoull(f[4]), parts = std::stoull(f[5]);
    const rt::Job jobs[2] = { [&] { return job(spec[0]); }, [&] { return job(spec[1]); } };
    const std::function<void()> before = warm ? std::function<void()>{ [] {
        original = cqasm::v3x::default_analyzer();
        original->register_variable("one", tree::make<cqasm::v3x::values::ConstInt>(1));
        job("aversion 3; qubit[2] q; bit b; X q[0:1]; b = measure q[1]; Rx(pi*2) q; inv.Y q; wait(1) q; asm(x) '''y'''");
        job("aversion 3; qubit q; X r; X(1) q");
        job("sversion 3; qubit q; X q");
        job("pversion 3; $");
        job("exa");
        job("uxa");
        job("xxa");
    } } : std::function<void()>{};
    rt::forget();
    std::string expected[2];
    for (int t = 0; t < 2; ++t) {
        const auto o = rt::alone(jobs[t], before);
        MC_REQUIRE(o.finished, "alone: " + status_text(o));
        expected[t] = o.result[0];
        run.visit(expected[t]);
    }
    uint64_t schedules = 0;
    auto one = [&](int first, const std::vector<uint64_t>& switches) {
        const auto o = rt::run(jobs[0], jobs[1], first, switches, before);
        ++schedules;
        run.step();
        run.slot->beat = mc::now();
        std::string how = "with thread " + std::to_string(first + 1) + " first";
        for (auto s : switches) how += ", a switch before step " + std::to_string(s);
        if (o.stuck.starts_with("(check)")) throw std::runtime_error(o.stuck);
        MC_REQUIRE(o.stuck.empty(), how + ": " + o.stuck);
        MC_REQUIRE(o.finished, how + ": " + status_text(o));
        MC_REQUIRE(o.race.empty(), how + ": " + o.race);
        for (int t = 0; t < 2; ++t) mc::same(how + ", thread " + std::to_string(t + 1), expected[t], o.result[t]);
        return o;
    };
    // which memory is shared
    rt::Outcome last[2];
    bool learned = true;
    auto learn = [&] {
        for (int round = 0; round < 20 && learned; ++round) {
            learned = false;
            for (int first = 0; first < 2; ++first) {
                last[first] = one(first, {});
                learned = learned || last[first].learned;
            }
        }
    };
    learn();
    // all schedules with up to `bound` switches; if there is more shared memory than was known, again
    uint64_t points = 0;
    size_t depth = 1;
    const uint64_t most = bound > 2 ? 2000 : 250;
    std::function<void(int, std::vector<uint64_t>)> explore = [&](int first, std::vector<uint64_t> switches) {
        uint64_t k = switches.empty() ? 1 : switches.back() + 1;
        switches.push_back(0);
        for (uint64_t n = 0; k && !learned; ++n) {
            if (schedules >= most) return;  // (does not happen on the tree as it is)
            switches.back() = k;
            const auto o = one(first, switches);
            learned = o.learned;
            ++points;
            run.visit(std::to_string(first) + "/" + std::to_string(k) + "/" + std::to_string(o.steps));
            if (switches.size() < depth && o.steps > k && !learned && (switches.size() > 1 || n % parts == part)) explore(first, switches);
            k = o.next;
        }
    };
    for (int round = 0; last[0].steps || last[1].steps; ++round) {
        if (round == 20) throw std::runtime_error("there is always more shared memory");
        for (depth = 1; depth <= bound; depth = depth == 1 ? bound : depth + 1) {
            for (int first = 0; first < 2 && !learned; ++first) explore(first, {});
            if (bound == 1) break;
        }
        if (!learned || schedules >= most) break;
        learn();
    }
    if (std::getenv("C28_VERBOSE")) std::fprintf(stderr, "%s | %s warm %d: steps %lu and %lu, %lu switch points, %lu schedules\n", spec[0].substr(0, 10).c_str(), spec[1].substr(0, 10).c_str(), warm, last[0].steps, last[1].steps, points, schedules);
}

void enumerate(mc::Run& run) {
    auto put = [&](const std::string& a, const std::string& b, bool warm, int bound, uint64_t parts) {
        for (uint64_t p = 0; p < parts; ++p) run.one(space::pack({ a, b, warm ? "1" : "0", std::to_string(bound), std::to_string(p), std::to_string(parts) }));
    };
    const std::vector<std::string> good{
        "version 3; qubit q; X q",
        "version 3.0; qubit[3] q; bit[2] b; H q[0]; CNOT q[0:1], q[1,2]; b[0] = measure q[1]; barrier q; reset q; init q[2]",
        "version 3; qubit[2] q; Rx(pi/2 + sin(1.5) * 2 ** 3) q; ctrl.inv.X q[0], q[1]; pow(1.5).Z q; CRk(3 % 2 + 1) q[0], q[1]; wait(1 << 3) q; asm(backend) ''' x { '''",
    };
    const std::vector<std::string> bad{
        "version 3; qubit q; X(1) q; Y r; bit q",
        "version 3; qubit q; X q; }",
        "version 4; $",
    };
    std::vector<std::string> jobs;
    for (auto& t : good) jobs.push_back("a" + t);
    for (auto& t : bad) jobs.push_back("a" + t);
    jobs.push_back("p" + good[2]);
    jobs.push_back("p" + bad[1]);
    jobs.push_back("v" + good[1]);
    jobs.push_back("v" + bad[0]);
    jobs.push_back("m" + good[0]);
    jobs.push_back("m" + bad[0]);
    jobs.push_back("cversion 3; qubit q; Rx(pi * one) q; CRk(one) q, q");
    jobs.push_back("c" + good[2]);
    jobs.push_back("c" + bad[0]);
    jobs.push_back("s" + good[1]);
    jobs.push_back("e\"a\\ \t\1");
    jobs.push_back("eb");
    jobs.push_back("ua/B\"\n");
    jobs.push_back("xX");
    // everything at once
    for (const auto* list : { &pool::statements(), &pool::more() }) {
        std::string all = "version 3; qubit[2] q; bit b; qubit[4] r; bit[2] c";
        for (auto& t : *list) all += "\n" + t;
        jobs.push_back("a" + all);
    }
    // every statement on its own
    for (const auto* list : { &pool::statements(), &pool::more() }) {
        for (auto& t : *list) {
            const auto program = "aversion 3; qubit[2] q; bit b; qubit[4] r; bit[2] c; " + t;
            put(program, program, true, run.thorough ? 4 : 2, 1);
            if (!run.thorough) continue;
            put(program, program, false, 2, 1);
            for (auto& j : jobs) put(program, j, true, 4, 1);
        }
    }
    for (size_t i = 0; i < jobs.size(); ++i) {
        for (size_t j = i; j < jobs.size(); ++j) {
            if (jobs[i][0] != 'c' && jobs[j][0] != 'c') put(jobs[i], jobs[j], false, run.thorough ? 4 : 2, run.thorough ? 8 : 1);
            put(jobs[i], jobs[j], true, run.thorough ? 4 : 2, 1);
        }
    }
}

}  // namespace

int main(int argc, char** argv) {
    mc::Options o;
    o.memory_mb = 0;
    return mc::main(argc, argv, enumerate, check, o);
}
