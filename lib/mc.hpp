// Bounded exhaustive exploration of the real code.
//
// A check program gives mc::main an enumerator, which hands every case of the bounded space to Run::one, and a
// checker, which runs one case (given as text) on the real code and compares it with a reference model.
// The space is split over forked workers. The case being run is kept in shared memory, so that a crash, a hang or
// running out of memory is a violation with a known input, like any other; every violation is run once more in a
// process of its own before it is reported.
#pragma once

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <string>
#include <string_view>
#include <algorithm>
#include <vector>

namespace mc {

struct Failure {
    std::string what;
};

[[noreturn]] inline void fail(const std::string& what) { throw Failure{ what }; }

inline std::string quote(std::string_view s) {
    std::string r = "\"";
    char b[8];
    for (char c : s) {
        auto u = static_cast<unsigned char>(c);
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (c == '\n') {
            r += "\\n";
        } else if (u < 32 || u > 126) {
            std::snprintf(b, sizeof b, "\\x%02x", u);
            r += b;
        } else {
            r += c;
        }
    }
    return r + "\"";
}

inline void same(const std::string& what, const std::string& expected, const std::string& actual) {
    if (expected != actual) {
        size_t i = 0;
        while (i < expected.size() && i < actual.size() && expected[i] == actual[i]) ++i;
        const size_t from = i > 150 ? i - 150 : 0;
        fail(what + ": expected " + (from ? "..." : "") + quote(expected.substr(from, 500)) + ", got " +
            (from ? "..." : "") + quote(actual.substr(from, 500)));
    }
}

inline void same_value(const std::string& what, long long expected, long long actual) {
    if (expected != actual) {
        fail(what + ": expected " + std::to_string(expected) + ", got " + std::to_string(actual));
    }
}

inline void require(bool ok, const std::string& what) {
    if (!ok) {
        fail(what);
    }
}

// the message is only built when needed
#define MC_REQUIRE(cond, what)    \
    do {                          \
        if (!(cond)) {            \
            ::mc::fail(what);     \
        }                         \
    } while (false)

inline std::string clip(const std::string& s, size_t n = 600) {
    return s.size() <= n ? s : s.substr(0, n / 2) + "...(" + std::to_string(s.size()) + " bytes)..." + s.substr(s.size() - n / 2);
}

constexpr size_t CASE_MAX = 1 << 18;

struct Slot {
    volatile uint64_t index;    // cases handed out so far
    volatile uint64_t transitions, validated;
    volatile uint64_t beat;     // monotonic seconds of the last new case
    volatile uint32_t len;
    volatile uint32_t busy;
    char text[CASE_MAX];
};

inline uint64_t now() {
    timespec t{};
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<uint64_t>(t.tv_sec);
}

class Run {
public:
    bool thorough = false;
    int shard = 0, shards = 1;
    Slot* slot = nullptr;
    uint64_t skip_to = 0;  // restart after a crash
    uint64_t stop_at = ~0ull;
    std::function<void(Run&, const std::string&)> check;
    std::string violations_file;
    int reported = 0;
    int max_reports = 5;

    /// one case of the space
    void one(const std::string& text) {
        const uint64_t i = next_++;
        if (static_cast<int>(i % static_cast<uint64_t>(shards)) != shard || i < skip_to) {
            return;
        }
        if (reported >= max_reports) {
            return;
        }
        if (text.size() >= CASE_MAX) {
            std::fprintf(stderr, "mc: case too long\n");
            std::abort();
        }
        std::memcpy(slot->text, text.data(), text.size());
        slot->len = static_cast<uint32_t>(text.size());
        slot->index = i;
        slot->beat = now();
        slot->busy = 1;
        guarded(text);
        slot->busy = 0;
        slot->validated = slot->validated + 1;
        if ((done_ & (done_ - 1)) == 0 && text.size() < 4000) {
            samples_.push_back(text);
        }
        ++done_;
        if (i == stop_at) {
            _exit(0);
        }
    }

    /// operations, comparisons, steps taken on the real code within the case
    void step(uint64_t n = 1) { slot->transitions = slot->transitions + n; }

    /// a state of the reference model that the case visits; distinct ones are counted
    void visit(std::string_view model_state) {
        if (states_.size() < (1u << 22)) {
            states_.insert(std::hash<std::string_view>{}(model_state));
        }
    }

    void finish(const std::string& prefix) const {
        std::ofstream t(prefix + ".t" + std::to_string(shard), std::ios::binary);
        t << next_ << '\n' << states_.size() << '\n';
        for (auto h : states_) t.write(reinterpret_cast<const char*>(&h), sizeof h);
        std::ofstream f(prefix + ".s" + std::to_string(shard), std::ios::binary);
        for (auto& s : samples_) f << s.size() << " 0\n" << s << '\n';
    }

    bool guarded(const std::string& text) {
        std::string what;
        try {
            check(*this, text);
            return true;
        } catch (const Failure& f) {
            what = f.what;
        } catch (const std::exception& e) {
            what = std::string("unexpected exception: ") + e.what();
        } catch (...) {
            what = "unexpected exception of unknown type";
        }
        report(text, what);
        return false;
    }

    void report(const std::string& text, const std::string& what) {
        ++reported;
        if (violations_file.empty()) {
            std::cout << "FAIL " << what << "\n";
            return;
        }
        std::ofstream f(violations_file, std::ios::app | std::ios::binary);
        f << text.size() << ' ' << what.size() << '\n' << text << what << '\n';
    }

    uint64_t total() const { return next_; }

private:
    uint64_t next_ = 0, done_ = 0;
    std::unordered_set<size_t> states_;
    std::vector<std::string> samples_;
};

struct Violation {
    std::string text, what;
    int shard = -1;         // for crashes: where it happened
    uint64_t index = 0;
};

inline std::vector<Violation> read_violations(const std::string& path) {
    std::vector<Violation> r;
    std::ifstream f(path, std::ios::binary);
    size_t a = 0, b = 0;
    while (f >> a >> b) {
        f.get();
        Violation v;
        v.text.resize(a);
        v.what.resize(b);
        f.read(v.text.data(), static_cast<std::streamsize>(a));
        f.read(v.what.data(), static_cast<std::streamsize>(b));
        r.push_back(v);
    }
    return r;
}

struct Options {
    int hang_seconds = 20;       // per case
    uint64_t memory_mb = 3000;   // per worker; 0: no limit (sanitizers)
    int shards = 8;
};

// --- one case in a process of its own; returns "" if it passes, else what went wrong
inline std::string isolated(const std::function<void(Run&, const std::string&)>& check, const std::string& text, const Options& o) {
    const std::string file = "/tmp/verif-mc-" + std::to_string(getpid()) + ".one";
    unlink(file.c_str());
    std::cout.flush();
    pid_t p = fork();
    if (p == 0) {
        if (o.memory_mb) {
            rlimit l{ o.memory_mb << 20, o.memory_mb << 20 };
            setrlimit(RLIMIT_AS, &l);
        }
        rlimit nocore{ 0, 0 };
        setrlimit(RLIMIT_CORE, &nocore);
        alarm(static_cast<unsigned>(o.hang_seconds * 3));
        Run r;
        r.slot = static_cast<Slot*>(mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        r.check = check;
        r.violations_file = file;
        const bool ok = r.guarded(text);
        _exit(ok ? 0 : 3);
    }
    int status = 0;
    waitpid(p, &status, 0);
    std::string what;
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
        what = "";
    } else if (WIFEXITED(status) && WEXITSTATUS(status) == 3) {
        auto v = read_violations(file);
        what = v.empty() ? "failed" : v[0].what;
    } else if (WIFSIGNALED(status)) {
        const int s = WTERMSIG(status);
        what = s == SIGALRM ? "does not terminate" : std::string("the process dies: ") + strsignal(s);
    } else {
        what = "the process exits with status " + std::to_string(WEXITSTATUS(status));
    }
    unlink(file.c_str());
    return what;
}

inline std::string json(const std::string& s) {
    std::string r = "\"";
    char b[8];
    for (char c : s) {
        auto u = static_cast<unsigned char>(c);
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (u < 32 || u > 126) {
            std::snprintf(b, sizeof b, "\\u%04x", u);
            r += b;
        } else {
            r += c;
        }
    }
    return r + "\"";
}

// usage: prog quick|thorough RESULT.json        explore
//        prog --replay CASEFILE                 run one case again (exit 1 if it fails)
inline int main(int argc, char** argv, const std::function<void(Run&)>& enumerate,
    const std::function<void(Run&, const std::string&)>& check, Options o = {}) {
    signal(SIGPIPE, SIG_IGN);
    if (argc == 3 && std::string(argv[1]) == "--replay") {
        std::ifstream f(argv[2], std::ios::binary);
        std::stringstream ss;
        ss << f.rdbuf();
        const auto what = isolated(check, ss.str(), o);
        std::cout << (what.empty() ? "passes" : "FAILS: " + what) << std::endl;
        return what.empty() ? 0 : 1;
    }
    if (argc != 3) {
        std::cerr << "usage: " << argv[0] << " quick|thorough RESULT.json | --replay CASEFILE\n";
        return 2;
    }
    const bool thorough = std::string(argv[1]) == "thorough";
    const std::string result = argv[2];
    std::vector<Slot*> slots;
    std::vector<pid_t> pids(static_cast<size_t>(o.shards), -1);
    std::vector<uint64_t> skip(static_cast<size_t>(o.shards), 0);
    std::vector<int> deaths(static_cast<size_t>(o.shards), 0);
    std::vector<Violation> crashes;
    bool broken = false;
    for (int i = 0; i < o.shards; ++i) {
        slots.push_back(static_cast<Slot*>(mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)));
        slots.back()->beat = now();
        unlink((result + ".v" + std::to_string(i)).c_str());
    }
    std::vector<uint64_t> totals(static_cast<size_t>(o.shards), 0);
    auto start = [&](int i) {
        std::cout.flush();
        slots[i]->beat = now();
        pid_t p = fork();
        if (p == 0) {
            if (o.memory_mb) {
                rlimit l{ o.memory_mb << 20, o.memory_mb << 20 };
                setrlimit(RLIMIT_AS, &l);
            }
            rlimit nocore{ 0, 0 };
            setrlimit(RLIMIT_CORE, &nocore);
            Run r;
            r.thorough = thorough;
            r.shard = i;
            r.shards = o.shards;
            r.slot = slots[i];
            r.skip_to = skip[i];
            r.check = check;
            r.violations_file = result + ".v" + std::to_string(i);
            try {
                enumerate(r);
            } catch (const std::exception& e) {
                std::fprintf(stderr, "mc: the enumeration failed: %s\n", e.what());
                _exit(4);
            }
            r.finish(result);
            _exit(0);
        }
        pids[i] = p;
    };
    for (int i = 0; i < o.shards; ++i) start(i);
    for (;;) {
        bool any = false;
        for (int i = 0; i < o.shards; ++i) {
            if (pids[i] < 0) continue;
            any = true;
            int status = 0;
            const pid_t p = waitpid(pids[i], &status, WNOHANG);
            bool hung = false;
            if (p == 0) {
                if (slots[i]->busy && now() - slots[i]->beat > static_cast<uint64_t>(o.hang_seconds)) {
                    kill(pids[i], SIGKILL);
                    waitpid(pids[i], &status, 0);
                    hung = true;
                } else {
                    continue;
                }
            }
            pids[i] = -1;
            if (!hung && WIFEXITED(status) && WEXITSTATUS(status) == 0) continue;
            if (!hung && WIFEXITED(status) && WEXITSTATUS(status) == 4) {
                broken = true;
                continue;
            }
            if (!slots[i]->busy) {
                std::fprintf(stderr, "mc: a worker died outside a case (status %d)\n", status);
                broken = true;
                continue;
            }
            crashes.push_back({ std::string(slots[i]->text, slots[i]->len), hung ? "does not terminate" : "the process dies", i, slots[i]->index });
            skip[i] = slots[i]->index + 1;
            slots[i]->busy = 0;
            if (++deaths[i] < 3) start(i);
        }
        if (!any) break;
        usleep(5000);
    }
    uint64_t transitions = 0, validated = 0, total = 0;
    std::vector<size_t> states;
    std::vector<std::string> samples;
    std::vector<Violation> found = crashes;
    for (int i = 0; i < o.shards; ++i) {
        transitions += slots[i]->transitions;
        validated += slots[i]->validated;
        const auto n = std::to_string(i);
        for (auto& v : read_violations(result + ".v" + n)) found.push_back(v);
        for (auto& v : read_violations(result + ".s" + n)) samples.push_back(v.text);
        std::ifstream t(result + ".t" + n, std::ios::binary);
        uint64_t cases = 0, count = 0;
        if (t >> cases >> count) {
            total = cases;
            t.get();
            for (size_t h = 0; count-- > 0 && t.read(reinterpret_cast<char*>(&h), sizeof h);) states.push_back(h);
        }
        for (const char* e : { ".v", ".s", ".t" }) unlink((result + e + n).c_str());
    }
    std::sort(states.begin(), states.end());
    states.erase(std::unique(states.begin(), states.end()), states.end());
    std::ofstream out(result);
    out << "{\"states\": " << states.size() << ", \"transitions\": " << transitions << ", \"validated\": " << validated
        << ", \"cases\": " << total << ", \"broken\": " << (broken ? "true" : "false") << ", \"samples\": [";
    for (size_t i = 0; i < 6 && i < samples.size(); ++i) {
        out << (i ? ", " : "") << json(samples[samples.size() - 1 - i * samples.size() / 6]);
    }
    out << "], \"violations\": [";
    bool first = true;
    int n = 0;
    for (auto& v : found) {
        if (n >= 10) break;
        // shown again in a process of its own
        auto what = isolated(check, v.text, o);
        bool alone = true;
        if (what.empty()) {
            alone = false;
            if (v.shard >= 0) {
                // a crash that the case alone does not give: does the whole history up to it give it again?
                std::cout.flush();
                const pid_t p = fork();
                if (p == 0) {
                    if (o.memory_mb) {
                        rlimit l{ o.memory_mb << 20, o.memory_mb << 20 };
                        setrlimit(RLIMIT_AS, &l);
                    }
                    alarm(300);
                    Run r;
                    r.thorough = thorough;
                    r.shard = v.shard;
                    r.shards = o.shards;
                    r.slot = slots[v.shard];
                    r.stop_at = v.index;
                    r.check = check;
                    r.violations_file = "/dev/null";
                    enumerate(r);
                    _exit(0);
                }
                int status = 0;
                waitpid(p, &status, 0);
                if (!WIFSIGNALED(status) || WTERMSIG(status) == SIGALRM) {
                    std::fprintf(stderr, "mc: not reproduced, dropped: %s (%s)\n", clip(quote(v.text)).c_str(), v.what.c_str());
                    continue;
                }
            }
            what = v.what + " (only after the cases explored before it in the same process)";
        }
        out << (first ? "" : ", ") << "{\"case\": " << json(v.text) << ", \"what\": " << json(what) << ", \"alone\": "
            << (alone ? "true" : "false") << "}";
        first = false;
        ++n;
    }
    out << "]}\n";
    return 0;
}

}  // namespace mc
