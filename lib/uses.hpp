// What the checks of failures and of memory share: an allocator under control, and uses of the library.
#pragma once

#include <sys/mman.h>

#include <new>

#include "lang.hpp"
#include "libqasm/utils.hpp"
#include "libqasm/v3x/cqasm.hpp"
#include "pool.hpp"

// ------------------------------------------------------------------------------------------------ memory

namespace memory {

struct Header {
    uint64_t tracked, size;
};
enum Tracked : uint64_t { NO, HEAP, ARENA };
inline bool on = false;            // allocations are counted, and may fail
inline bool persistent = false;    // all from that one on fail
inline size_t count = 0, fail_at = 0;
inline long live = 0;              // blocks allocated while on, and not yet released
inline bool failed = false;
constexpr int VARYING = 256, SMALL = 257;   // words that differ; words from 0 to 3
inline int fresh_byte = 0xA5, freed_byte = 0x5A;   // what memory holds before it is used, and after

inline void fill(void* p, int byte, size_t n) {
    if (byte < VARYING) {
        std::memset(p, byte, n);
        return;
    }
    // another word each time, in an order that is always the same
    static uint64_t x = 1;
    auto* c = static_cast<char*>(p);
    for (size_t k = 0; k < n; k += 8) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        const uint64_t word = byte == SMALL ? x >> 62 : x ^ x >> 33;
        std::memcpy(c + k, &word, std::min<size_t>(8, n - k));
    }
}

/// where memory comes from: the system, or an arena that never gives out the same address twice, upwards, downwards or
/// from both ends in turns
enum Order { SYSTEM, UP, DOWN, BOTH };
inline Order order = SYSTEM;
constexpr size_t ARENA_SIZE = 1ull << 29;
inline char* arena = nullptr;
inline size_t low = 0, high = 0;   // used at either end
inline long in_arena = 0;          // blocks of this arena not yet released
inline void new_arena() {
    if (arena && in_arena == 0) munmap(arena, ARENA_SIZE);
    in_arena = 0;
    arena = static_cast<char*>(mmap(nullptr, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (arena == MAP_FAILED) std::abort();
    low = high = 0;
}

inline void* from_arena(size_t n) {
    n = (n + 15) / 16 * 16;
    if (low + high + n > ARENA_SIZE) std::abort();
    if (order == UP || (order == BOTH && count % 2)) {
        low += n;
        return arena + low - n;
    }
    high += n;
    return arena + ARENA_SIZE - high;
}

inline void* allocate(size_t n, bool may_throw) {
    if (on) {
        ++count;
        if (fail_at && (count == fail_at || (persistent && count > fail_at))) {
            failed = true;
            if (may_throw) throw std::bad_alloc{};
            return nullptr;
        }
    }
    const bool from = on && order != SYSTEM;
    auto* h = static_cast<Header*>(from ? from_arena(n + sizeof(Header)) : std::malloc(n + sizeof(Header)));
    if (!h) {
        if (may_throw) throw std::bad_alloc{};
        return nullptr;
    }
    h->tracked = from ? ARENA : on ? HEAP : NO;
    if (from) ++in_arena;
    h->size = n;
    if (on) ++live;
    fill(h + 1, fresh_byte, n);
    return h + 1;
}

inline void release(void* p) {
    if (!p) return;
    auto* h = static_cast<Header*>(p) - 1;
    if (h->tracked) --live;
    fill(p, freed_byte, h->size);
    if (h->tracked != ARENA) std::free(h);
    else if (static_cast<char*>(p) >= arena && static_cast<char*>(p) < arena + ARENA_SIZE) --in_arena;
}

/// allocations are counted while this lives, and the `at`th fails (0: none)
struct Failing {
    Failing(size_t at, bool all) {
        count = 0;
        fail_at = at;
        persistent = all;
        failed = false;
        on = true;
    }
    ~Failing() { on = false; }
};

/// allocations that are not of the library
struct Paused {
    bool was = on;
    Paused() { on = false; }
    ~Paused() { on = was; }
};

}  // namespace memory

void* operator new(size_t n) { return memory::allocate(n, true); }
void* operator new[](size_t n) { return memory::allocate(n, true); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return memory::allocate(n, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return memory::allocate(n, false); }
void operator delete(void* p) noexcept { memory::release(p); }
void operator delete[](void* p) noexcept { memory::release(p); }
void operator delete(void* p, size_t) noexcept { memory::release(p); }
void operator delete[](void* p, size_t) noexcept { memory::release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { memory::release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { memory::release(p); }

namespace uses {

using cqasm::error::AnalysisError;
using cqasm::error::Error;
using cqasm::v3x::analyzer::AnalysisResult;
using cqasm::v3x::analyzer::Analyzer;
using cqasm::v3x::parser::ParseResult;
namespace parser = cqasm::v3x::parser;
namespace tree = cqasm::tree;
namespace values = cqasm::v3x::values;
using Range = cqasm::annotations::SourceLocation::Range;

template <class Result>
std::string dump(const Result& r) {
    std::string s;
    for (auto& e : r.errors) s += std::string(e.what()) + "\n" + e.to_json() + "\n";
    if (r.errors.empty()) s += "accepted " + ref::dump(real::convert(r, "input.cq"), true);
    return s;
}

inline values::Value one(cqasm::v3x::primitives::Int i) { return tree::make<values::ConstInt>(i); }

inline const std::vector<std::string>& probes() {
    static const std::vector<std::string> r{
        "version 3; qubit q; bit b; Rx(pi + k) q; b = measure q",
        "version 3; qubit q; bit b; Rx(f(1) + f(true)) q; X b; X q; Rx(k) q; Rx(zz) q; reset b; inv.X q; NEW q",
    };
    return r;
}

inline const ParseResult& probe(size_t k) {
    static const std::vector<ParseResult> r = [] {
        std::vector<ParseResult> v;
        for (auto& p : probes()) v.push_back(parser::parse_string(p, "input.cq"));
        return v;
    }();
    return r[k];
}

/// what an analyzer knows, as far as analyses show it
inline std::string state(const Analyzer& a) {
    std::string r;
    auto copy = a;
    for (size_t k = 0; k < probes().size(); ++k) r += dump(copy.analyze(probe(k))) + "\n";
    for (auto* n : { "q", "b", "k", "r", "pi", "f", "zz", "true" }) {
        try {
            r += std::string(n) + "=" + ref::dump(real::Convert{ std::nullopt, {} }.value(*a.resolve_variable(n)), false) + " ";
        } catch (const AnalysisError&) {
            r += std::string(n) + "? ";
        }
    }
    return r;
}

/// changes an analyzer; the name of a registration
inline void change(Analyzer& a, const std::string& op) {
    using cqasm::v3x::values::Values;
    if (op == "variable") a.register_variable("k", one(1));
    else if (op == "other variable") a.register_variable("a_name_that_is_longer_than_a_small_string", one(2));
    else if (op == "function") a.register_consteval_core_function("f", "i", [](const Values& v) { return one(v[0]->as_const_int()->value + 1); });
    else if (op == "overload") a.register_consteval_core_function("sin", "bb", [](const Values&) { return one(7); });
    else if (op == "instruction") a.register_instruction("X", "B");
    else if (op == "new instruction") a.register_instruction("NEW", "Q");
    else if (op == "open") a.push_scope();
    else if (op == "close") a.pop_scope();
    else mc::fail("unknown change " + op);
}

struct Subject {
    std::optional<Analyzer> analyzer;
    std::optional<ParseResult> parsed;
    std::optional<AnalysisResult> analyzed;
    std::optional<Analyzer> other;
    std::optional<std::string> text;
    std::optional<std::vector<std::string>> texts;
    std::optional<Error> error;
    tree::Maybe<cqasm::v3x::semantic::Program> root;
    void drop_results() {
        text.reset();
        texts.reset();
        other.reset();
        analyzed.reset();
        root.reset();
        error.reset();
    }
};

/// a use of the library; `prepared`: what it needs is there
inline void prepare(Subject& s, const std::string& kind, const std::string& text) {
    if (kind == "parse" || kind == "file" || kind == "new" || kind == "fold" || kind == "error") return;
    s.analyzer.emplace(real::fresh());
    if (kind == "change") {
        if (text == "close") s.analyzer->push_scope();
        return;
    }
    s.analyzer->register_variable("k", one(5));
    s.parsed.emplace(parser::parse_string(text, "input.cq"));
    if (kind == "strings" || kind == "json" || kind == "write" || kind == "read" || kind == "copy tree") {
        s.analyzed.emplace(s.analyzer->analyze(*s.parsed));
        if (kind == "read") s.text = s.analyzed->errors.empty() ? ::tree::base::serialize(s.analyzed->root) : std::string();
    }
}

inline void act(Subject& s, const std::string& kind, const std::string& text, std::string& name) {
    if (kind == "parse") s.parsed.emplace(parser::parse_string(text, name));
    else if (kind == "file") s.parsed.emplace(parser::parse_file(text, name));
    else if (kind == "new") s.analyzer.emplace(cqasm::v3x::default_analyzer(text));
    else if (kind == "change") change(*s.analyzer, text);
    else if (kind == "analyze") s.analyzed.emplace(s.analyzer->analyze(*s.parsed));
    else if (kind == "whole") s.analyzed.emplace(s.analyzer->analyze_string(text, name));
    else if (kind == "copy") s.other.emplace(*s.analyzer);
    else if (kind == "strings") s.texts.emplace(s.analyzed->to_strings());
    else if (kind == "json") s.text.emplace(s.analyzed->to_json());
    else if (kind == "write") {
        if (s.analyzed->errors.empty()) s.text.emplace(::tree::base::serialize(s.analyzed->root));
    } else if (kind == "read") {
        if (!s.text->empty()) s.root = ::tree::base::deserialize<cqasm::v3x::semantic::Program>(*s.text);
    } else if (kind == "copy tree") {
        if (s.analyzed->errors.empty()) s.root = s.analyzed->root.clone();
    } else if (kind == "fold") {
        std::string r = cqasm::utils::to_lowercase(text);
        r += cqasm::utils::url_encode(text);
        r += cqasm::utils::json_encode(text);
        s.text.emplace(std::move(r));
    } else if (kind == "error") {
        s.error.emplace(text, name, Range{ { 3, 4 }, { 5, 6 } });
        s.text.emplace(s.error->to_json());
    } else {
        mc::fail("unknown use " + kind);
    }
}

inline std::string outcome(const Subject& s, const std::string& kind) {
    if (kind == "parse" || kind == "file") return s.parsed ? dump(*s.parsed) : "";
    if (kind == "analyze" || kind == "whole") return s.analyzed ? dump(*s.analyzed) : "";
    if (kind == "new") return s.analyzer ? state(*s.analyzer) : "";
    if (kind == "copy") return s.other ? state(*s.other) : "";
    if (kind == "change") return state(*s.analyzer);
    if (kind == "read" || kind == "copy tree") return s.root.empty() ? "nothing" : ref::dump(real::Convert{ "input.cq", {} }.program(*s.root), true);
    std::string r;
    if (s.texts) {
        for (auto& t : *s.texts) r += t + "\n";
    }
    if (s.text) r += *s.text;
    return r;
}

inline bool is_result(const std::string& kind) { return kind == "parse" || kind == "file" || kind == "analyze" || kind == "whole"; }

}  // namespace uses
