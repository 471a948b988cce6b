// C03: case folding and case-insensitive comparison agree on all strings.
#include "libqasm/utils.hpp"
#include "mc.hpp"
#include "space.hpp"

namespace {

std::string fold(const std::string& s) {
    std::string r = s;
    for (auto& c : r) {
        if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
    }
    return r;
}

// case: one string: folding (and comparison with itself, its fold, and its neighbours); two: comparison
void check(mc::Run& run, const std::string& text) {
    const auto f = space::unpack(text);
    if (f.size() == 1) {
        const auto& s = f[0];
        const auto low = fold(s);
        const auto copy = s;
        mc::same("to_lowercase", low, cqasm::utils::to_lowercase(s));
        mc::same("to_lowercase of its result", low, cqasm::utils::to_lowercase(low));
        mc::same("the argument", copy, s);
        mc::require(cqasm::utils::equal_case_insensitive(s, s), "a string differs from itself");
        mc::require(cqasm::utils::equal_case_insensitive(s, low) && cqasm::utils::equal_case_insensitive(low, s),
            "a string differs from its lowercase form");
        // one byte changed, removed or added
        for (const char* extra : { "a", " ", "\x80" }) {
            mc::require(!cqasm::utils::equal_case_insensitive(s, s + extra), "a string equals itself with a byte appended");
            mc::require(!cqasm::utils::equal_case_insensitive(s + extra, s), "a string with a byte appended equals it");
        }
        mc::require(!cqasm::utils::equal_case_insensitive(s, s + std::string(1, '\0')), "a string equals itself with a NUL appended");
        for (size_t i = 0; i < s.size(); i += 1 + s.size() / 20) {
            auto t = s;
            t[i] = static_cast<char>(t[i] ^ 0x21);
            mc::same_value("comparison with one byte changed", fold(s) == fold(t), cqasm::utils::equal_case_insensitive(s, t));
            t[i] = static_cast<char>(s[i] ^ 0x20);
            mc::same_value("comparison with bit 5 of one byte changed", fold(s) == fold(t), cqasm::utils::equal_case_insensitive(t, s));
            run.step(2);
        }
        run.visit(low);
        run.step(12);
    } else {
        const bool e = fold(f[0]) == fold(f[1]);
        mc::same_value("comparison", e, cqasm::utils::equal_case_insensitive(f[0], f[1]));
        mc::same_value("comparison, exchanged", e, cqasm::utils::equal_case_insensitive(f[1], f[0]));
        mc::same_value("comparison of the lowercase forms", e,
            cqasm::utils::equal_case_insensitive(cqasm::utils::to_lowercase(f[0]), cqasm::utils::to_lowercase(f[1])));
        run.visit(fold(f[0]) + "/" + fold(f[1]));
        run.step(3);
    }
}

void enumerate(mc::Run& run) {
    const auto wide = [] {
        std::vector<std::string> w = space::letters("aAzZmM@[`{09 _-\n\t\x7f\x80\xc0\xe0\xff\xc3\xa9\x89");
        w.emplace_back(1, '\0');
        return w;
    }();
    const auto narrow = space::letters("aAzZ@`[{9\xc3");
    const auto tiny = space::letters("aBZ{\xc1@");
    space::byte_strings(run.thorough, wide, narrow, tiny, [&](const std::string& s) { run.one(space::pack({ s })); });
    // every pair of strings of up to one byte; of up to three over representatives
    for (auto& a : space::all_bytes()) {
        for (auto& b : space::all_bytes()) run.one(space::pack({ a, b }));
    }
    std::vector<std::string> some{ "" };
    for (size_t n = 1; n <= (run.thorough ? 4u : 3u); ++n) {
        space::words(space::letters(n < 3 ? "aAbBzZ@`0\xc3" : n == 3 ? "aAbB@`" : "aAb@"), n, [&](const std::string& s) { some.push_back(s); });
    }
    for (auto& a : some) {
        for (auto& b : some) run.one(space::pack({ a, b }));
    }
    // prefixes and extensions of long strings
    for (size_t n = 1; n <= 80; ++n) {
        for (size_t m = 0; m <= 80; ++m) run.one(space::pack({ std::string(n, 'a'), std::string(m, 'A') }));
    }
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
