// Helpers to describe cases and finite spaces of strings.
#pragma once
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>

namespace space {

// fields <-> case text
inline std::string pack(const std::vector<std::string>& fields) {
    std::string r;
    for (auto& f : fields) r += std::to_string(f.size()) + ":" + f;
    return r;
}

inline std::vector<std::string> unpack(const std::string& s) {
    std::vector<std::string> r;
    for (size_t i = 0; i < s.size();) {
        const size_t c = s.find(':', i);
        const size_t n = std::stoul(s.substr(i, c - i));
        r.push_back(s.substr(c + 1, n));
        i = c + 1 + n;
    }
    return r;
}

// all sequences over `alphabet` of exactly n elements, concatenated
inline void words(const std::vector<std::string>& alphabet, size_t n, const std::function<void(const std::string&)>& f) {
    std::vector<size_t> ix(n, 0);
    for (;;) {
        std::string s;
        for (size_t i : ix) s += alphabet[i];
        f(s);
        size_t k = 0;
        while (k < n && ++ix[k] == alphabet.size()) ix[k++] = 0;
        if (k == n) return;
    }
}

// all sequences of indices below `base` of exactly n elements
inline void tuples(size_t base, size_t n, const std::function<void(const std::vector<size_t>&)>& f) {
    std::vector<size_t> ix(n, 0);
    if (n && !base) return;
    for (;;) {
        f(ix);
        size_t k = 0;
        while (k < n && ++ix[k] == base) ix[k++] = 0;
        if (k == n) return;
    }
}

inline std::vector<std::string> letters(const std::string& s) {
    std::vector<std::string> r;
    for (char c : s) r.emplace_back(1, c);
    return r;
}

inline std::vector<std::string> all_bytes() {
    std::vector<std::string> r;
    for (int i = 0; i < 256; ++i) r.emplace_back(1, static_cast<char>(i));
    return r;
}

// The strings every byte-wise function is explored on: every string of up to two bytes, every string of three over
// representatives, longer ones over fewer, and every length up to a bound with one odd element at every position.
inline void byte_strings(bool thorough, const std::vector<std::string>& wide, const std::vector<std::string>& narrow,
    const std::vector<std::string>& tiny, const std::function<void(const std::string&)>& f) {
    f("");
    const auto all = all_bytes();
    for (size_t n = 1; n <= 2; ++n) words(all, n, f);
    words(wide, 3, f);
    words(narrow, 4, f);
    if (thorough) words(wide, 4, f);
    for (size_t n = 5; n <= (thorough ? 8u : 6u); ++n) words(tiny, n, f);
    const size_t longest = thorough ? 300 : 140;
    for (auto& fill : std::vector<std::string>{ tiny[0], tiny[1] }) {
        for (size_t n = 3; n <= longest; ++n) {
            for (auto& odd : tiny) {
                for (size_t at = 0; at < n; ++at) {
                    std::string s;
                    for (size_t i = 0; i < n; ++i) s += i == at ? odd : fill;
                    f(s);
                }
            }
        }
    }
    // every length, at the first, middle and last position
    for (size_t n : { 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 10000, 32768, 65535, 65536, 65537 }) {
        for (auto& fill : tiny) {
            for (auto& odd : tiny) {
                for (size_t at : { size_t{ 0 }, n / 2, n - 1 }) {
                    std::string s;
                    for (size_t i = 0; i < n; ++i) s += i == at ? odd : fill;
                    f(s);
                }
            }
        }
    }
}

}  // namespace space
