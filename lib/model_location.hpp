// What a source location is and how it reads, according to its documentation.
#pragma once
#include <cstdint>
#include <optional>
#include <string>
#include <utility>

namespace model {

struct Location {
    std::optional<std::string> name;
    uint32_t l1 = 0, c1 = 0, l2 = 0, c2 = 0;

    Location() = default;
    Location(const std::optional<std::string>& n, uint32_t a, uint32_t b, uint32_t c, uint32_t d)
    : name{ n }, l1{ a }, c1{ b }, l2{ c }, c2{ d } {
        if (name && name->empty()) name.reset();
        if (std::pair{ l2, c2 } < std::pair{ l1, c1 }) {
            l2 = l1;
            c2 = c1;
        }
    }

    std::string text() const {
        std::string s = name ? *name : "<unknown file name>";
        if (l1 == 0) return s;
        s += ":" + std::to_string(l1);
        if (c1 == 0) return l2 > l1 ? s + ".." + std::to_string(l2) : s;
        s += ":" + std::to_string(c1);
        if (l2 == l1) return c2 > c1 ? s + ".." + std::to_string(c2) : s;
        return s + ".." + std::to_string(l2) + ":" + std::to_string(c2);
    }
};

inline std::string percent(const std::string& s) {
    static const char* hex = "0123456789ABCDEF";
    std::string r;
    for (unsigned char c : s) {
        if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-' || c == '_' || c == '.' || c == '~') {
            r += static_cast<char>(c);
        } else {
            r += '%';
            r += hex[c >> 4];
            r += hex[c & 15];
        }
    }
    return r;
}

}  // namespace model
