// C02: a source location is always printed in the documented compact form.
#include <limits>

#include "libqasm/annotations.hpp"
#include "mc.hpp"
#include "space.hpp"

using cqasm::annotations::SourceLocation;
using Index = SourceLocation::Index;

namespace {

const uint32_t MAX = std::numeric_limits<uint32_t>::max();

const std::vector<std::optional<std::string>>& names() {
    static const std::vector<std::optional<std::string>> n{ std::nullopt, "", "input.cq", "a", "C:\\dir {x}\\%d f.cq",
        "<unknown file name>", "\xc3\xa9\xe2\x82\xac.cq", std::string("x\0y", 3), "0", "a:1:2", std::string(1000, 'n') };
    return n;
}

// the documented form
std::string model(const std::optional<std::string>& name, uint32_t l1, uint32_t c1, uint32_t l2, uint32_t c2) {
    std::string s = name && !name->empty() ? *name : "<unknown file name>";
    if (l1 == 0) return s;
    s += ":" + std::to_string(l1);
    if (c1 == 0) return l2 > l1 ? s + ".." + std::to_string(l2) : s;
    s += ":" + std::to_string(c1);
    if (l2 == l1) return c2 > c1 ? s + ".." + std::to_string(c2) : s;
    if (l2 > l1) s += ".." + std::to_string(l2) + ":" + std::to_string(c2);
    return s;
}

std::string form(const std::string& s) {
    std::string f;
    for (char c : s) f += c >= '0' && c <= '9' ? '9' : c;
    return f;
}

// case: name l1 c1 l2 c2 [l c]...   (the pairs are expanded to)
void check(mc::Run& run, const std::string& text) {
    std::istringstream in(text);
    size_t n = 0;
    uint32_t l1 = 0, c1 = 0, l2 = 0, c2 = 0;
    in >> n >> l1 >> c1 >> l2 >> c2;
    SourceLocation loc{ names()[n], SourceLocation::Range{ Index{ l1, c1 }, Index{ l2, c2 } } };
    if (std::pair{ l2, c2 } < std::pair{ l1, c1 }) {
        l2 = l1;
        c2 = c1;
    }
    for (;;) {
        const auto expected = model(names()[n], l1, c1, l2, c2);
        const SourceLocation before = loc;
        std::ostringstream os;
        os << "[" << loc << "][" << loc << "]" << 7;
        mc::same("streaming", "[" + expected + "][" + expected + "]7", os.str());
        mc::same("formatting", "<" + expected + ">", fmt::format("<{}>", loc));
        mc::require(before == loc && before.range.first == loc.range.first, "printing alters the location");
        run.visit(std::to_string(n) + form(expected));
        run.step(3);
        uint32_t l = 0, c = 0;
        if (!(in >> l >> c)) break;
        loc.expand_to_include(Index{ l, c });
        if (std::pair{ l, c } < std::pair{ l1, c1 }) {
            l1 = l;
            c1 = c;
        }
        if (std::pair{ l, c } > std::pair{ l2, c2 }) {
            l2 = l;
            c2 = c;
        }
    }
}

void enumerate(mc::Run& run) {
    std::vector<uint32_t> v{ 0, 1, 2, 3, 9, 10, 11, 99, 100, 1000000, MAX - 1, MAX };
    if (run.thorough) v = { 0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 99, 100, 101, 255, 256, 65535, 65536, 1000000, 2147483647, 2147483648u, MAX - 1, MAX };
    auto num = [](uint64_t p) { return std::to_string(p); };
    for (auto a : v) {
        for (auto b : v) {
            for (auto c : v) {
                for (auto d : v) {
                    for (size_t n : { 0, 2 }) {
                        run.one(num(n) + " " + num(a) + " " + num(b) + " " + num(c) + " " + num(d));
                    }
                }
            }
        }
    }
    // every small range: every pair of positions up to 25 lines and columns
    const uint32_t top = run.thorough ? 25 : 14;
    for (uint32_t a = 0; a <= top; ++a) {
        for (uint32_t b = 0; b <= top; ++b) {
            for (uint32_t c = 0; c <= top; ++c) {
                for (uint32_t d = 0; d <= top; ++d) run.one("3 " + num(a) + " " + num(b) + " " + num(c) + " " + num(d));
            }
        }
    }
    const std::vector<uint32_t> w{ 0, 1, 2, 10, MAX };
    for (size_t n = 0; n < names().size(); ++n) {
        for (auto a : w) {
            for (auto b : w) {
                for (auto c : w) {
                    for (auto d : w) run.one(num(n) + " " + num(a) + " " + num(b) + " " + num(c) + " " + num(d));
                }
            }
        }
    }
    const std::vector<uint32_t> x{ 0, 1, 12 };
    space::tuples(x.size(), 8, [&](auto& ix) {
        std::string s = "2";
        for (auto i : ix) s += " " + num(x[i]);
        run.one(s);
    });
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
