// C01: source ranges stay ordered and grow to the smallest covering range.
#include <algorithm>
#include <array>
#include <limits>

#include "libqasm/annotations.hpp"
#include "mc.hpp"
#include "space.hpp"

using cqasm::annotations::SourceLocation;
using Index = SourceLocation::Index;
using Range = SourceLocation::Range;

namespace {

// reference: a position is (line, column), read as one 64-bit number
using Pos = uint64_t;
Pos pos(uint32_t l, uint32_t c) { return (static_cast<Pos>(l) << 32) | c; }
Index index(Pos p) { return Index{ static_cast<uint32_t>(p >> 32), static_cast<uint32_t>(p) }; }
Pos pos(const Index& i) { return pos(i.line, i.column); }

const uint32_t MAX = std::numeric_limits<uint32_t>::max();

std::vector<Pos> grid(const std::vector<uint32_t>& v) {
    std::vector<Pos> r;
    for (auto a : v) {
        for (auto b : v) r.push_back(pos(a, b));
    }
    return r;
}

const std::vector<std::optional<std::string>>& names() {
    static const std::vector<std::optional<std::string>> n{ std::nullopt, "", "a.cq", "b", std::string("\0", 1), " ",
        std::string(300, 'x'), "<unknown file name>" };
    return n;
}

std::optional<std::string> model_name(const std::optional<std::string>& n) {
    return n && n->empty() ? std::nullopt : n;
}

std::string show(Pos p) { return std::to_string(p >> 32) + ":" + std::to_string(p & MAX); }

void equal_range(const std::string& what, Pos first, Pos last, const Range& r) {
    mc::same(what + ", first", show(first), show(pos(r.first)));
    mc::same(what + ", last", show(last), show(pos(r.last)));
}

void equal_name(const std::string& what, const std::optional<std::string>& e, const std::optional<std::string>& a) {
    mc::require(e == a, what + ": the file name is " + (a ? mc::quote(*a) : "none") + " instead of " + (e ? mc::quote(*e) : "none"));
}

int sign(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }

template <typename T>
void compare(const std::string& what, const T& a, const T& b, int expected, bool equal) {
    mc::same_value(what + " <=>", expected, sign(a <=> b));
    mc::same_value(what + " <", expected < 0, a < b);
    mc::same_value(what + " >", expected > 0, a > b);
    mc::same_value(what + " <=", expected <= 0, a <= b);
    mc::same_value(what + " >=", expected >= 0, a >= b);
    mc::same_value(what + " ==", equal, a == b);
    mc::same_value(what + " !=", !equal, a != b);
}

// case: "seq <name> <first> <last> <p>..."  or "cmp <name> <f1> <l1> <name> <f2> <l2>"
void check(mc::Run& run, const std::string& text) {
    std::istringstream in(text);
    std::string kind;
    in >> kind;
    if (kind == "seq") {
        size_t name = 0;
        Pos f = 0, l = 0;
        in >> name >> f >> l;
        Pos first = f, last = std::max(f, l);
        Range range{ index(f), index(l) };
        equal_range("the range", first, last, range);
        Range copied{ range };
        Range assigned;
        equal_range("the default range", 0, 0, assigned);
        assigned = range;
        equal_range("the copied range", first, last, copied);
        equal_range("the assigned range", first, last, assigned);
        SourceLocation loc{ names()[name], range };
        equal_range("the location's range", first, last, loc.range);
        equal_name("the location", model_name(names()[name]), loc.file_name);
        const SourceLocation before{ loc };
        std::vector<Pos> included;
        for (Pos p = 0; in >> p;) {
            run.visit(show(first) + "-" + show(last) + "/" + std::to_string(name));
            loc.expand_to_include(index(p));
            first = std::min(first, p);
            last = std::max(last, p);
            equal_range("after expanding", first, last, loc.range);
            equal_name("after expanding", model_name(names()[name]), loc.file_name);
            SourceLocation moved{ SourceLocation{ loc } };
            equal_range("moved", first, last, moved.range);
            equal_name("moved", model_name(names()[name]), moved.file_name);
            run.step();
        }
        equal_range("the untouched copy", f, std::max(f, l), before.range);
        run.visit(show(first) + "-" + show(last) + "/" + std::to_string(name));
    } else if (kind == "cmp") {
        size_t n1 = 0, n2 = 0;
        Pos f1 = 0, l1 = 0, f2 = 0, l2 = 0;
        in >> n1 >> f1 >> l1 >> n2 >> f2 >> l2;
        const Range r1{ index(f1), index(l1) }, r2{ index(f2), index(l2) };
        l1 = std::max(f1, l1);
        l2 = std::max(f2, l2);
        const int order = std::pair{ f1, l1 } < std::pair{ f2, l2 } ? -1 : std::pair{ f1, l1 } > std::pair{ f2, l2 } ? 1 : 0;
        compare("positions", r1.first, r2.first, f1 < f2 ? -1 : f1 > f2, f1 == f2);
        compare("ranges", r1, r2, order, order == 0);
        const SourceLocation a{ names()[n1], r1 }, b{ names()[n2], r2 };
        compare("locations", a, b, order, order == 0 && model_name(names()[n1]) == model_name(names()[n2]));
        run.visit(text);
        run.step(21);
    }
}

void enumerate(mc::Run& run) {
    auto num = [](Pos p) { return std::to_string(p); };
    const auto wide = grid({ 0, 1, 2, 3, 7, 10, MAX - 1, MAX });
    const auto mid = grid({ 0, 1, 2, MAX });
    const auto small = grid({ 1, 2, 5 });
    for (size_t n = 0; n < names().size(); ++n) {
        for (Pos f : wide) {
            for (Pos l : wide) {
                run.one("seq " + num(n) + " " + num(f) + " " + num(l));
                for (Pos p : wide) run.one("seq " + num(n) + " " + num(f) + " " + num(l) + " " + num(p));
            }
        }
    }
    for (Pos f : mid) {
        for (Pos l : mid) {
            for (size_t d = 2; d <= (run.thorough ? 4u : 2u); ++d) {
                space::tuples(mid.size(), d, [&](auto& ix) {
                    std::string s = "seq 2 " + num(f) + " " + num(l);
                    for (auto i : ix) s += " " + num(mid[i]);
                    run.one(s);
                });
            }
        }
    }
    for (Pos f : small) {
        for (Pos l : small) {
            if (l < f) continue;
            for (size_t d = 3; d <= (run.thorough ? 5u : 4u); ++d) {
                space::tuples(small.size(), d, [&](auto& ix) {
                    std::string s = "seq 0 " + num(f) + " " + num(l);
                    for (auto i : ix) s += " " + num(small[i]);
                    run.one(s);
                });
            }
        }
    }
    for (Pos f1 : mid) {
        for (Pos l1 : mid) {
            for (Pos f2 : mid) {
                for (Pos l2 : mid) {
                    run.one("cmp 2 " + num(f1) + " " + num(l1) + " 2 " + num(f2) + " " + num(l2));
                }
            }
        }
    }
    for (size_t a = 0; a < names().size(); ++a) {
        for (size_t b = 0; b < names().size(); ++b) {
            for (Pos f1 : small) {
                for (Pos l1 : small) {
                    for (Pos f2 : small) {
                        for (Pos l2 : small) {
                            if (l1 < f1 || l2 < f2) continue;
                            run.one("cmp " + num(a) + " " + num(f1) + " " + num(l1) + " " + num(b) + " " + num(f2) + " " + num(l2));
                        }
                    }
                }
            }
        }
    }
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
