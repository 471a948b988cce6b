// C07: versions parse, print and compare consistently as a total order.
#include "libqasm/version.hpp"
#include "mc.hpp"
#include "space.hpp"

using cqasm::version::Version;

namespace {

// components as decimal digits without leading zeros: the model does not depend on any integer arithmetic
using Model = std::vector<std::string>;
const std::string TOP = "9223372036854775807";

std::string canonical(const std::string& digits) {
    const size_t i = digits.find_first_not_of('0');
    return i == std::string::npos ? "0" : digits.substr(i);
}

int compare_digits(const std::string& a, const std::string& b) {
    if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1;
    return a < b ? -1 : a > b;
}

int compare_models(const Model& a, const Model& b) {
    for (size_t i = 0; i < a.size() || i < b.size(); ++i) {
        const int c = compare_digits(i < a.size() ? a[i] : "0", i < b.size() ? b[i] : "0");
        if (c) return c;
    }
    return 0;
}

enum class Verdict { ACCEPT, REJECT };

Verdict parse_model(const std::string& s, Model& m) {
    if (s.empty()) return Verdict::ACCEPT;
    std::string part;
    for (size_t i = 0; i <= s.size(); ++i) {
        if (i < s.size() && s[i] != '.') {
            part += s[i];
            continue;
        }
        if (part.empty()) return Verdict::REJECT;
        for (char c : part) {
            if (c < '0' || c > '9') return Verdict::REJECT;
        }
        part = canonical(part);
        if (compare_digits(part, TOP) > 0) return Verdict::REJECT;
        m.push_back(part);
        part.clear();
    }
    return Verdict::ACCEPT;
}

std::string print_model(const Model& m) {
    std::string r;
    for (size_t i = 0; i < m.size(); ++i) r += (i ? "." : "") + m[i];
    return r;
}

void components(const std::string& what, const Model& m, const Version& v) {
    mc::same_value(what + ": number of components", static_cast<long long>(m.size()), static_cast<long long>(v.size()));
    for (size_t i = 0; i < m.size(); ++i) {
        mc::same(what + ": component " + std::to_string(i), m[i], std::to_string(v[i]));
    }
}

void parse_case(mc::Run& run, const std::string& s) {
    Model m;
    const auto verdict = parse_model(s, m);
    const bool nul = s.find('\0') != std::string::npos;
    for (int way = 0; way < (nul ? 1 : 2); ++way) {
        Version v;
        bool accepted = true;
        try {
            v = way ? Version(s.c_str()) : Version(s);
        } catch (const std::exception&) {
            accepted = false;
        }
        run.step();
        if (verdict == Verdict::REJECT) {
            MC_REQUIRE(!accepted, mc::quote(s) + " is accepted as a version, with " + std::to_string(v.size()) + " components");
            continue;
        }
        MC_REQUIRE(accepted, mc::quote(s) + " is rejected as a version");
        components("parsing " + mc::quote(s), m, v);
        const auto printed = print_model(m);
        std::ostringstream os;
        os << v << "|" << v;
        mc::same("streaming", printed + "|" + printed, os.str());
        mc::same("formatting", printed, fmt::format("{}", v));
        const Version again(os.str().substr(0, printed.size()));
        components("parsing the printed form again", m, again);
        MC_REQUIRE(again == v && v == again && !(again != v), "the printed form does not parse to an equal version");
        run.step(4);
    }
    run.visit(verdict == Verdict::ACCEPT ? print_model(m) : "-");
}

void compare_case(mc::Run& run, const std::string& a, const std::string& b) {
    Model ma, mb;
    parse_model(a, ma);
    parse_model(b, mb);
    Version va(a), vb;
    for (auto& c : mb) vb.push_back(std::stoll(c));  // built component by component
    const int e = compare_models(ma, mb);
    auto says = [&](const std::string& op, bool expected, bool actual) {
        MC_REQUIRE(expected == actual, mc::quote(a) + op + mc::quote(b) + (actual ? " holds" : " does not hold"));
        run.step();
    };
    says(" == ", e == 0, va == vb);
    says(" != ", e != 0, va != vb);
    says(" < ", e < 0, va < vb);
    says(" > ", e > 0, va > vb);
    says(" <= ", e <= 0, va <= vb);
    says(" >= ", e >= 0, va >= vb);
    const auto o = va <=> vb;
    says(" <=> ", true, (o < 0) == (e < 0) && (o > 0) == (e > 0) && (o == 0) == (e == 0));
    says(" compared with text ", e == 0, va == Version(b));
    components("comparing leaves the version", ma, va);
    run.visit(print_model(ma) + " " + print_model(mb));
}

// case: p TEXT | packed: c, a, b
void check(mc::Run& run, const std::string& text) {
    const auto f = space::unpack(text);
    if (f[0] == "p") {
        parse_case(run, f[1]);
    } else {
        compare_case(run, f[1], f[2]);
    }
}

void enumerate(mc::Run& run) {
    auto parse = [&](const std::string& s) {
        // whether a zero with a minus sign is negative, or a plus sign belongs to a number, is not specified
        if (s.find("-0") != std::string::npos || s.find('+') != std::string::npos) return;
        run.one(space::pack({ "p", s }));
    };
    for (size_t n = 0; n <= (run.thorough ? 7u : 6u); ++n) space::words(space::letters("019.-x"), n, parse);
    for (size_t n = 7; n <= (run.thorough ? 12u : 10u); ++n) space::words(space::letters("01."), n, parse);
    space::words(space::all_bytes(), 1, parse);
    for (auto& b : space::all_bytes()) {
        for (std::string s : { "3", "12", "3.0", "0" }) {
            parse(b + s);
            parse(s + b);
            parse(s + "." + b + s);
            parse(s + "." + s + b);
            parse(s + "." + s + b + s);
            parse(s + b + "." + s);
            parse(s + "." + b + "." + s);
            parse(b + "." + s);
            parse(s + "." + b);
        }
    }
    // components: leading zeros, every power of ten, the borders of every integer width
    std::vector<std::string> numbers{ "0", "1", "2", "3", "00", "007", "9", "10", "99", "100", "127", "128", "255", "256", "32767", "32768", "65535",
        "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "999999999999999999", "1000000000000000000",
        "9223372036854775806", TOP, "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551619",
        "99999999999999999999", "100000000000000000000", "340282366920938463463374607431768211456", "0000000000000000000000000000003",
        "-1", "-9223372036854775808", "-3", "- 1", "0x10", "1e3", "3,0", "3f", "3L", "1_000", "inf", "nan", "\xd9\xa3", "1 ", " 1", "\t1", "1\n", "3..", "" };
    for (auto& a : numbers) {
        for (auto& b : numbers) {
            parse(a + "." + b);
            for (auto& c : run.thorough ? numbers : std::vector<std::string>{ "0", "7", "2147483648", TOP, "-1", "x", "", "3 " }) parse(a + "." + b + "." + c);
        }
    }
    for (size_t n = 1; n <= 60; ++n) {
        for (std::string c : { "0", "1", "12", TOP.c_str() }) {
            std::string s;
            for (size_t i = 0; i < n; ++i) s += (i ? "." : "") + c;
            parse(s);
            parse(s + ".");
            parse("." + s);
            parse(s + ".-1");
            parse(s + ".x");
        }
    }
    // every pair of versions with up to three components over these values
    std::vector<std::string> versions{ "" };
    const std::vector<std::string> values{ "0", "1", "2", "10", "4294967296", TOP };
    for (size_t n = 1; n <= 3; ++n) {
        space::tuples(values.size(), n, [&](auto& ix) {
            std::string s;
            for (size_t i = 0; i < n; ++i) s += (i ? "." : "") + values[ix[i]];
            versions.push_back(s);
        });
    }
    for (auto& a : versions) {
        for (auto& b : versions) run.one(space::pack({ "c", a, b }));
    }
    std::vector<std::string> deep{ "" };
    for (size_t n = 1; n <= (run.thorough ? 8u : 6u); ++n) {
        space::tuples(2, n, [&](auto& ix) {
            std::string s;
            for (size_t i = 0; i < n; ++i) s += (i ? "." : "") + std::to_string(ix[i]);
            deep.push_back(s);
        });
    }
    for (auto& a : deep) {
        for (auto& b : deep) run.one(space::pack({ "c", a, b }));
    }
    // every pair of single components next to each other at the borders
    std::vector<std::string> single;
    for (int s = 0; s < 63; ++s) {
        const unsigned long long p = 1ull << s;
        for (auto v : { p - 1, p, p + 1 }) single.push_back(std::to_string(v));
    }
    single.push_back(TOP);
    for (auto& a : single) {
        for (auto& b : single) {
            run.one(space::pack({ "c", a, b }));
            run.one(space::pack({ "c", "1." + a, "1." + b + ".0" }));
        }
    }
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
