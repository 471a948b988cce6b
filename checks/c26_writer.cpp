// Serializes every primitive value of a bounded space with the C++ library and prints
//   kind <TAB> hex of the CBOR map <TAB> canonical form of the value
#include <cstdio>
#include <cstring>
#include <iostream>
#include <limits>
#include <sstream>

#include "libqasm/v3x/instruction.hpp"
#include "libqasm/v3x/primitives.hpp"
#include "libqasm/v3x/semantic.hpp"
#include "space.hpp"

namespace p = cqasm::v3x::primitives;
namespace i3 = cqasm::v3x::instruction;

static std::string hex(const std::string& s) {
    static const char* d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) {
        r += d[c >> 4];
        r += d[c & 15];
    }
    return r;
}

template <class T>
static void put(const char* kind, const T& v, const std::string& canonical) {
    std::ostringstream os;
    ::tree::cbor::Writer w(os);
    auto m = w.start();
    p::serialize(v, m);
    m.close();
    std::cout << kind << '\t' << hex(os.str()) << '\t' << canonical << '\n';
}

static void str(const std::string& s) { put<p::Str>("str", s, hex(s)); }
static void integer(std::int64_t v) { put<p::Int>("int", v, std::to_string(v)); }
static void real(double d) {
    std::uint64_t u;
    std::memcpy(&u, &d, 8);
    char b[20];
    std::snprintf(b, sizeof b, "%016llx", static_cast<unsigned long long>(u));
    put<p::Float>("float", d, b);
}
static void version(const std::vector<std::int64_t>& c) {
    p::Version v("");
    v.clear();
    std::string t;
    for (auto x : c) {
        v.push_back(x);
        t += (t.empty() ? "" : ".") + std::to_string(x);
    }
    put<p::Version>("version", v, t);
}
static void instruction(const std::string& name, const std::string& spec, std::int64_t size) {
    using cqasm::v3x::types::Types;
    i3::InstructionRef r = cqasm::tree::make<i3::Instruction>(name, spec);
    std::string t = hex(name);
    static const std::map<char, std::string> node = { { 'Q', "Qubit" }, { 'V', "QubitArray" }, { 'B', "Bit" }, { 'W', "BitArray" },
        { 'b', "Bool" }, { 'i', "Int" }, { 'f', "Float" } };
    for (size_t k = 0; k < spec.size(); ++k) {
        if (size) r->operand_types[k]->size = size + static_cast<std::int64_t>(k);
        t += " " + node.at(spec[k]) + ":" + std::to_string(r->operand_types[k]->size);
    }
    put<i3::InstructionRef>("ref", r, t);
}

int main(int, char** argv) {
    const bool thorough = std::string(argv[1]) == "thorough";
    const std::vector<std::string> wide = { std::string(1, '\0'), "a", "Z", "0", " ", "\n", "\r", "\"", "\\", "'", "\x7f", "\xc2\x80", "\xc3\xa9",
        "\xdf\xbf", "\xe0\xa0\x80", "\xe2\x82\xac", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf", "\xef\xbb\xbf" };
    const std::vector<std::string> tiny = { std::string(1, '\0'), "b", "\xc3\xa9", "\xf0\x9f\x98\x80" };
    str("");
    for (int c = 0; c < 128; ++c) {
        str(std::string(1, static_cast<char>(c)));
        for (int d = 0; d < 128; ++d) str(std::string{ static_cast<char>(c), static_cast<char>(d) });
    }
    for (size_t n = 1; n <= (thorough ? 4u : 3u); ++n) space::words(wide, n, str);
    for (size_t n = 4; n <= (thorough ? 8u : 6u); ++n) space::words(tiny, n, str);
    for (size_t n : { 22, 23, 24, 25, 254, 255, 256, 257, 1000, 65535, 65536, 65537 })
        for (auto& f : tiny) {
            std::string s;
            for (size_t k = 0; k < n; ++k) s += f;
            str(s);
            str(s.substr(0, f.size() * (n / 2)) + "x" + s.substr(f.size() * (n / 2)));
        }
    for (std::string w : { "true", "false", "None", "b'qubit'", "qubit", "bytes", "0", "3.0", "\\x41", "\\u0041", "%41", "&amp;" }) str(w);
    put<p::Bool>("bool", true, "1");
    put<p::Bool>("bool", false, "0");
    for (std::int64_t v = -70000; v <= 70000; ++v) integer(v);
    for (int k = 0; k < 64; ++k)
        for (int d = -3; d <= 3; ++d) {
            const auto u = (1ull << k) + static_cast<std::uint64_t>(d);
            integer(static_cast<std::int64_t>(u));
            integer(static_cast<std::int64_t>(0 - u));
        }
    for (std::int64_t v = 1, k = 0; k < 19; ++k, v *= 10)
        for (int d = -1; d <= 1; ++d) {
            integer(v + d);
            integer(-v + d);
        }
    // every sign and exponent with several mantissas
    for (std::uint64_t s = 0; s < 2; ++s)
        for (std::uint64_t e = 0; e < 2048; ++e)
            for (std::uint64_t m : { 0ull, 1ull, 0x8000000000000ull, 0xfffffffffffffull, 0x5555555555555ull, 0x921fb54442d18ull, 0x00000ffffffffull, 0x20000000ull, 0x10000000ull }) {
                if (e == 2047 && m) continue;  // not a number: equal to nothing
                const auto u = s << 63 | e << 52 | m;
                double d;
                std::memcpy(&d, &u, 8);
                real(d);
            }
    for (int k = -1000; k <= 1000; ++k) {
        real(k);
        real(k / 10.0);
        real(k / 3.0);
    }
    const std::vector<std::int64_t> comp = { 0, 1, 2, 3, 9, 10, 23, 24, 100, 255, 256, 65535, 65536, 4294967295, 4294967296, std::numeric_limits<std::int64_t>::max() };
    for (size_t n = 1; n <= (thorough ? 4u : 3u); ++n)
        space::tuples(comp.size(), n, [&](const std::vector<size_t>& ix) {
            std::vector<std::int64_t> c;
            for (size_t k : ix) c.push_back(comp[k]);
            version(c);
        });
    for (size_t n = 4; n <= (thorough ? 9u : 7u); ++n)
        space::tuples(3, n, [&](const std::vector<size_t>& ix) { version({ ix.begin(), ix.end() }); });
    for (size_t n = 0; n <= 40; ++n) version(std::vector<std::int64_t>(n, 3));
    put<i3::InstructionRef>("ref", {}, "-");
    const auto kinds = space::letters("QVBWbif");
    for (std::string name : { std::string("H"), std::string("CNOT"), std::string("1q_X"), std::string("2q_X"), std::string("measure"), std::string(""), std::string("\xc3\xa9\xe2\x82\xac"),
             std::string("a\0b", 3), std::string("n"), std::string("name"), std::string("t"), std::string(300, 'x') })
        for (size_t n = 0; n <= (name == "H" ? (thorough ? 5u : 4u) : 2u); ++n)
            space::words(kinds, n, [&](const std::string& spec) { instruction(name, spec, 0); });
    for (std::string spec : { "Q", "VV", "WVf", "bif", "QVBWbif" })
        for (std::int64_t s : { 1ll, 2ll, 23ll, 24ll, 255ll, 256ll, 70000ll, 1ll << 40 }) instruction("X", spec, s);
    for (size_t n : { 10, 23, 24, 25, 40 }) instruction("X", std::string(n, 'Q'), 0);
    return 0;
}
