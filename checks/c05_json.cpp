// C05: JSON string encoding is valid JSON that decodes to the original text.
#include "json_reader.hpp"
#include "libqasm/utils.hpp"
#include "mc.hpp"
#include "space.hpp"

namespace {

void check(mc::Run& run, const std::string& s) {
    const auto e = cqasm::utils::json_encode(s);
    for (size_t i = 0; i < e.size(); ++i) {
        MC_REQUIRE(static_cast<unsigned char>(e[i]) >= 32, "a control character in the result " + mc::quote(e));
        if (e[i] == '\\') {
            MC_REQUIRE(i + 1 < e.size(), "a stray backslash at the end of " + mc::quote(e));
            ++i;
        } else {
            MC_REQUIRE(e[i] != '"', "a bare double quote in " + mc::quote(e));
        }
    }
    std::string decoded;
    try {
        decoded = json::parse("\"" + e + "\"").text;
    } catch (const std::exception& x) {
        mc::fail("the result " + mc::quote(e) + " is not a JSON string: " + x.what());
    }
    mc::same("decoding the result", s, decoded);
    run.visit(e);
    run.step(s.size() + 1);
}

void enumerate(mc::Run& run) {
    auto one = [&](const std::string& s) { run.one(s); };
    one("");
    // every ASCII character and every 2-byte UTF-8 letter, alone and in pairs with every ASCII character
    std::vector<std::string> ascii, two;
    for (int i = 0; i < 128; ++i) ascii.emplace_back(1, static_cast<char>(i));
    for (int c = 0x80; c < 0x800; ++c) two.push_back({ static_cast<char>(0xc0 | (c >> 6)), static_cast<char>(0x80 | (c & 63)) });
    space::words(ascii, 1, one);
    space::words(ascii, 2, one);
    for (auto& t : two) {
        one(t);
        for (auto& a : ascii) {
            if (run.thorough || a[0] < 35 || a[0] == '\\' || a[0] == 127) {
                one(t + a);
                one(a + t);
            }
        }
    }
    std::vector<std::string> wide;
    for (int i : { 0, 1, 8, 9, 10, 12, 13, 27, 31, 32, 34, 39, 47, 48, 60, 85, 92, 97, 98, 110, 117, 123, 126, 127 }) wide.emplace_back(1, static_cast<char>(i));
    for (const char* u : { "\xc2\x80", "\xc3\xa9", "\xdf\xbf", "\xe0\xa0\x80", "\xe2\x80\xa8", "\xe2\x82\xac", "\xef\xbb\xbf", "\xef\xbf\xbd", "\xf0\x9f\x98\x80", "\xf4\x8f\xbf\xbf" }) {
        wide.emplace_back(u);
    }
    space::words(wide, 3, one);
    const std::vector<std::string> narrow{ "a", "u", "0", "\\", "\"", "\n", std::string(1, '\0'), "\x1f", "\x7f", "/", "\xc3\xa9", "\xe2\x82\xac" };
    space::words(narrow, 4, one);
    if (run.thorough) space::words(wide, 4, one);
    const std::vector<std::string> tiny{ "a", "\\", "\"", "\n", "\xc3\xa9", "u" };
    for (size_t n = 5; n <= (run.thorough ? 8u : 6u); ++n) space::words(tiny, n, one);
    for (auto& fill : tiny) {
        for (size_t n = 5; n <= (run.thorough ? 300u : 140u); ++n) {
            for (auto& odd : tiny) {
                for (size_t at = 0; at < n; ++at) {
                    std::string s;
                    for (size_t i = 0; i < n; ++i) s += i == at ? odd : fill;
                    one(s);
                }
            }
        }
        for (size_t n : { 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 32767, 32768 }) {
            for (auto& odd : narrow) {
                for (size_t at : { size_t{ 0 }, n / 2, n - 1 }) {
                    std::string s;
                    for (size_t i = 0; i < n; ++i) s += i == at ? odd : fill;
                    one(s);
                }
            }
        }
    }
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
