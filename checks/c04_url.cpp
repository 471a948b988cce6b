// C04: URL encoding is reversible and leaves only unreserved characters.
#include "libqasm/utils.hpp"
#include "mc.hpp"
#include "space.hpp"

namespace {

bool unreserved(unsigned char c) {
    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.' || c == '~';
}

std::string model(const std::string& s) {
    static const char* hex = "0123456789ABCDEF";
    std::string r;
    for (char x : s) {
        const auto c = static_cast<unsigned char>(x);
        if (unreserved(c)) {
            r += x;
        } else {
            r += '%';
            r += hex[c >> 4];
            r += hex[c & 15];
        }
    }
    return r;
}

// decodes; fails on anything but unreserved characters and escapes with uppercase digits
std::string decode(const std::string& s) {
    auto digit = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%') {
            MC_REQUIRE(i + 2 < s.size() && digit(s[i + 1]) >= 0 && digit(s[i + 2]) >= 0, "an ill-formed escape in " + mc::quote(s));
            r += static_cast<char>(digit(s[i + 1]) * 16 + digit(s[i + 2]));
            i += 2;
        } else {
            MC_REQUIRE(unreserved(static_cast<unsigned char>(s[i])), "a reserved character in " + mc::quote(s));
            r += s[i];
        }
    }
    return r;
}

void check(mc::Run& run, const std::string& s) {
    const auto e = cqasm::utils::url_encode(s);
    mc::same("url_encode", model(s), e);
    mc::same("decoding the result", s, decode(e));
    run.visit(s);
    run.step(s.size() + 1);
}

void enumerate(mc::Run& run) {
    auto wide = space::letters("azAZ09-_.~%/:?#[]@!$&'()*+,;= \"<>\\^`{|}\n\t\x7f\x80\xff\xc3");
    wide.emplace_back(1, '\0');
    space::byte_strings(run.thorough, wide, space::letters("a0-%/ +2F4\xc3\n"), space::letters("a%/2\xc3 "), [&](const std::string& s) { run.one(s); });
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
