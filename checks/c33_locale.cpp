// C33: the locale that the host program has chosen never changes a result, and the library never changes the locale.
// Explored: sequences of changes of the locale (of C, of the thread, of C++, to locales of several languages and encodings
// and to ones with facets of our own) and of uses of every part of the library. Every answer is compared with the one
// given in the classic locale. Some cases run in a new process, so that the library is first used in that locale.
#include <sys/wait.h>
#include <unistd.h>

#include <cerrno>
#include <clocale>
#include <filesystem>
#include <locale>
#include <thread>
#include <unordered_map>

#include "lang.hpp"
#include "libqasm/utils.hpp"
#include "libqasm/v3x/cqasm.hpp"
#include "libqasm/version.hpp"
#include "pool.hpp"

namespace {

using cqasm::error::Error;
using cqasm::v3x::analyzer::Analyzer;
namespace parser = cqasm::v3x::parser;
using Range = cqasm::annotations::SourceLocation::Range;

std::string scratch;  // where the locales are, and files

/// language, encoding: decimal commas, groups, letters that lose their case or have one in Latin-1, decimal points of
/// several bytes, encodings in which a backslash or a letter is the second byte of a character
const std::vector<std::pair<std::string, std::string>>& named() {
    static const std::vector<std::pair<std::string, std::string>> r{ { "de_DE", "UTF-8" }, { "de_DE", "ISO-8859-1" }, { "tr_TR", "ISO-8859-9" },
        { "tr_TR", "UTF-8" }, { "ps_AF", "UTF-8" }, { "en_IN", "UTF-8" }, { "ja_JP", "SHIFT_JIS" }, { "zh_CN", "GB18030" } };
    return r;
}

std::vector<std::string> locales() {
    std::vector<std::string> r;
    for (auto& [l, c] : named()) {
        if (std::filesystem::exists(scratch + "/" + l + "." + c + "/LC_CTYPE")) r.push_back(l + "." + c);
    }
    r.push_back("C.UTF-8");
    return r;
}

struct Comma : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
};
struct Groups : std::numpunct<char> {
    char do_thousands_sep() const override { return '\''; }
    std::string do_grouping() const override { return "\1\2"; }
};
struct Names : std::numpunct<char> {
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
struct Letters : std::ctype<char> {
    static const mask* letters() {
        // every character is a letter and a blank and a digit
        static mask m[table_size];
        for (auto& x : m) x = alpha | digit | space | lower | upper | print;
        return m;
    }
    Letters() : std::ctype<char>{ letters() } {}
    char do_tolower(char) const override { return 'x'; }
    const char* do_tolower(char* b, const char* e) const override {
        std::fill(b, const_cast<char*>(e), 'x');
        return e;
    }
    char do_toupper(char) const override { return 'X'; }
    const char* do_toupper(char* b, const char* e) const override {
        std::fill(b, const_cast<char*>(e), 'X');
        return e;
    }
};
struct Collation : std::collate<char> {
    // everything is equal
    int do_compare(const char*, const char*, const char*, const char*) const override { return 0; }
    string_type do_transform(const char*, const char*) const override { return ""; }
    long do_hash(const char*, const char*) const override { return 0; }
};

/// the host's locale
class Host {
public:
    Host() { reset(); }
    ~Host() { reset(); }
    Host(const Host&) = delete;
    Host& operator=(const Host&) = delete;

    static void reset() {
        uselocale(LC_GLOBAL_LOCALE);
        std::locale::global(std::locale::classic());
        std::setlocale(LC_ALL, "C");
        for (auto l : made()) freelocale(l);
        made().clear();
        errno = 0;
    }

    static bool change(const std::string& op) {
        const auto colon = op.find(':');
        const auto kind = op.substr(0, colon), name = op.substr(colon + 1);
        auto c = [&](int category) { return std::setlocale(category, name.c_str()) ? void() : mc::fail("no locale " + name); };
        if (kind == "all") c(LC_ALL);
        else if (kind == "number") c(LC_NUMERIC);
        else if (kind == "letters") c(LC_CTYPE);
        else if (kind == "order") c(LC_COLLATE);
        else if (kind == "thread") {
            auto l = newlocale(LC_ALL_MASK, name.c_str(), nullptr);
            if (!l) mc::fail("no locale " + name);
            made().push_back(l);
            uselocale(l);
        } else if (kind == "c++") std::locale::global(std::locale(name));
        else if (kind == "c++ numbers") std::locale::global(std::locale(std::locale(), name, std::locale::numeric));
        else if (kind == "facet") {
            const std::locale now;
            std::locale::global(name == "comma" ? std::locale(now, new Comma)
                    : name == "groups"          ? std::locale(now, new Groups)
                    : name == "names"           ? std::locale(now, new Names)
                    : name == "letters"         ? std::locale(now, new Letters)
                                                : std::locale(now, new Collation));
        } else if (kind == "errno") {
            errno = std::stoi(name);
        } else if (kind == "classic") {
            reset();
        } else {
            return false;
        }
        return true;
    }

    /// the three locales there are
    struct State {
        std::string c;
        locale_t thread;
        std::locale cpp, out, err;
    };
    static State state() { return { std::setlocale(LC_ALL, nullptr), uselocale(nullptr), std::locale(), std::cout.getloc(), std::cerr.getloc() }; }
    static void unchanged(const State& before, const std::string& by) {
        const auto now = state();
        mc::same("the locale of C, after " + by, before.c, now.c);
        MC_REQUIRE(before.thread == now.thread, "the locale of the thread changed: " + by);
        MC_REQUIRE(before.cpp == now.cpp, "the locale of C++ changed: " + by);
        MC_REQUIRE(before.out == now.out && before.err == now.err, "the locale of the standard streams changed: " + by);
    }

private:
    static std::vector<locale_t>& made() {
        static std::vector<locale_t> r;
        return r;
    }
};

/// the answer of one use of the library, with nothing of ours that depends on the locale before `finish`
struct Answer {
    std::string text;
    std::vector<std::function<std::string()>> later;  // asked for when the locale is the classic one again
    std::string finish() const {
        auto r = text;
        for (auto& f : later) r += f();
        return r;
    }
};

template <class Result>
void result(Answer& a, std::shared_ptr<Result> r) {
    for (auto& e : r->errors) a.text += std::string(e.what()) + "\n" + e.to_json() + "\n";
    if (!r->errors.empty()) {
        a.text += r->to_json() + "\n";
        for (auto& s : r->to_strings()) a.text += s + "\n";
        return;
    }
    a.text += ::tree::base::serialize(r->root) + "\n";
    // written by the generated code, as the global locale of C++ has it
    if (std::locale() == std::locale::classic()) {
        auto json = r->to_json();
        a.later.push_back([json, r] { return json == r->to_json() ? "" : "the tree is written differently: " + json; });
    }
    a.later.push_back([r] { return ref::dump(real::convert(*r, "input.cq"), true) + "\n"; });
}

/// what lives from one use to the next
struct Kept {
    std::optional<Analyzer> analyzer;
    std::optional<Error> error;
};

Answer use(Kept& kept, const std::string& op) {
    Answer a;
    const auto colon = op.find(':');
    const auto kind = op.substr(0, colon), text = op.substr(colon + 1);
    auto line = [&](const std::string& s) { a.text += s + "\n"; };
    if (kind == "parse") {
        result(a, std::make_shared<parser::ParseResult>(parser::parse_string(text, "input.cq")));
    } else if (kind == "analyze" || kind == "default" || kind == "keep") {
        auto p = std::make_shared<parser::ParseResult>(parser::parse_string(text, "input.cq"));
        result(a, p);
        if (!p->errors.empty()) return a;
        using R = cqasm::v3x::analyzer::AnalysisResult;
        if (kind == "keep") {
            if (!kept.analyzer) kept.analyzer.emplace(real::fresh());
            result(a, std::make_shared<R>(kept.analyzer->analyze(*p)));
        } else {
            auto an = kind == "default" ? cqasm::v3x::default_analyzer() : real::fresh();
            result(a, std::make_shared<R>(an.analyze(*p)));
        }
    } else if (kind == "file") {
        try {
            result(a, std::make_shared<parser::ParseResult>(parser::parse_file(scratch + "/" + text, "input.cq")));
        } catch (const Error& e) {
            line(e.what());
        }
    } else if (kind == "fold") {
        line(cqasm::utils::to_lowercase(text));
        std::string other = text;
        for (auto& c : other) c = static_cast<char>(c ^ 0x20);
        for (auto& s : { text, other, cqasm::utils::to_lowercase(text) }) line(cqasm::utils::equal_case_insensitive(text, s) ? "same" : "different");
        line(cqasm::utils::url_encode(text));
        bool ascii = true;
        for (char c : text) ascii = ascii && static_cast<unsigned char>(c) < 0x80;
        if (ascii) line(cqasm::utils::json_encode(text));
    } else if (kind == "bytes") {
        // every byte, next to others
        for (int c = 0; c < 256; ++c) {
            for (auto* around : { "", "x", "I", "\xc3", "\x81" }) {
                for (const auto& s : { std::string(around) + static_cast<char>(c), static_cast<char>(c) + std::string(around) }) {
                    line(cqasm::utils::to_lowercase(s) + " " + cqasm::utils::url_encode(s));
                    for (auto* o : { "i", "I", "x", "\xe4", "\xc4", "\xdd", "\xfd", "xi", "XI" }) a.text += cqasm::utils::equal_case_insensitive(s, o) ? '1' : '0';
                }
            }
            for (int d = 0; d < 256; ++d) a.text += cqasm::utils::equal_case_insensitive(std::string(1, static_cast<char>(c)), std::string(1, static_cast<char>(d))) ? '1' : '0';
        }
    } else if (kind == "version") {
        auto one = [](const std::string& t) -> std::string {
            try {
                const cqasm::version::Version v(t);
                std::string r = fmt::format("{}", v) + ":";
                for (auto i : v) r += fmt::format("{} ", i);
                return r + (v < cqasm::version::Version("1.1000") ? "before" : v == cqasm::version::Version("1.1000") ? "same" : "after");
            } catch (const std::exception& e) {
                return std::string("refused: ") + e.what();
            }
        };
        line(one(text));
    } else if (kind == "error") {
        const auto n = static_cast<std::uint32_t>(std::stoul(text));
        Error e{ "a 1,5 message I\xc4\xb0", "input I.cq", Range{ { n, 1234567 }, { n + 1000, 7 } } };
        line(e.what());
        line(e.to_json());
        Error f{ "no place" };
        line(f.what());
        line(f.to_json());
        cqasm::annotations::SourceLocation l{ "f", { { n, 1 }, { n, 1000 } } };
        l.expand_to_include({ n + 1000, 1000000 });
        line(fmt::format("{}", l));
        if (!kept.error) kept.error.emplace(e);
        line(kept.error->what());
    } else if (kind == "register") {
        // an analyzer put together in this locale, and used in the next one
        kept.analyzer.emplace(real::fresh());
        namespace values = cqasm::v3x::values;
        kept.analyzer->register_variable("GIB", cqasm::tree::make<values::ConstFloat>(2.5));
        kept.analyzer->register_instruction("SWIG", "Q");
        kept.analyzer->register_consteval_core_function("INI", "f", [](const values::Values& v) -> values::Value { return cqasm::tree::make<values::ConstFloat>(v[0]->as_const_float()->value * 1000.5); });
    } else {
        mc::fail("unknown operation " + op);
    }
    return a;
}

/// runs a part of a case in a process of its own; it writes its answer to the pipe
std::string separately(const std::function<std::string()>& f) {
    int p[2];
    if (pipe(p)) mc::fail("pipe");
    const pid_t child = fork();
    if (child == 0) {
        close(p[0]);
        std::string r;
        try {
            r = "ok " + f();
        } catch (const mc::Failure& x) {
            r = "no " + x.what;
        } catch (const std::exception& x) {
            r = std::string("no an exception: ") + x.what();
        }
        for (size_t at = 0; at < r.size();) {
            const auto n = write(p[1], r.data() + at, r.size() - at);
            if (n <= 0) break;
            at += static_cast<size_t>(n);
        }
        _exit(0);
    }
    close(p[1]);
    std::string r;
    char b[65536];
    for (ssize_t n; (n = read(p[0], b, sizeof b)) > 0;) r.append(b, static_cast<size_t>(n));
    close(p[0]);
    int status = 0;
    waitpid(child, &status, 0);
    if (!WIFEXITED(status) || WEXITSTATUS(status) || r.size() < 3) mc::fail("the process dies");
    if (r.compare(0, 3, "no ") == 0) mc::fail(r.substr(3));
    return r.substr(3);
}

bool is_change(const std::string& op) {
    static const std::set<std::string> kinds{ "all", "number", "letters", "order", "thread", "c++", "c++ numbers", "facet", "errno", "classic" };
    return kinds.count(op.substr(0, op.find(':'))) > 0;
}

/// the answers of all uses; `changes`: in the locales of the case, else in the classic one
std::vector<std::string> answers(mc::Run& run, const std::vector<std::string>& ops, bool changes) {
    std::vector<Answer> as;
    std::vector<std::string> r;
    {
        Host host;
        Kept kept;
        for (auto& op : ops) {
            if (is_change(op)) {
                if (changes) Host::change(op);
                continue;
            }
            const auto before = Host::state();
            as.push_back(use(kept, op));
            Host::unchanged(before, mc::clip(op));
            run.step();
        }
    }
    for (auto& a : as) r.push_back(a.finish());
    return r;
}

void check(mc::Run& run, const std::string& text) {
    auto ops = space::unpack(text);
    const bool cold = !ops.empty() && ops[0] == "cold";
    if (cold) ops.erase(ops.begin());
    std::string where;
    for (auto& op : ops) {
        if (is_change(op)) where += (where.empty() ? "" : ", ") + op;
    }
    run.visit(where);
    std::vector<std::string> expected, actual;
    if (cold) {
        auto all = [&](bool changes) { return [&run, &ops, changes] { return space::pack(answers(run, ops, changes)); }; };
        expected = space::unpack(separately(all(false)));
        actual = space::unpack(separately(all(true)));
        run.step(ops.size());
    } else {
        static std::unordered_map<std::string, std::vector<std::string>> known;
        std::vector<std::string> uses;
        for (auto& op : ops) {
            if (!is_change(op)) uses.push_back(op);
        }
        const auto key = space::pack(uses);
        auto at = known.find(key);
        if (at == known.end()) {
            if (known.size() > 20000) known.clear();
            at = known.emplace(key, answers(run, uses, false)).first;
        }
        expected = at->second;
        actual = answers(run, ops, true);
    }
    mc::same_value("answers", static_cast<long long>(expected.size()), static_cast<long long>(actual.size()));
    for (size_t k = 0; k < expected.size(); ++k) mc::same("after " + where + ", use " + std::to_string(k + 1), expected[k], actual[k]);
}

void enumerate(mc::Run& run) {
    const auto ls = locales();
    std::vector<std::string> changes, few;
    for (auto& l : ls) {
        for (auto* k : { "all", "number", "letters", "order", "thread", "c++", "c++ numbers" }) changes.push_back(std::string(k) + ":" + l);
    }
    for (auto* f : { "comma", "groups", "names", "letters", "order" }) changes.push_back(std::string("facet:") + f);
    for (int e : { ERANGE, EINVAL, ENOENT, EINTR }) changes.push_back("errno:" + std::to_string(e));
    for (auto& c : changes) {
        for (auto* s : { "all:de_DE.UTF-8", "letters:tr_TR.ISO-8859-9", "thread:de_DE.UTF-8", "c++:de_DE.ISO-8859-1", "c++:ja_JP.SHIFT_JIS", "all:ps_AF.UTF-8", "facet:comma", "facet:groups", "facet:letters", "errno:34" }) {
            if (c == s) few.push_back(c);
        }
    }
    few.push_back("classic:");
    const std::string floats = "version 3; qubit INI_q; Rx(1.5) INI_q; Rx(12345678.5e-3) INI_q; Ry(.25E3 / 1000) INI_q; Rz(0.1 + PI) INI_q; X Ini_q; barrier INI_Q";
    const std::string good = "version 3.0; qubit[1000000] I_i; bit B_\xc3\x9c; Rx(1234.5) I_i[999999]; b = measure I_i";
    const std::string uses_registered = "version 3; qubit I; SWIG I; Rx(INI(GIB)) I; Rx(INI(gib)) I; swig I; Rx(GIB * 1.5) I";
    const std::vector<std::string> uses{ "analyze:" + floats, "keep:version 3; qubit[2000] q; Rx(1.5e3) q[1999]; inv.pow(2.5).I q; I q[1234567]",
        "keep:version 3; qubit q; Rx(sin(0.5)) q; Rx(1e400) q; X(1.5) q", "default:version 3.0; qubit q; MX90 q; mX90 q; init Q; INIT q", "bytes:",
        "version:1.1234567.3", "error:1234567", "keep:" + uses_registered, "register:" };
    // first used in that locale
    auto cold = [&](std::vector<std::string> ops) {
        ops.insert(ops.begin(), "cold");
        run.one(space::pack(ops));
    };
    for (auto& c : changes) {
        for (auto& u : uses) cold({ c, u });
        cold({ c, "register:", "keep:" + uses_registered, uses[0], "bytes:" });
        cold({ c, uses[0], "classic:", uses[0], uses[3], "bytes:", "version:1.2" });
    }
    for (auto& c : few) {
        for (auto& d : run.thorough ? changes : few) {
            if (c == d) continue;
            cold({ c, uses[0], d, uses[0], uses[1] });
            cold({ c, "register:", d, "keep:" + uses_registered });
            cold({ c, d, uses[3], uses[2], "bytes:" });
        }
    }
    // every change, with programs and texts of every kind
    std::vector<std::string> corpus;
    auto add = [&](const std::string& p) { corpus.push_back("analyze:" + p); };
    for (auto& f : lang::forms()) add("version 3;" + f + "\n");
    for (auto& s : pool::statements()) add(pool::program("3.0", { "qubit[3] q", "qubit[2] r", "bit[3] b", s }));
    for (auto& s : pool::more()) add(pool::program("3.0", { "qubit[3] q", "qubit[2] r", "bit[3] b", "bit[2] c", s }));
    for (auto& v : pool::versions()) add(pool::program(v, { "qubit q", "X q" }));
    for (auto* w : { "", "0", "1", "12", "1234567", "9007199254740993", "17976931348623157" }) {
        for (auto* f : { "", ".", ".0", ".5", ".125", ".00000000000000000000001", ".7976931348623158" }) {
            for (auto* e : { "", "e0", "E3", "e+3", "e-3", "e300", "e-300", "e309", "e1000" }) {
                const auto s = std::string(w) + f + e;
                if (!std::string(f).empty() || (*w && *e)) add("version 3; qubit q; Rx(" + s + ") q; X q[" + s + "]");
            }
        }
        if (*w) add("version 3; qubit[" + std::string(w) + "] q; X q[" + w + "]; CRk(" + w + ") q[0], q[1]");
    }
    // groups and commas as other locales write them are never numbers
    for (auto* n : { "1,5", "1.234.567", "1.234,5", "1'234.5", "1,234.5", "1 234.5", "\xd9\xab" "5", "1\xd9\xab" "5", "0x1.8p3", "inf", "nan", "1e1,5", "1.5,25" }) {
        add("version 3; qubit[9] q; Rx(" + std::string(n) + ") q");
        add("version 3; qubit[9] q; X q[" + std::string(n) + "]");
    }
    for (int c = 0; c < 256; ++c) {
        const std::string b(1, static_cast<char>(c));
        corpus.push_back("parse:version 3; qubit q" + b + "I");
        corpus.push_back("parse:version 3; asm(x) '''I" + b + "i'''");
        corpus.push_back("parse:version" + b + "3; X" + b + " q");
        corpus.push_back("parse:version 3; X 1" + b + "5 // " + b);
        corpus.push_back("fold:I" + b + "i");
    }
    for (auto& t : { "qubit \xc4\xb0", "qubit \xc4\xb1; X i", "qubit I; X i; X I; X \xc4\xb1", "X \xe4\xb8\x80", "asm(x) '''\xe4\xb8\x80 1,5'''", "/* \x83\x5c */ qubit q", "qubit q // \x83\x5c\nX q" }) corpus.push_back("parse:version 3; " + std::string(t));
    for (auto* t : { "1", "1.2", "1,2", "1.1000", "1.1.000", "01", "+1", " 1", "1 ", "\xa0" "1", "1\xa0", "9223372036854775807", "9223372036854775808", "-1", "1.-2", "1.2e3", "" }) corpus.push_back("version:" + std::string(t));
    for (auto* n : { "0", "1", "999", "1000", "1234567", "4294960000" }) corpus.push_back("error:" + std::string(n));
    for (auto* s : { "X q[1234567]", "b = measure q", "b = measure q[0:1500]", "qubit[1000001] r; CNOT q, r", "qubit q", "X(1234567) q", "CNOT q[0:1234], q", "qubit[0] z", "reset b[1000000]", "wait(1234567.5) q", "X q[1000000:1]", "X q[1000:2000000]" }) {
        add("version 3; bit[1234] b; qubit[1000000] q;\n" + std::string(s));
        add("version 3; bit[1234] b; qubit[1000000] q;\n" + std::string(1200, ' ') + s);
        add("version 3; bit[1234] b; qubit[1000000] q;\n" + std::string(1200, '\n') + s);
    }
    for (auto* f : { "none.cq", "a.cq", "I.cq" }) corpus.push_back("file:" + std::string(f));
    for (auto& c : changes) {
        for (auto& u : corpus) run.one(space::pack({ c, u }));
    }
    // in the locale of another, and with a locale of each kind at once
    for (size_t n = 2; n <= 3; ++n) {
        space::tuples(few.size(), n, [&](auto& ix) {
            std::vector<std::string> ops;
            for (auto i : ix) ops.push_back(few[i]);
            for (auto& u : { uses[0], uses[2], uses[5] }) ops.push_back(u);
            run.one(space::pack(ops));
        });
    }
    // changes between uses
    std::vector<std::string> all = few;
    for (auto& u : uses) all.push_back(u);
    for (size_t n = 3; n <= (run.thorough ? 4 : 3); ++n) {
        space::tuples(all.size(), n, [&](auto& ix) {
            std::vector<std::string> ops;
            bool one = false, other = false;
            for (auto i : ix) {
                ops.push_back(all[i]);
                (i < few.size() ? one : other) = true;
            }
            if (one && other) run.one(space::pack(ops));
        });
    }
    const std::vector<std::string> little{ "all:de_DE.UTF-8", "c++:de_DE.ISO-8859-1", "classic:", "keep:" + floats, "keep:" + uses_registered, "register:" };
    bool there = true;
    for (auto& l : little) {
        if (is_change(l) && l != "classic:") there = there && std::count(changes.begin(), changes.end(), l);
    }
    if (there) {
        for (size_t n = 4; n <= (run.thorough ? 7 : 5); ++n) {
            space::tuples(little.size(), n, [&](auto& ix) {
                std::vector<std::string> ops;
                for (auto i : ix) ops.push_back(little[i]);
                run.one(space::pack(ops));
            });
        }
    }
}

/// makes the locales, with the tools of the system, in a directory of its own
void make_locales() {
    char dir[] = "/tmp/verif-locale-XXXXXX";
    if (!mkdtemp(dir)) return;
    scratch = dir;
    std::vector<pid_t> children;
    for (auto& [l, c] : named()) {
        const auto to = scratch + "/" + l + "." + c;
        const pid_t p = fork();
        if (p == 0) {
            for (int fd : { 1, 2 }) {
                if (!std::freopen("/dev/null", "w", fd == 1 ? stdout : stderr)) _exit(1);
            }
            execlp("localedef", "localedef", "-c", "-i", l.c_str(), "-f", c.c_str(), to.c_str(), static_cast<char*>(nullptr));
            _exit(1);
        }
        children.push_back(p);
    }
    for (auto p : children) waitpid(p, nullptr, 0);
    setenv("LOCPATH", scratch.c_str(), 1);
    for (auto& l : locales()) {
        if (!std::setlocale(LC_ALL, l.c_str())) {
            std::filesystem::remove_all(scratch + "/" + l);
            continue;
        }
        std::setlocale(LC_ALL, "C");
    }
    std::ofstream(scratch + "/a.cq") << "version 3; qubit[1000] q; Rx(1.5) q[999]";
    std::ofstream(scratch + "/I.cq") << "version 3,1; qubit";
}

}  // namespace

int main(int argc, char** argv) {
    make_locales();
    const auto known = locales().size();
    if (known != named().size() + 1) std::cerr << "c33: " << known << " of " << named().size() + 1 << " locales\n";
    const int r = mc::main(argc, argv, enumerate, check);
    if (scratch.rfind("/tmp/verif-locale-", 0) == 0) std::filesystem::remove_all(scratch);
    return r;
}
