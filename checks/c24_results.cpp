// C24: results report either a tree or errors, consistently in every form.
// Explored: all lists of errors up to a length, with every tree and with none, and all sequences of operations on a
// result (adding and taking away errors, changing the tree, copying, asking), for both kinds of result; and the results
// of parsing and analysing programs.
#include "json_reader.hpp"
#include "lang.hpp"
#include "layout.hpp"
#include "model_location.hpp"

namespace {

namespace syn = cqasm::v3x::syntactic;
namespace sem = cqasm::v3x::semantic;
using cqasm::error::Error;
using cqasm::v3x::analyzer::AnalysisFailed;
using cqasm::v3x::analyzer::AnalysisResult;
using cqasm::v3x::parser::ParseResult;
using Range = cqasm::annotations::SourceLocation::Range;

struct Sample {
    std::string message;
    bool located;
    std::optional<std::string> file;
    uint32_t l1, c1, l2, c2;
};

const std::vector<Sample>& samples() {
    static const std::vector<Sample> r{
        { "no place", false, std::nullopt, 0, 0, 0, 0 },
        { "a place", true, std::nullopt, 1, 2, 1, 5 },
        { "a file", true, "input.cq", 3, 1, 4, 2 },
        { "two\nlines", true, "a b.cq", 1, 1, 1, 1 },
        { "\"quotes\" \\ and {} {0} %s", true, "C:\\x\\{1}.cq", 7, 8, 9, 10 },
        { "", false, std::nullopt, 0, 0, 0, 0 },
        { "caf\xc3\xa9 \xe2\x82\xac", true, "caf\xc3\xa9.cq", 4294967295u, 4294967295u, 4294967295u, 4294967295u },
        { ",", true, std::nullopt, 0, 0, 0, 0 },
        { "]}", false, std::nullopt, 0, 0, 0, 0 },
        { "ends with a line end\n", true, "<unknown file name>", 2, 2, 2, 3 },
        { std::string(2000, 'm'), true, "f", 12, 34, 56, 78 },
    };
    return r;
}

Error real_error(size_t k) {
    const auto& s = samples()[k];
    if (!s.located) return Error{ s.message };
    return Error{ s.message, s.file, Range{ { s.l1, s.c1 }, { s.l2, s.c2 } } };
}

std::string expected_text(size_t k) {
    const auto& s = samples()[k];
    std::string r = "Error";
    if (s.located) r += " at " + model::Location{ s.file, s.l1, s.c1, s.l2, s.c2 }.text();
    return r + ": " + (s.message.empty() ? "<unknown error message>" : s.message);
}

const std::vector<std::string>& trees() {
    static const std::vector<std::string> r{
        "version 3",
        "version 3.0; qubit q; X q",
        "version 3.0\nqubit[3] q\nbit[2] b\nRx(1.5) q[0:1]\nb = measure q[0,2]\nasm(x) '''{}\xc3\xa9'''\n",
        "version 3.0; bit[9] b; bit c; qubit z; ctrl.pow(0.5).inv.X z, z; wait(3) z; barrier z; reset z",
    };
    return r;
}

template <class R>
struct Kind;
template <>
struct Kind<ParseResult> {
    static ParseResult tree(size_t k) { return cqasm::v3x::parser::parse_string(trees()[k], "input.cq"); }
};
template <>
struct Kind<AnalysisResult> {
    static AnalysisResult tree(size_t k) { return real::fresh().analyze_string(trees()[k], "input.cq"); }
};

/// a JSON value, whatever its blanks
std::string plain(const json::Value& v) {
    std::string r;
    switch (v.kind) {
        case json::Value::NUL: return "null";
        case json::Value::BOOL: return v.boolean ? "true" : "false";
        case json::Value::NUMBER: return v.text;
        case json::Value::STRING: return mc::quote(v.text);
        case json::Value::ARRAY:
            for (auto& i : v.items) r += plain(i) + ",";
            return "[" + r + "]";
        default:
            for (auto& [k, m] : v.members) r += mc::quote(k) + ":" + plain(m) + ",";
            return "{" + r + "}";
    }
}

/// what the forms of a result say
template <class R>
void forms(mc::Run& run, const R& r, const std::vector<std::string>& texts, const std::vector<std::string>& jsons) {
    const auto strings = r.to_strings();
    mc::same_value("number of strings", static_cast<long long>(texts.size() + 1), static_cast<long long>(strings.size()));
    for (size_t k = 0; k < texts.size(); ++k) mc::same("string " + std::to_string(k + 1), texts[k], strings[k + 1]);
    const auto text = r.to_json();
    if (texts.empty()) {
        MC_REQUIRE(!strings[0].empty(), "no tree although there is no error");
        mc::same("the tree", ::tree::base::serialize(r.root), strings[0]);
        std::ostringstream os;
        r.root->dump_json(os);
        mc::same("the JSON form of the tree", os.str(), text);
    } else {
        mc::same("the tree, when there are errors", "", strings[0]);
        json::Value j;
        try {
            j = json::parse(text);
        } catch (const std::exception& x) {
            mc::fail("the JSON form " + mc::clip(mc::quote(text)) + " is not valid JSON: " + x.what());
        }
        MC_REQUIRE(j.kind == json::Value::OBJECT && j.members.size() == 1 && j.find("errors") && j.at("errors").kind == json::Value::ARRAY, "the JSON form is no object with a list of errors");
        mc::same_value("number of errors in the JSON form", static_cast<long long>(jsons.size()), static_cast<long long>(j.at("errors").items.size()));
        // in order, and each as the error itself puts it
        for (size_t k = 0; k < jsons.size(); ++k) mc::same("JSON form of error " + std::to_string(k + 1), plain(json::parse(jsons[k])), plain(j.at("errors").items[k]));
    }
    run.step();
}

std::string lines(const std::vector<std::string>& texts) {
    std::string r;
    for (auto& t : texts) r += (&t == &texts[0] ? "" : "\n") + t;
    return r;
}

void unwrap(const ParseResult&, const std::vector<std::string>&) {}
void unwrap(const AnalysisResult& r, const std::vector<std::string>& texts) {
    for (int mode = 0; mode < 2; ++mode) {
        std::ostringstream os;
        os << "before;";
        auto* old = mode ? std::cerr.rdbuf(os.rdbuf()) : nullptr;
        std::string how = "returned";
        cqasm::v3x::analyzer::Root root;
        try {
            root = mode ? r.unwrap() : r.unwrap(os);
        } catch (const AnalysisFailed& e) {
            how = std::string("failed: ") + (dynamic_cast<const std::runtime_error*>(&e) ? e.what() : "?");
        } catch (const std::exception& e) {
            how = std::string("something else: ") + e.what();
        }
        if (mode) std::cerr.rdbuf(old);
        if (texts.empty()) {
            mc::same("unwrap", "returned", how);
            mc::same("what unwrap writes", "before;", os.str());
            MC_REQUIRE(root.get_ptr() == r.root.get_ptr() || (!root.empty() && root.equals(r.root)), "unwrap gives another tree");
        } else {
            mc::same("unwrap", "failed: cQASM analysis failed", how);
            const auto expected = "before;" + lines(texts);
            if (os.str() != expected + "\n") mc::same("what unwrap writes", expected, os.str());
        }
    }
}

template <class R>
void ask(mc::Run& run, const R& r, const std::vector<std::string>& texts, const std::vector<std::string>& jsons) {
    const auto* tree = r.root.get_ptr().get();
    forms(run, r, texts, jsons);
    unwrap(r, texts);
    forms(run, r, texts, jsons);
    MC_REQUIRE(r.root.get_ptr().get() == tree, "asking replaces the tree");
    mc::same_value("number of errors after asking", static_cast<long long>(texts.size()), static_cast<long long>(r.errors.size()));
}

/// a result, and what it is expected to say
template <class R>
struct Both {
    R real;
    std::vector<size_t> errors;
    bool tree = false;

    void check(mc::Run& run) const {
        if (!tree && errors.empty()) return;  // no result of anything
        std::vector<std::string> texts, jsons;
        for (auto k : errors) {
            texts.push_back(expected_text(k));
            jsons.push_back(real_error(k).to_json());
        }
        ask(run, real, texts, jsons);
        run.visit(std::to_string(tree) + lines(texts));
    }
};

/// operations: 0-9a errors are added, - one is taken away, ^ all are, t u v w the tree is set, x it is taken away,
/// c continue on a copy, m on one it was moved to, s on one it was assigned to, ? ask
template <class R>
void history(mc::Run& run, const std::string& ops) {
    Both<R> b;
    for (char o : ops) {
        if (o >= '0' && o <= '9') {
            b.real.errors.push_back(real_error(static_cast<size_t>(o - '0')));
            b.errors.push_back(static_cast<size_t>(o - '0'));
        } else if (o == 'a') {
            b.real.errors.push_back(real_error(10));
            b.errors.push_back(10);
        } else if (o == '-') {
            if (b.errors.empty()) return;
            b.real.errors.pop_back();
            b.errors.pop_back();
        } else if (o == '^') {
            b.real.errors.clear();
            b.errors.clear();
        } else if (o == 'x') {
            b.real.root.reset();
            b.tree = false;
        } else if (o == 'c') {
            const Both<R> d = b;
            b.real.errors.clear();
            b.real.root.reset();
            d.check(run);
            b = d;
        } else if (o == 'm') {
            Both<R> d = std::move(b);
            b = std::move(d);
        } else if (o == 's') {
            Both<R> d;
            d.real = Kind<R>::tree(1);
            d.real.errors.push_back(real_error(0));
            d = b;
            b = d;
        } else if (o == '?') {
            b.check(run);
        } else {
            b.real.root = Kind<R>::tree(static_cast<size_t>(o - 't')).root;
            b.tree = true;
        }
    }
    b.check(run);
}

template <class R>
void real_result(mc::Run& run, const R& r) {
    std::vector<std::string> texts, jsons;
    for (auto& e : r.errors) {
        texts.emplace_back(e.what());
        jsons.push_back(e.to_json());
    }
    ask(run, r, texts, jsons);
    run.visit(lines(texts));
}

void check(mc::Run& run, const std::string& text) {
    const auto f = space::unpack(text);
    if (f[0] == "parse") {
        history<ParseResult>(run, f[1]);
    } else if (f[0] == "analyze") {
        history<AnalysisResult>(run, f[1]);
    } else {
        const auto p = cqasm::v3x::parser::parse_string(f[1], f[2].empty() ? lang::File{} : lang::File{ f[2] });
        real_result(run, p);
        real_result(run, real::fresh().analyze(p));
    }
}

void enumerate(mc::Run& run) {
    auto put = [&](const std::string& ops) {
        run.one(space::pack({ "parse", ops }));
        run.one(space::pack({ "analyze", ops }));
    };
    const auto errors = space::letters("0123456789a");
    // all short lists of errors, with and without a tree
    for (auto* tree : { "", "t", "u", "v", "w" }) {
        for (size_t n = 0; n <= (*tree && *tree != 'u' ? 2u : run.thorough ? 4u : 3u); ++n) space::words(errors, n, [&](const std::string& s) { put(tree + s); });
    }
    for (size_t n = 4; n <= (run.thorough ? 9u : 7u); ++n) space::words(space::letters("137"), n, [&](const std::string& s) { put(s); });
    for (size_t n : { 10, 31, 32, 33, 64, 100, 255, 256, 257, 1000 }) {
        std::string s;
        for (size_t k = 0; k < n; ++k) s += errors[k * 7 % 11];
        put(s);
        put("u" + s);
    }
    // all histories
    const auto ops = space::letters("04-^tvxcms?");
    for (size_t n = 1; n <= (run.thorough ? 5u : 4u); ++n) space::words(ops, n, put);
    for (size_t n = (run.thorough ? 6u : 5u); n <= (run.thorough ? 8u : 7u); ++n) space::words(space::letters("1-t?c"), n, put);
    // real results
    auto text = [&](const std::string& s) {
        for (auto* file : { "", "input.cq" }) run.one(space::pack({ "text", s, file }));
    };
    auto all = pool::statements();
    all.insert(all.end(), pool::more().begin(), pool::more().end());
    for (auto& x : all) {
        text(pool::program("3.0", { x }));
        for (auto& y : all) text(pool::program("3.0", { "qubit[2] q", "bit[2] b", x, y }));
    }
    for (auto& statements : layout::programs()) {
        std::string s = "version 3.0";
        for (auto& x : statements) s += "\n" + x;
        text(s);
        for (size_t k = 0; k < s.size(); ++k) {
            if (s.size() < 60 || run.thorough) {
                text(s.substr(0, k));
                text(s.substr(0, k) + "$" + s.substr(k));
            }
        }
    }
    for (size_t n : { 2, 3, 5, 10, 100, 1000 }) {
        std::vector<std::string> v;
        for (size_t k = 0; k < n; ++k) v.push_back(k % 3 ? "X q" + std::to_string(k) : "Rx(b) 5");
        text(pool::program("3.0", v));
    }
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
