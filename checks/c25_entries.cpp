// C25: all entry points give the same answer for the same input.
// Explored: a pool of valid, invalid and unparsable texts, times every entry point, times names of files; missing files;
// analyzers put together by registrations, through both interfaces; sequences of calls on one object.
#include <unistd.h>

#include <filesystem>

#include "emscripten_wrapper.hpp"
#include "json_reader.hpp"
#include "lang.hpp"
#include "layout.hpp"
#include "libqasm/v3x/cqasm.hpp"
#include "libqasm/v3x/cqasm_python.hpp"
#include "model_location.hpp"

namespace {

namespace parser = cqasm::v3x::parser;
using cqasm::error::Error;
using cqasm::v3x::analyzer::AnalysisFailed;
using cqasm::v3x::analyzer::AnalysisResult;
using cqasm::v3x::analyzer::Analyzer;
using cqasm::v3x::parser::ParseResult;
using lang::File;
using Range = cqasm::annotations::SourceLocation::Range;

std::string plain(const json::Value& v) {
    std::string r;
    switch (v.kind) {
        case json::Value::NUL: return "null";
        case json::Value::BOOL: return v.boolean ? "true" : "false";
        case json::Value::NUMBER: return v.text;
        case json::Value::STRING: return mc::quote(v.text);
        case json::Value::ARRAY:
            for (auto& i : v.items) r += plain(i) + ",";
            return "[" + r + "]";
        default:
            for (auto& [k, m] : v.members) r += mc::quote(k) + ":" + plain(m) + ",";
            return "{" + r + "}";
    }
}

std::string plain(const std::string& text) {
    try {
        return plain(json::parse(text));
    } catch (const std::exception& x) {
        mc::fail("not valid JSON (" + std::string(x.what()) + "): " + mc::clip(text));
    }
}

/// an answer, apart from the name of the file
struct Answer {
    std::string tree;
    std::function<std::string(const File&)> tree_json;  // has the name of the file in its locations
    struct Item {
        bool located;
        real::Err err;
    };
    std::vector<Item> errors;

    explicit Answer(const cqasm::error::ParseErrors& es) {
        for (auto& e : es) errors.push_back({ std::string_view(e.what()).starts_with("Error at "), real::error(e) });
    }
    [[nodiscard]] bool ok() const { return errors.empty(); }
    [[nodiscard]] std::string text(size_t k, const File& file) const {
        const auto& e = errors[k];
        const auto& l = e.err.loc;
        const auto r = "Error" + (e.located ? " at " + model::Location{ file, l.l1, l.c1, l.l2, l.c2 }.text() : std::string()) + ": " + e.err.message;
        return r.c_str();  // up to a zero
    }
    [[nodiscard]] std::string json(const File& file) const {
        if (ok()) return tree_json(file);
        std::string r;
        for (auto& e : errors) {
            const auto& l = e.err.loc;
            const auto error = e.located ? Error{ e.err.message, file, Range{ { l.l1, l.c1 }, { l.l2, l.c2 } } } : Error{ e.err.message };
            r += (r.empty() ? "" : ",") + error.to_json();
        }
        return plain("{\"errors\":[" + r + "]}");
    }
};

template <class R>
std::string dump_json(const R& r) {
    std::ostringstream os;
    r.root->dump_json(os);
    return os.str();
}

Answer parsing(const std::string& text, const ParseResult& r) {
    Answer a{ r.errors };
    if (r.errors.empty()) a.tree = ::tree::base::serialize(r.root);
    a.tree_json = [text](const File& f) { return dump_json(parser::parse_string(text, f)); };
    return a;
}

Answer analysing(const std::string& text, const AnalysisResult& r, const std::function<Analyzer()>& make = real::fresh) {
    Answer a{ r.errors };
    if (r.errors.empty()) a.tree = ::tree::base::serialize(r.root);
    a.tree_json = [text, make](const File& f) { return dump_json(make().analyze(parser::parse_string(text, f))); };
    return a;
}

void same_strings(const std::string& who, const Answer& a, const File& file, const std::vector<std::string>& got) {
    mc::same_value(who + ": number of strings", static_cast<long long>(a.errors.size() + 1), static_cast<long long>(got.size()));
    mc::same(who + ": the tree", a.tree, got[0]);
    for (size_t k = 0; k < a.errors.size(); ++k) mc::same(who + ": error " + std::to_string(k + 1), a.text(k, file), got[k + 1]);
}

void same_json(const std::string& who, const Answer& a, const File& file, const std::string& got) {
    if (a.ok()) {
        mc::same(who + ": the tree", a.tree_json(file), got);
    } else {
        mc::same(who + ": the errors", a.json(file), plain(got));
    }
}

template <class R>
void same_result(const std::string& who, const Answer& a, const File& file, const R& r) {
    mc::same_value(who + ": number of errors", static_cast<long long>(a.errors.size()), static_cast<long long>(r.errors.size()));
    for (size_t k = 0; k < a.errors.size(); ++k) mc::same(who + ": error " + std::to_string(k + 1), a.text(k, file), r.errors[k].what());
    if (a.ok()) mc::same(who + ": the tree", a.tree, ::tree::base::serialize(r.root));
    same_strings(who + ", as strings", a, file, r.to_strings());
    same_json(who + ", as JSON", a, file, r.to_json());
}

/// an entry point that gives the tree, or writes the errors to the standard error stream and throws
template <class F>
void same_unwrapped(const std::string& who, const Answer& a, const File& file, F call) {
    std::ostringstream os;
    auto* old = std::cerr.rdbuf(os.rdbuf());
    std::string how, tree;
    try {
        const auto root = call();
        how = "returned";
        if (!root.empty()) tree = ::tree::base::serialize(root);
    } catch (const AnalysisFailed&) {
        how = "failed";
    } catch (const std::exception& e) {
        how = std::string("threw: ") + e.what();
    }
    std::cerr.rdbuf(old);
    mc::same(who, a.ok() ? "returned" : "failed", how);
    mc::same(who + ": the tree", a.tree, tree);
    std::string expected;
    for (size_t k = 0; k < a.errors.size(); ++k) expected += (k ? "\n" : "") + a.text(k, file);
    if (os.str() != expected + "\n") mc::same(who + ": what is written", expected, os.str());
}

struct Written {
    std::string path;
    Written(const std::string& directory, const std::string& name, const std::string& text) {
        const auto d = "d" + std::to_string(getpid()) + directory;
        std::filesystem::create_directories(d);
        path = d + "/" + name;
        std::ofstream(path, std::ios::binary) << text;
    }
    ~Written() { std::filesystem::remove(path); }
};

std::string web(const std::string& name, const std::string& text, const std::string& file) {
    EmscriptenWrapper w;
    const auto& b = emscripten::bound();
    const auto it = b.find(name);
    MC_REQUIRE(it != b.end(), "the web interface has no " + name);
    if (auto* f = std::any_cast<std::function<std::string(EmscriptenWrapper&, const std::string&, const std::string&)>>(&it->second)) return (*f)(w, text, file);
    // bound in some other way: ask directly
    return name == "parse_string_to_json" ? w.parse_string_to_json(text, file) : w.analyze_string_to_json(text, file);
}

void all_entries(mc::Run& run, const std::string& text, const File& given, const std::string& disk_name) {
    const auto base_parse = parser::parse_string(text, std::nullopt);
    const auto p = parsing(text, base_parse);
    const auto base_analysis = real::fresh().analyze(base_parse);
    const auto a = analysing(text, base_analysis);
    run.visit(p.tree + a.tree + std::to_string(a.errors.size()) + (a.ok() ? "" : a.text(0, std::nullopt)));
    MC_REQUIRE(base_parse.root.empty() == !p.ok(), "neither, or both, a tree and an error");
    // parse errors reach the analysis result as they are, without a tree
    if (!p.ok()) {
        MC_REQUIRE(base_analysis.root.empty(), "there is a semantic tree although there are parse errors");
        same_result("analysis of a parse result with errors", p, std::nullopt, base_analysis);
    }
    same_result("the result of parsing", p, std::nullopt, base_parse);
    same_result("the result of analysing", a, std::nullopt, base_analysis);

    const File file = given && given->empty() ? std::nullopt : given;  // what is reported
    const std::string name = given.value_or("");
    // ---- from a string
    const auto parsed = parser::parse_string(text, given);
    same_result("parse_string", p, file, parsed);
    if (p.ok()) mc::same("parse_string: the tree with locations", ref::dump(real::convert(base_parse, std::nullopt), true), ref::dump(real::convert(parsed, file), true));
    same_result("analyze", a, file, real::fresh().analyze(parsed));
    const auto analyzed = real::fresh().analyze_string(text, given);
    same_result("Analyzer::analyze_string", a, file, analyzed);
    if (a.ok()) mc::same("analyze_string: the tree with locations", ref::dump(real::convert(base_analysis, std::nullopt), true), ref::dump(real::convert(analyzed, file), true));
    same_result("Analyzer::analyze_string of the default analyzer", a, file, cqasm::v3x::default_analyzer().analyze_string(text, given));
    if (p.ok()) same_result("Analyzer::analyze of a tree", a, file, real::fresh().analyze(*parsed.root->as_program()));
    same_unwrapped("analyze_string", a, file, [&] { return cqasm::v3x::analyze_string(text, given); });
    same_unwrapped("analyze_string with a version", a, file, [&] { return cqasm::v3x::analyze_string(text, given, "3.0"); });
    same_strings("V3xAnalyzer::parse_string", p, file, V3xAnalyzer::parse_string(text, name));
    same_json("V3xAnalyzer::parse_string_to_json", p, file, V3xAnalyzer::parse_string_to_json(text, name));
    V3xAnalyzer one;
    same_strings("V3xAnalyzer::analyze_string", a, file, one.analyze_string(text, name));
    same_json("V3xAnalyzer::analyze_string_to_json", a, file, one.analyze_string_to_json(text, name));
    if (!file) {
        same_strings("V3xAnalyzer::parse_string without a name", p, file, V3xAnalyzer::parse_string(text));
        same_json("V3xAnalyzer::parse_string_to_json without a name", p, file, V3xAnalyzer::parse_string_to_json(text));
        same_strings("V3xAnalyzer::analyze_string without a name", a, file, one.analyze_string(text));
        same_json("V3xAnalyzer::analyze_string_to_json without a name", a, file, one.analyze_string_to_json(text));
    }
    same_json("the web's parse_string_to_json", p, file, web("parse_string_to_json", text, name));
    same_json("the web's analyze_string_to_json", a, file, web("analyze_string_to_json", text, name));
    run.step();
    // ---- from a file
    const Written disk{ "", disk_name, text };
    const auto file_parsed = parser::parse_file(disk.path, given);
    same_result("parse_file", p, file, file_parsed);
    if (p.ok()) mc::same("parse_file: the tree with locations", ref::dump(real::convert(base_parse, std::nullopt), true), ref::dump(real::convert(file_parsed, file), true));
    const auto file_analyzed = real::fresh().analyze_file(disk.path);
    same_result("Analyzer::analyze_file", a, disk.path, file_analyzed);
    if (a.ok()) mc::same("analyze_file: the tree with locations", ref::dump(real::convert(base_analysis, std::nullopt), true), ref::dump(real::convert(file_analyzed, disk.path), true));
    same_unwrapped("analyze_file", a, std::nullopt, [&] { return cqasm::v3x::analyze_file(disk.path); });
    same_strings("V3xAnalyzer::parse_file", p, std::nullopt, V3xAnalyzer::parse_file(disk.path));
    same_json("V3xAnalyzer::parse_file_to_json", p, std::nullopt, V3xAnalyzer::parse_file_to_json(disk.path));
    same_strings("V3xAnalyzer::analyze_file", a, std::nullopt, one.analyze_file(disk.path));
    same_json("V3xAnalyzer::analyze_file_to_json", a, std::nullopt, one.analyze_file_to_json(disk.path));
    run.step();
}

/// every way to ask for a file that is none: the same exception
void no_file(mc::Run& run, const std::string& path) {
    std::string first;
    V3xAnalyzer one;
    auto a = real::fresh();
    const std::vector<std::pair<std::string, std::function<void()>>> ways{
        { "parse_file", [&] { parser::parse_file(path, std::nullopt); } },
        { "parse_file with a name", [&] { parser::parse_file(path, "name.cq"); } },
        { "Analyzer::analyze_file", [&] { a.analyze_file(path); } },
        { "analyze_file", [&] { cqasm::v3x::analyze_file(path); } },
        { "V3xAnalyzer::parse_file", [&] { V3xAnalyzer::parse_file(path); } },
        { "V3xAnalyzer::parse_file_to_json", [&] { V3xAnalyzer::parse_file_to_json(path); } },
        { "V3xAnalyzer::analyze_file", [&] { one.analyze_file(path); } },
        { "V3xAnalyzer::analyze_file_to_json", [&] { one.analyze_file_to_json(path); } },
    };
    for (auto& [who, call] : ways) {
        std::string what = "(nothing)";
        try {
            call();
        } catch (const cqasm::error::ParseError& e) {
            what = e.what();
        } catch (const std::exception& e) {
            what = std::string("another exception: ") + e.what();
        }
        if (first.empty()) {
            first = what;
            MC_REQUIRE(what.starts_with("Error: ") && what.find(path) != std::string::npos, who + " of a file that is none: " + what);
        }
        mc::same(who + " of a file that is none", first, what);
        run.step();
    }
    // and the analyzers are as good as before
    same_strings("V3xAnalyzer::analyze_string afterwards", analysing("", real::fresh().analyze_string("version 3; qubit q; X q", std::nullopt)), std::nullopt, one.analyze_string("version 3; qubit q; X q"));
}

const std::vector<std::pair<std::string, std::optional<std::string>>>& registrations() {
    static const std::vector<std::pair<std::string, std::optional<std::string>>> r{ { "X", "Q" }, { "X", "V" }, { "X", "B" }, { "CNOT", "QV" }, { "reset", "Q" }, { "reset", "" },
        { "reset", std::nullopt }, { "H", std::nullopt }, { "Rx", "Q" }, { "barrier", "W" }, { "measure", "BQ" } };
    return r;
}

/// analyzers put together through both interfaces
void configured(mc::Run& run, bool without, const std::string& word, const std::string& text) {
    V3xAnalyzer one{ "3.0", without };
    Analyzer other{ "3.0" };
    other.register_default_constants();
    other.register_default_functions();
    if (!without) other.register_default_instructions();
    for (char c : word) {
        const auto& [name, types] = registrations()[static_cast<size_t>(c - 'a')];
        std::string how[2];
        try {
            one.register_instruction(name, types);
        } catch (const std::exception& e) {
            how[0] = e.what();
        }
        try {
            other.register_instruction(name, types);
        } catch (const std::exception& e) {
            how[1] = e.what();
        }
        mc::same("registering " + name, how[1], how[0]);
    }
    const auto r = other.analyze_string(text, "f.cq");
    const auto a = analysing(text, r, [other] { return other; });
    run.visit(a.tree + (a.ok() ? "" : a.text(0, std::nullopt)));
    same_strings("V3xAnalyzer::analyze_string", a, "f.cq", one.analyze_string(text, "f.cq"));
    same_json("V3xAnalyzer::analyze_string_to_json", a, "f.cq", one.analyze_string_to_json(text, "f.cq"));
    const Written disk{ "", "c.cq", text };
    same_strings("V3xAnalyzer::analyze_file", a, std::nullopt, one.analyze_file(disk.path));
    same_json("V3xAnalyzer::analyze_file_to_json", a, std::nullopt, one.analyze_file_to_json(disk.path));
    same_result("Analyzer::analyze_file", a, disk.path, other.analyze_file(disk.path));
    run.step();
}

/// which versions the entry points take
void version(mc::Run& run, const std::string& v) {
    const std::string text = "version 3; qubit q; X q";
    const Written disk{ "", "v.cq", text };
    const std::vector<std::pair<std::string, std::function<void()>>> ways{
        { "Analyzer", [&] { Analyzer{ v }; } },
        { "default_analyzer", [&] { cqasm::v3x::default_analyzer(v); } },
        { "V3xAnalyzer", [&] { V3xAnalyzer{ v }; } },
        { "V3xAnalyzer without defaults", [&] { V3xAnalyzer{ v, true }; } },
        { "analyze_string", [&] { cqasm::v3x::analyze_string(text, std::nullopt, v); } },
        { "analyze_file", [&] { cqasm::v3x::analyze_file(disk.path, v); } },
    };
    std::string first;
    for (auto& [who, call] : ways) {
        std::string what = "(nothing)";
        try {
            call();
        } catch (const std::exception& e) {
            what = std::string("an exception: ") + e.what();
        }
        if (first.empty()) first = what;
        mc::same(who + " for version " + v, first, what);
        run.step();
    }
    // 3.0, however it is written
    const auto dot = v.find('.');
    const bool three = std::stoi(v) == 3 && (dot == std::string::npos || v.substr(dot).find_first_not_of(".0") == std::string::npos);
    mc::same("whether the version is taken", three ? "(nothing)" : "an exception", first.substr(0, first.find(": ")));
}

/// a sequence of calls on one object: each answers as on its own
void calls(mc::Run& run, const std::string& word) {
    static const std::vector<std::string> texts{ "version 3; qubit q; X q", "version 3; bit q; X q", "version 3; qubit", "version 3; X q; qubit q; qubit q" };
    static const std::vector<Answer> parses = [] {
        std::vector<Answer> r;
        for (auto& t : texts) r.push_back(parsing(t, parser::parse_string(t, std::nullopt)));
        return r;
    }();
    static const std::vector<Answer> analyses = [] {
        std::vector<Answer> r;
        for (auto& t : texts) r.push_back(analysing(t, real::fresh().analyze_string(t, std::nullopt)));
        return r;
    }();
    V3xAnalyzer one;
    auto other = real::fresh();
    for (char c : word) {
        const auto t = static_cast<size_t>(c - 'a') % 4;
        const auto& text = texts[t];
        const auto& p = parses[t];
        const auto& a = analyses[t];
        const std::string f = "f" + std::to_string(t);
        const Written disk{ "", "s.cq", text };
        switch ((c - 'a') / 4) {
            case 0: same_strings("V3xAnalyzer::analyze_string", a, f, one.analyze_string(text, f)); break;
            case 1: same_json("V3xAnalyzer::analyze_file_to_json", a, std::nullopt, one.analyze_file_to_json(disk.path)); break;
            case 2: same_strings("V3xAnalyzer::parse_file", p, std::nullopt, one.parse_file(disk.path)); break;
            case 3: same_result("Analyzer::analyze_string", a, f, other.analyze_string(text, f)); break;
            case 4: same_result("Analyzer::analyze_file", a, disk.path, other.analyze_file(disk.path)); break;
            default: same_json("the web's analyze_string_to_json", a, f, web("analyze_string_to_json", text, f)); break;
        }
        run.step();
    }
    run.visit(word);
}

void check(mc::Run& run, const std::string& text) {
    const auto f = space::unpack(text);
    if (f[0] == "text") {
        all_entries(run, f[1], f[2] == "none" ? File{} : File{ f[3] }, f[4]);
    } else if (f[0] == "nofile") {
        no_file(run, f[1]);
    } else if (f[0] == "version") {
        version(run, f[1]);
    } else if (f[0] == "calls") {
        calls(run, f[1]);
    } else {
        configured(run, f[1] == "1", f[2], f[3]);
    }
}

void enumerate(mc::Run& run) {
    auto put = [&](const std::string& text, const File& file, const std::string& disk = "input.cq") {
        run.one(space::pack({ "text", text, file ? "name" : "none", file.value_or(""), disk }));
    };
    const std::vector<File> files{ std::nullopt, "", "input.cq", "/tmp/a b/caf\xc3\xa9\".cq", "<unknown file name>", "{}%20\\n", ":" };
    auto all = pool::statements();
    all.insert(all.end(), pool::more().begin(), pool::more().end());
    // texts of every kind with every name
    std::vector<std::string> texts{ "", " ", "\n", "version", "version 3", "version 3.0\n", "\xef\xbb\xbfversion 3; qubit q", "version 3; qubit q\r\nX q\r\n", "version 3\0; X q", std::string("version 3; qubit q\0", 19),
        "version 3; \xff", "version 3; // caf\xc3\xa9\nqubit q; Y q", "version 3; qubit q; asm(a) '''\n\xe2\x82\xac\n'''", "version 3; qubit q; $", "version 3; /* x", "version 3.0; qubit q; qubit q; X b; X c; Y q",
        "qubit q", "version 3.1; qubit q", "version 4; X", "version 3; qubit q\x1a; X q", "version 3; bit b; b = measure b; qubit[3] q; X q[3]; X q[0:4]", "version 3; pow(1.5).X 1; ctrl.X 2; Rx(1,2) 3; wait(q) q" };
    for (auto& s : all) texts.push_back(pool::program("3.0", { "qubit[2] q", "bit[2] b", s }));
    for (auto& statements : layout::programs()) {
        std::string s = "version 3.0";
        for (auto& x : statements) s += "\n" + x;
        texts.push_back(s);
    }
    for (auto& t : texts) {
        for (auto& f : files) {
            if (&f < &files[3] || t.size() < 40 || run.thorough) put(t, f);
        }
    }
    // names of files on disk
    for (auto& disk : { "a b.cq", "x", "caf\xc3\xa9.cq", "{0}.cq", "%s.txt", "\"quoted\".cq", ".cq", "a.b.c", "back\\slash", "new\nline" }) {
        for (size_t k = 0; k < 22; ++k) put(texts[k], std::nullopt, disk);
    }
    // every text cut off, and with something in it
    for (size_t k = 8; k < 60; ++k) {
        const auto& t = texts[k];
        for (size_t n = 0; n < t.size(); n += run.thorough ? 1 : 3) {
            put(t.substr(0, n), "input.cq");
            if (run.thorough) put(t.substr(0, n) + "}" + t.substr(n), std::nullopt);
        }
    }
    // all pairs of statements
    for (auto& x : pool::statements()) {
        for (auto& y : all) put(pool::program("3.0", { x, y }), "input.cq");
        if (run.thorough) {
            for (auto& y : all) put(pool::program("3", { "qubit[2] q", "bit[3] r", "bit b", y, x, y }), std::nullopt);
        }
    }
    for (auto* path : { "missing.cq", "", ".", "/", "missing/x.cq", "/nonexistent/x.cq", "/dev/null", "/dev/null/x", "a b {} %s.cq", "caf\xc3\xa9.cq" }) run.one(space::pack({ "nofile", path }));
    for (auto* v : { "3.0", "3", "3.1", "2.0", "4.0", "3.0.0", "30", "0", "1.0", "1.2", "3.00", "03.0", "3.0.1", "13.0", "3.01" }) run.one(space::pack({ "version", v }));
    // registrations
    const auto letters = space::letters("abcdefghijk");
    const std::vector<std::string> use{ "version 3; qubit q; X q", "version 3; qubit[2] r; bit b; X r; X b; reset; reset r; H r", "version 3; qubit q; qubit[3] r; CNOT q, r; Rx(1) q; reset q; bit b; b = measure q; barrier b; Rx(pi) b" };
    for (auto* without : { "0", "1" }) {
        for (size_t n = 0; n <= (run.thorough ? 3u : 2u); ++n) {
            space::words(letters, n, [&](const std::string& w) {
                for (auto& u : use) run.one(space::pack({ "configured", without, w, u }));
            });
        }
    }
    // sequences of calls
    const auto call = space::letters("abcdefghijklmnopqrstuvwx");
    for (size_t n = 1; n <= (run.thorough ? 3u : 2u); ++n) space::words(call, n, [&](const std::string& w) { run.one(space::pack({ "calls", w })); });
    for (size_t n = (run.thorough ? 4u : 3u); n <= (run.thorough ? 5u : 4u); ++n) space::words(space::letters("abdnp"), n, [&](const std::string& w) { run.one(space::pack({ "calls", w })); });
}

}  // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, enumerate, check); }
