// What the checks of the language share: comparing a program text with the reference model, and programs to start from.
#pragma once

#include "real.hpp"
#include "space.hpp"

namespace lang {

using File = std::optional<std::string>;

/// parses the text and compares with the model; the model's and the real result
struct Both {
    ref::Parsed model;
    cqasm::v3x::parser::ParseResult real;
    bool accepted = false;
};

inline Both parse(mc::Run& run, const std::string& text, const real::Want& want = {}, const File& file = "input.cq") {
    Both r;
    r.model = ref::parse(text);
    r.real = cqasm::v3x::parser::parse_string(text, file);
    run.step();
    r.accepted = real::same_parse(text, r.model, r.real, file && file->empty() ? std::nullopt : file, want);
    run.visit(r.model.problem ? r.model.problem->kind : ref::dump(*r.model.program, false));
    return r;
}

/// parses and analyses; true if both accept
inline bool analyze(mc::Run& run, const std::string& text, const real::Want& want = {}, const File& file = "input.cq") {
    auto both = parse(run, text, want, file);
    if (!both.accepted) return false;
    const auto m = ref::analyze(*both.model.program);
    auto a = real::fresh();
    const auto r = a.analyze(both.real);
    run.step();
    const bool ok = real::same_analysis(m, r, file && file->empty() ? std::nullopt : file, want);
    run.visit(ref::dump(m.program, false) + std::to_string(m.errors.size()));
    return ok;
}

/// every form of statement, as tokens separated by single blanks
inline const std::vector<std::string>& forms() {
    static const std::vector<std::string> r{
        "qubit q",
        "qubit [ 3 ] q",
        "bit b",
        "bit [ 5 ] b",
        "X q",
        "Rx ( pi / 2 ) q",
        "CNOT q [ 0 ] , q [ 1 ]",
        "Rn ( 1 , 0 , 0 , pi , 2 ) q [ 0 : 1 , 2 ]",
        "inv . X q",
        "pow ( 1 / 2 ) . X q",
        "ctrl . pow ( 2 ) . Rz ( 1.5 ) q , r",
        "b = measure q",
        "b [ 0 ] = measure ( 1 , 0 , 0 ) q [ 1 ]",
        "reset q",
        "init q [ 1 ]",
        "barrier q",
        "wait ( 3 ) q",
        "asm ( backend ) ''' code '''",
        "X - q + f ( ) ** 2",
        "barrier a ? b : c == d",
        "U ( true , sin ( 1 ) , ! false ) ( q )",
    };
    return r;
}

/// every token of the language
inline const std::vector<std::string>& tokens() {
    static const std::vector<std::string> r{ "version", "measure", "reset", "init", "barrier", "wait", "inv", "pow", "ctrl", "qubit", "bit", "asm", "true",
        "false", "q", "X", "0", "7", "1.5", ".5", "'''t'''", ";", "\n", ":", ",", ".", "=", "[", "]", "(", ")", "+", "-", "~", "!", "**", "*", "/", "%",
        "<<", ">>", ">", "<", ">=", "<=", "==", "!=", "&", "^", "|", "&&", "^^", "||", "?" };
    return r;
}

inline std::vector<std::string> split(const std::string& s) {
    std::vector<std::string> r;
    size_t i = 0;
    while (i < s.size()) {
        if (s[i] == ' ') {
            ++i;
            continue;
        }
        size_t e = i;
        if (s.compare(i, 3, "'''") == 0) {
            e = s.find("'''", i + 3) + 3;
        } else {
            while (e < s.size() && s[e] != ' ') ++e;
        }
        r.push_back(s.substr(i, e - i));
        i = e;
    }
    return r;
}

inline std::string join(const std::vector<std::string>& ts, const std::string& by = " ") {
    std::string r;
    for (size_t k = 0; k < ts.size(); ++k) r += (k ? by : "") + ts[k];
    return r;
}

}  // namespace lang
