// Reference model of cQASM 3: an independent lexer, parser and analyzer, written from the language's documentation.
// It builds trees of plain nodes, and their canonical text is compared with that of the real trees (lib/real.hpp).
#pragma once

#include <cmath>
#include <cstdint>
#include <cstring>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace ref {

// ---------------------------------------------------------------------------------------------------- common

struct Loc {
    bool set = false;
    uint32_t l1 = 0, c1 = 0, l2 = 0, c2 = 0;

    [[nodiscard]] std::string text() const {
        return set ? std::to_string(l1) + ":" + std::to_string(c1) + ".." + std::to_string(l2) + ":" + std::to_string(c2) : "-";
    }
    bool operator==(const Loc&) const = default;
};

/// a node of any tree: a head (kind and payload), children, and a location where the language gives it one
struct Node {
    std::string kind, text;
    int64_t i = 0;
    double f = 0;
    bool located = false;  // nodes of this kind carry a location
    Loc loc;
    std::vector<Node> kids;

    [[nodiscard]] bool is(const char* k) const { return kind == k; }
};

inline std::string bits(double d) {
    if (std::isnan(d)) return "nan";
    uint64_t u = 0;
    std::memcpy(&u, &d, 8);
    char b[20];
    std::snprintf(b, sizeof b, "%016llx", static_cast<unsigned long long>(u));
    return b;
}

inline void dump(const Node& n, bool locations, std::string& out) {
    out += '(';
    out += n.kind;
    if (n.kind == "int" || n.kind == "type") {
        out += ' ';
        if (n.kind == "type") out += n.text + ' ';
        out += std::to_string(n.i);
    } else if (n.kind == "float") {
        out += ' ' + bits(n.f);
    } else if (n.kind == "bool") {
        out += n.i ? " true" : " false";
    } else if (!n.text.empty() || n.kind == "asm") {
        out += ' ' + std::to_string(n.text.size()) + ':' + n.text;
    }
    if (n.kind == "asm") {
        // backend name in text, code in the only child
    }
    if (locations && n.located) {
        out += '@';
        out += n.loc.text();
    }
    for (const auto& k : n.kids) {
        out += ' ';
        dump(k, locations, out);
    }
    out += ')';
}

inline std::string dump(const Node& n, bool locations) {
    std::string s;
    dump(n, locations, s);
    return s;
}

/// what an error must say: where, and the words it must name
struct Problem {
    std::string kind;  // encoding, lexical, syntax, range, version, statement
    Loc loc;
    std::vector<std::string> names;
    std::vector<Loc> other;  // equally good locations (when several literals are out of range)
};

// ---------------------------------------------------------------------------------------------------- lexer

struct Token {
    std::string type;  // the text for keywords and signs; id, int, float, bool, raw, number, newline, eof otherwise
    std::string text;
    Loc loc;
    size_t from = 0, to = 0;  // code points
};

inline bool decode(const std::string& s, std::vector<char32_t>& out) {
    for (size_t i = 0; i < s.size();) {
        const auto c = static_cast<unsigned char>(s[i]);
        int n;
        char32_t v;
        if (c < 0x80) { n = 0; v = c; }
        else if (c >= 0xc2 && c < 0xe0) { n = 1; v = c & 31; }
        else if (c >= 0xe0 && c < 0xf0) { n = 2; v = c & 15; }
        else if (c >= 0xf0 && c < 0xf5) { n = 3; v = c & 7; }
        else return false;
        if (i + n >= s.size()) return false;
        for (int k = 1; k <= n; ++k) {
            const auto d = static_cast<unsigned char>(s[i + k]);
            if (d < 0x80 || d > 0xbf) return false;
            v = v * 64 + (d & 63);
        }
        if ((n == 2 && v < 0x800) || (n == 3 && (v < 0x10000 || v > 0x10ffff)) || (v >= 0xd800 && v < 0xe000)) return false;
        out.push_back(v);
        i += n + 1;
    }
    return true;
}

inline std::string encode(const char32_t* a, const char32_t* b) {
    std::string r;
    for (; a != b; ++a) {
        char32_t c = *a;
        if (c < 0x80) r += char(c);
        else if (c < 0x800) { r += char(0xc0 | c >> 6); r += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { r += char(0xe0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
        else { r += char(0xf0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
    }
    return r;
}

struct Lexed {
    bool decoded = true;
    std::vector<Token> tokens;      // up to the first problem; ends with eof if there is none
    std::optional<Problem> problem;
    uint32_t lines = 1;
    std::vector<uint32_t> columns;  // number of columns of each line
};

class Lexer {
    std::vector<char32_t> s;
    size_t p = 0;
    uint32_t line = 1, col = 1;

    [[nodiscard]] char32_t at(size_t i) const { return i < s.size() ? s[i] : 0xffffffff; }
    static bool digit(char32_t c) { return c >= '0' && c <= '9'; }
    static bool letter(char32_t c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
    [[nodiscard]] size_t digits(size_t i) const {
        while (digit(at(i))) ++i;
        return i;
    }
    [[nodiscard]] size_t exponent(size_t i) const {
        if (at(i) != 'e' && at(i) != 'E') return i;
        size_t k = i + 1;
        if (at(k) == '+' || at(k) == '-') ++k;
        return digit(at(k)) ? digits(k) : i;
    }
    [[nodiscard]] bool starts(size_t i, const char* t) const {
        for (; *t; ++t, ++i) {
            if (at(i) != static_cast<unsigned char>(*t)) return false;
        }
        return true;
    }

public:
    Lexed run(const std::string& text) {
        Lexed r;
        std::string body = text;
        if (body.compare(0, 3, "\xef\xbb\xbf") == 0) body.erase(0, 3);
        if (!decode(body, s)) {
            r.decoded = false;
            r.problem = Problem{ "encoding", {}, {}, {} };
            return r;
        }
        static const char* const signs[] = { "**", "<<", ">>", ">=", "<=", "==", "!=", "&&", "^^", "||", ";", ":", ",", ".", "=", "[", "]",
            "(", ")", "+", "-", "~", "!", "*", "/", "%", ">", "<", "&", "^", "|", "?" };
        static const std::set<std::string> keywords{ "version", "measure", "reset", "init", "barrier", "wait", "inv", "pow", "ctrl", "qubit",
            "bit", "asm" };
        bool version = false;
        while (p < s.size()) {
            size_t e = p;
            std::string type;
            const char32_t c = at(p);
            if (c == ' ' || c == '\t') {
                while (at(e) == ' ' || at(e) == '\t') ++e;
                type = "skip";
            } else if (version) {
                if (digit(c)) {
                    e = digits(p);
                    if (at(e) == '.' && digit(at(e + 1))) e = digits(e + 1);
                    type = "number";
                    version = false;
                }
            } else if (starts(p, "//")) {
                while (e < s.size() && at(e) != '\n' && at(e) != '\r') ++e;
                type = "skip";
            } else if (starts(p, "/*")) {
                e = p + 2;
                while (e < s.size() && !starts(e, "*/")) ++e;
                if (e < s.size()) {
                    e += 2;
                    type = "skip";
                } else {
                    e = p + 1;  // never closed: a division, then a product
                    type = "/";
                }
            } else if (c == '\n' || starts(p, "\r\n")) {
                e = p + (c == '\n' ? 1 : 2);
                type = "newline";
            } else if (digit(c) || (c == '.' && digit(at(p + 1)))) {
                e = digits(p);
                type = "int";
                if (at(e) == '.') {
                    e = exponent(digits(e + 1));
                    type = "float";
                }
            } else if (letter(c)) {
                while (letter(at(e)) || digit(at(e))) ++e;
                type = encode(s.data() + p, s.data() + e);
                if (type == "true" || type == "false") type = "bool";
                else if (!keywords.count(type)) type = "id";
                version = type == "version";
            } else if (starts(p, "'''")) {
                e = p + 3;
                while (e < s.size() && !starts(e, "'''")) ++e;
                if (e < s.size()) {
                    e += 3;
                    type = "raw";
                } else {
                    e = p + 3;
                    type = "'''";
                }
            } else {
                for (const char* g : signs) {
                    if (starts(p, g)) {
                        type = g;
                        e = p + std::strlen(g);
                        break;
                    }
                }
            }
            if (type.empty()) {
                r.problem = Problem{ "lexical", { true, line, col, line, col }, {}, {} };
                break;
            }
            const auto n = static_cast<uint32_t>(e - p);
            if (type != "skip") {
                r.tokens.push_back({ type, encode(s.data() + p, s.data() + e), { true, line, col, line, col + n }, p, e });
            }
            for (; p < e; ++p) {
                if (s[p] == '\n') {
                    ++line;
                    col = 1;
                } else {
                    ++col;
                }
            }
        }
        if (!r.problem) {
            r.tokens.push_back({ "eof", "", { true, line, col, line, col }, p, p });
        }
        r.columns.push_back(1);
        for (char32_t c : s) {
            if (c == '\n') r.columns.push_back(1);
            else ++r.columns.back();
        }
        r.lines = static_cast<uint32_t>(r.columns.size());
        return r;
    }
};

// ---------------------------------------------------------------------------------------------------- parser

struct Parsed {
    std::optional<Node> program;
    std::optional<Problem> problem;
    Lexed lexed;
};

class Parser {
    struct Bad {};
    const std::vector<Token>& t;
    size_t p = 0, furthest = 0;

    [[nodiscard]] const std::string& look(size_t k = 0) const {
        static const std::string none = "none";
        return p + k < t.size() ? t[p + k].type : none;
    }
    const Token& take() {
        const Token& r = t[p++];
        return r;
    }
    const Token& want(const char* type) {
        if (look() != type) throw Bad{};
        return take();
    }
    static Node located(const char* kind, const std::string& text, const Token& k) {
        Node n{ kind, text };
        n.located = true;
        n.loc = k.loc;
        return n;
    }
    void separators() {
        while (look() == "newline" || look() == ";") ++p;
    }
    [[nodiscard]] bool starts_expression() const {
        const auto& k = look();
        return k == "(" || k == "+" || k == "-" || k == "~" || k == "!" || k == "id" || k == "bool" || k == "int" || k == "float";
    }

    /// precedence of a binary operator, 0 if it is none
    static int level(const std::string& op) {
        static const std::map<std::string, int> m{ { "?", 1 }, { "||", 2 }, { "^^", 3 }, { "&&", 4 }, { "|", 5 }, { "^", 6 }, { "&", 7 }, { "==", 8 },
            { "!=", 8 }, { "<", 9 }, { "<=", 9 }, { ">", 9 }, { ">=", 9 }, { "<<", 10 }, { ">>", 10 }, { "+", 11 }, { "-", 11 }, { "*", 12 },
            { "/", 12 }, { "%", 12 }, { "**", 13 } };
        auto it = m.find(op);
        return it == m.end() ? 0 : it->second;
    }

    Node list_until(const char* close) {
        Node r{ "list" };
        if (look() == close) {
            ++p;
            return r;
        }
        r = list();
        want(close);
        return r;
    }

    Node list() {
        Node r{ "list" };
        r.kids.push_back(expression(0));
        while (look() == ",") {
            ++p;
            r.kids.push_back(expression(0));
        }
        return r;
    }

    Node primary() {
        const std::string k = look();
        if (k == "(") {
            ++p;
            Node r = expression(0);
            want(")");
            return r;
        }
        if (k == "+") {
            ++p;
            return primary();
        }
        if (k == "-" || k == "~" || k == "!") {
            Node r = located("unary", k, take());
            r.kids.push_back(primary());
            return r;
        }
        if (k == "id") {
            const Token& name = take();
            if (look() == "(") {
                ++p;
                Node r = located("call", name.text, name);
                const bool empty = look() == ")";
                Node arguments = list_until(")");
                if (!empty) r.kids.push_back(arguments);
                return r;
            }
            if (look() == "[") {
                ++p;
                Node r = located("index", name.text, name);
                do {
                    Node first = expression(0);
                    if (look() == ":") {
                        ++p;
                        r.kids.push_back({ "range" });
                        r.kids.back().kids.push_back(first);
                        r.kids.back().kids.push_back(expression(0));
                    } else {
                        r.kids.push_back({ "item" });
                        r.kids.back().kids.push_back(first);
                    }
                } while (look() == "," && ++p);
                want("]");
                return r;
            }
            return located("id", name.text, name);
        }
        if (k == "bool") {
            Node r = located("bool", "", t[p]);
            r.i = take().text == "true";
            return r;
        }
        if (k == "int" || k == "float") {
            Node r = located(k.c_str(), t[p].text, t[p]);
            ++p;
            return r;
        }
        throw Bad{};
    }

    Node expression(int least) {
        Node left = primary();
        for (;;) {
            const std::string op = look();
            const int l = level(op);
            if (l == 0 || l < least) return left;
            const Token& k = take();
            if (op == "?") {
                Node r = located("ternary", "", k);
                r.kids.push_back(std::move(left));
                r.kids.push_back(expression(0));
                want(":");
                r.kids.push_back(expression(l));
                left = std::move(r);
            } else {
                Node r = located("binary", op, k);
                r.kids.push_back(std::move(left));
                r.kids.push_back(expression(op == "**" ? l : l + 1));
                left = std::move(r);
            }
        }
    }

    /// "(...)" that stands for parameters: only if something that starts an operand follows it
    Node parameters() {
        if (look() == "(") {
            const size_t save = p;
            try {
                ++p;
                Node r = list();
                want(")");
                if (starts_expression()) return r;
            } catch (const Bad&) {
            }
            p = save;
        }
        return { "list" };
    }

    Node gate() {
        const std::string k = look();
        if (k == "inv" || k == "ctrl" || k == "pow") {
            Node r = located("gate", k, take());
            Node params{ "list" };
            if (k == "pow") {
                want("(");
                params.kids.push_back(expression(0));
                want(")");
            }
            want(".");
            r.kids.push_back(gate());
            r.kids.push_back(params);
            return r;
        }
        if (k != "id") throw Bad{};
        Node r = located("gate", t[p].text, t[p]);
        ++p;
        r.kids.push_back(parameters());
        return r;
    }

    Node non_gate(const Token& name, Node operands, Node params) {
        Node r = located("nongate", name.text, name);
        operands.kind = "operands";
        r.kids.push_back(std::move(operands));
        r.kids.push_back(std::move(params));
        return r;
    }
    static Node only(Node e) {
        Node r{ "list" };
        r.kids.push_back(std::move(e));
        return r;
    }

    Node statement() {
        const std::string k = look();
        if (k == "qubit" || k == "bit") {
            Node type = located("type", k, take());
            type.i = -1;
            if (look() == "[") {
                ++p;
                const Token& n = want("int");
                const Token& close = want("]");
                type.loc.l2 = close.loc.l2;
                type.loc.c2 = close.loc.c2;
                type.kids.push_back({ "int", n.text });
                type.kids.back().loc = n.loc;
            }
            const Token& name = want("id");
            Node r = located("variable", name.text, name);
            r.kids.push_back(type);
            return r;
        }
        if (k == "reset" || k == "init" || k == "barrier") {
            const Token& name = take();
            return non_gate(name, only(expression(0)), { "list" });
        }
        if (k == "wait") {
            const Token& name = take();
            want("(");
            Node params = only(expression(0));
            want(")");
            Node operands = only(expression(0));
            return non_gate(name, operands, params);
        }
        if (k == "asm") {
            ++p;
            want("(");
            const Token& name = want("id");
            want(")");
            const Token& raw = want("raw");
            Node r{ "asm", name.text };
            r.kids.push_back({ "code", raw.text.substr(3, raw.text.size() - 6) });
            return r;
        }
        // a measurement assigns to an expression
        const size_t save = p;
        if (starts_expression()) {
            try {
                Node target = expression(0);
                if (look() == "=") {
                    ++p;
                    const Token& name = want("measure");
                    Node params = parameters();
                    Node operands = only(target);
                    operands.kids.push_back(expression(0));
                    return non_gate(name, operands, params);
                }
            } catch (const Bad&) {
            }
            p = save;
        }
        Node g = gate();
        Node r{ "instruction" };
        r.located = true;
        r.loc = g.loc;
        r.kids.push_back(std::move(g));
        Node operands = list();
        operands.kind = "operands";
        r.kids.push_back(std::move(operands));
        return r;
    }

public:
    explicit Parser(const std::vector<Token>& tokens)
    : t{ tokens } {}

    std::optional<Node> program() {
        try {
            Node r{ "program" };
            separators();
            want("version");
            const Token& number = want("number");
            r.kids.push_back(located("version", number.text, number));
            for (;;) {
                const size_t before = p;
                separators();
                if (look() == "eof") break;
                if (p == before) throw Bad{};
                r.kids.push_back(statement());
            }
            return r;
        } catch (const Bad&) {
            return std::nullopt;
        }
    }
};

inline bool int_value(const std::string& digits, int64_t& out) {
    unsigned __int128 v = 0;
    for (char c : digits) {
        v = v * 10 + static_cast<unsigned>(c - '0');
        if (v > static_cast<unsigned __int128>(INT64_MAX)) return false;
    }
    out = static_cast<int64_t>(v);
    return true;
}

/// gives the literals their values; collects those out of range
inline void literals(Node& n, std::vector<Problem>& bad) {
    if (n.is("int")) {
        if (!int_value(n.text, n.i)) bad.push_back({ "range", { true, n.loc.l1, n.loc.c1, n.loc.l1, n.loc.c1 }, { n.text }, {} });
    } else if (n.is("float")) {
        n.f = std::strtod(n.text.c_str(), nullptr);
        bool nonzero = false;
        for (char c : n.text) {
            if (c == 'e' || c == 'E') break;
            nonzero = nonzero || (c >= '1' && c <= '9');
        }
        if (std::isinf(n.f) || (n.f == 0 && nonzero)) bad.push_back({ "range", { true, n.loc.l1, n.loc.c1, n.loc.l1, n.loc.c1 }, { n.text }, {} });
    } else if (n.is("version")) {
        const size_t dot = n.text.find('.');
        int64_t a = 0, b = 0;
        std::string canonical;
        if (!int_value(n.text.substr(0, dot), a)) bad.push_back({ "range", { true, n.loc.l1, n.loc.c1, n.loc.l1, n.loc.c1 }, { n.text.substr(0, dot) }, {} });
        canonical = std::to_string(a);
        if (dot != std::string::npos) {
            const auto c = static_cast<uint32_t>(n.loc.c1 + dot + 1);
            if (!int_value(n.text.substr(dot + 1), b)) bad.push_back({ "range", { true, n.loc.l1, c, n.loc.l1, c }, { n.text.substr(dot + 1) }, {} });
            canonical += "." + std::to_string(b);
        }
        n.text = canonical;
        return;
    }
    for (auto& k : n.kids) literals(k, bad);
    if (n.is("type") && !n.kids.empty()) {
        n.i = n.kids[0].i;
        n.kids.clear();
    }
    if (n.is("int") || n.is("float")) n.text.clear();
}

inline Parsed parse(const std::string& text) {
    Parsed r;
    r.lexed = Lexer{}.run(text);
    if (r.lexed.problem) {
        r.problem = r.lexed.problem;
        return r;
    }
    r.program = Parser{ r.lexed.tokens }.program();
    if (!r.program) {
        r.problem = Problem{ "syntax", {}, {}, {} };
        return r;
    }
    std::vector<Problem> bad;
    literals(*r.program, bad);
    if (!bad.empty()) {
        r.problem = bad[0];
        for (auto& b : bad) r.problem->other.push_back(b.loc);
        if (bad.size() > 1) r.problem->names.clear();
        r.program.reset();
    }
    return r;
}

// ---------------------------------------------------------------------------------------------------- analyzer

struct Value {
    char t = 'i';  // b, i, f: constants; v: variable; x: indexed variable
    bool b = false;
    int64_t i = 0;
    double f = 0;
    int variable = -1;
    std::vector<int64_t> indices;
    Loc loc;
};

struct Variable {
    std::string name;
    char type = 'Q';  // Q, V, B, W
    int64_t size = 1;
    Loc loc;
};

inline const char* type_name(char t) {
    switch (t) {
        case 'b': return "bool";
        case 'i': return "int";
        case 'f': return "float";
        case 'Q': return "qubit";
        case 'V': return "qubit array";
        case 'B': return "bit";
        default: return "bit array";
    }
}

struct Analyzed {
    Node program;
    std::vector<Problem> errors;
};

/// what a constant function computes; false: no result (division by zero)
inline bool compute(const std::string& name, const std::string& form, const std::vector<Value>& a, Value& r) {
    auto wrap = [](uint64_t u) { return static_cast<int64_t>(u); };
    auto boolean = [&](bool v) { r.t = 'b'; r.b = v; return true; };
    auto integer = [&](int64_t v) { r.t = 'i'; r.i = v; return true; };
    auto real = [&](double v) { r.t = 'f'; r.f = v; return true; };
    auto u = [&](int k) { return static_cast<uint64_t>(a[k].i); };
    if (form == "f") {
        const double x = a[0].f;
        if (name == "operator-") return real(-x);
        if (name == "sqrt") return real(std::sqrt(x));
        if (name == "exp") return real(std::exp(x));
        if (name == "log") return real(std::log(x));
        if (name == "sin") return real(std::sin(x));
        if (name == "cos") return real(std::cos(x));
        if (name == "tan") return real(std::tan(x));
        if (name == "sinh") return real(std::sinh(x));
        if (name == "cosh") return real(std::cosh(x));
        if (name == "tanh") return real(std::tanh(x));
        if (name == "asin") return real(std::asin(x));
        if (name == "acos") return real(std::acos(x));
        if (name == "atan") return real(std::atan(x));
        if (name == "asinh") return real(std::asinh(x));
        if (name == "acosh") return real(std::acosh(x));
        if (name == "atanh") return real(std::atanh(x));
        return real(std::fabs(x));
    }
    if (form == "i") {
        if (name == "operator~") return integer(wrap(~u(0)));
        if (name == "operator-") return integer(wrap(0 - u(0)));
        return integer(a[0].i < 0 ? wrap(0 - u(0)) : a[0].i);
    }
    if (form == "b") return boolean(!a[0].b);
    const std::string op = name.substr(8);
    if (form == "ff") {
        const double x = a[0].f, y = a[1].f;
        if (op == "+") return real(x + y);
        if (op == "-") return real(x - y);
        if (op == "*") return real(x * y);
        if (op == "/") return real(x / y);
        if (op == "**") return real(std::pow(x, y));
        if (op == "==") return boolean(x == y);
        if (op == "!=") return boolean(x != y);
        if (op == ">=") return boolean(x >= y);
        if (op == ">") return boolean(x > y);
        if (op == "<=") return boolean(x <= y);
        return boolean(x < y);
    }
    if (form == "ii") {
        const int64_t x = a[0].i, y = a[1].i;
        if (op == "+") return integer(wrap(u(0) + u(1)));
        if (op == "-") return integer(wrap(u(0) - u(1)));
        if (op == "*") return integer(wrap(u(0) * u(1)));
        if (op == "/") return y == 0 ? false : integer(y == -1 ? wrap(0 - u(0)) : x / y);
        if (op == "%") return y == 0 ? false : integer(y == -1 ? 0 : x % y);
        if (op == "&") return integer(wrap(u(0) & u(1)));
        if (op == "^") return integer(wrap(u(0) ^ u(1)));
        if (op == "|") return integer(wrap(u(0) | u(1)));
        if (op == "<<") return integer(wrap(u(0) << (u(1) & 63)));
        if (op == ">>") return integer(x >> (u(1) & 63));
        if (op == "==") return boolean(x == y);
        if (op == "!=") return boolean(x != y);
        if (op == ">=") return boolean(x >= y);
        if (op == ">") return boolean(x > y);
        if (op == "<=") return boolean(x <= y);
        return boolean(x < y);
    }
    if (form == "bb") {
        const bool x = a[0].b, y = a[1].b;
        if (op == "&&") return boolean(x && y);
        if (op == "^^") return boolean(x != y);
        if (op == "||") return boolean(x || y);
        if (op == "==") return boolean(x == y);
        if (op == "!=") return boolean(x != y);
        if (op == ">=") return boolean(x >= y);
        if (op == ">") return boolean(x > y);
        if (op == "<=") return boolean(x <= y);
        return boolean(x < y);
    }
    r = a[a[0].b ? 1 : 2];  // ?:
    r.loc = {};
    return true;
}

/// the forms of every function, in the order in which they are preferred
inline const std::map<std::string, std::vector<std::string>>& functions() {
    static const auto m = [] {
        std::map<std::string, std::vector<std::string>> r;
        for (auto o : { "+", "*", "/" }) r[std::string("operator") + o] = { "ii", "ff" };
        r["operator-"] = { "ii", "ff", "i", "f" };
        r["operator%"] = { "ii" };
        r["operator**"] = { "ff" };
        for (auto o : { "==", "!=", ">=", ">", "<=", "<" }) r[std::string("operator") + o] = { "bb", "ii", "ff" };
        r["operator~"] = { "i" };
        for (auto o : { "&", "^", "|", "<<", ">>" }) r[std::string("operator") + o] = { "ii" };
        r["operator!"] = { "b" };
        for (auto o : { "&&", "^^", "||" }) r[std::string("operator") + o] = { "bb" };
        r["operator?:"] = { "bbb", "bii", "bff" };
        for (auto f : { "sqrt", "exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "asin", "acos", "atan", "asinh", "acosh", "atanh" }) r[f] = { "f" };
        r["abs"] = { "i", "f" };
        return r;
    }();
    return m;
}

struct GateInfo {
    const char* params;
    bool two;
};
inline const std::map<std::string, GateInfo>& gates() {
    static const std::map<std::string, GateInfo> m{ { "H", { "", false } }, { "I", { "", false } }, { "X", { "", false } }, { "Y", { "", false } },
        { "Z", { "", false } }, { "S", { "", false } }, { "Sdag", { "", false } }, { "T", { "", false } }, { "Tdag", { "", false } },
        { "X90", { "", false } }, { "Y90", { "", false } }, { "Z90", { "", false } }, { "mX90", { "", false } }, { "mY90", { "", false } },
        { "mZ90", { "", false } }, { "Rx", { "f", false } }, { "Ry", { "f", false } }, { "Rz", { "f", false } }, { "Rn", { "fffff", false } },
        { "U", { "fff", false } }, { "CNOT", { "", true } }, { "CZ", { "", true } }, { "SWAP", { "", true } }, { "CR", { "f", true } },
        { "CRk", { "i", true } } };
    return m;
}

class Analyzer {
    struct Err {
        Problem problem;
        void context(const Loc& l) {
            if (!problem.loc.set) problem.loc = l;
        }
    };
    [[noreturn]] static void error(std::vector<std::string> names, const Loc& l = {}) {
        throw Err{ Problem{ "statement", l, std::move(names), {} } };
    }

    std::map<std::string, Value> names;

public:
    std::vector<Variable> variables;

    Analyzer() {
        auto constant = [&](const char* n, double d) {
            Value v;
            v.t = 'f';
            v.f = d;
            names[n] = v;
        };
        constant("pi", 3.14159265358979323846);
        constant("eu", 2.71828182845904523536);
        constant("tau", 6.28318530717958647692);
    }

    [[nodiscard]] char type_of(const Value& v) const {
        if (v.t == 'v') return variables[v.variable].type;
        if (v.t == 'x') {
            const char a = variables[v.variable].type;
            return v.indices.size() != 1 ? a : a == 'V' ? 'Q' : 'B';
        }
        return v.t;
    }
    [[nodiscard]] std::string types(const std::vector<Value>& vs) const {
        std::string r;
        for (auto& v : vs) r += (r.empty() ? "" : ", ") + std::string(type_name(type_of(v)));
        return r;
    }

    [[nodiscard]] std::optional<Value> promote(const Value& v, char type) const {
        if (type_of(v) == type) return v;
        Value r = v;
        r.t = type;
        if (type == 'i' && v.t == 'b') {
            r.i = v.b;
        } else if (type == 'f' && v.t == 'b') {
            r.f = v.b;
        } else if (type == 'f' && v.t == 'i') {
            r.f = static_cast<double>(v.i);
        } else {
            return std::nullopt;
        }
        return r;
    }

    Value call(const std::string& name, const std::vector<Value>& args) {
        auto f = functions().find(name);
        if (f == functions().end()) error({ name });
        for (const auto& form : f->second) {
            if (form.size() != args.size()) continue;
            std::vector<Value> promoted;
            for (size_t k = 0; k < args.size(); ++k) {
                if (auto v = promote(args[k], form[k])) promoted.push_back(*v);
            }
            if (promoted.size() != args.size()) continue;
            Value r;
            if (!compute(name, form, promoted, r)) error({ "zero" });
            return r;
        }
        error({ name, "(" + types(args) + ")" });
    }

    Value eval(const Node& e) {
        Value v;
        if (e.is("bool")) {
            v.t = 'b';
            v.b = e.i;
            return v;
        }
        if (e.is("int")) {
            v.t = 'i';
            v.i = e.i;
            return v;
        }
        if (e.is("float")) {
            v.t = 'f';
            v.f = e.f;
            return v;
        }
        if (e.is("id")) {
            auto it = names.find(e.text);
            if (it == names.end()) error({ "'" + e.text + "'" });
            return it->second;
        }
        if (e.is("index")) {
            try {
                auto it = names.find(e.text);
                if (it == names.end()) error({ "'" + e.text + "'" });
                const Value& a = it->second;
                if (type_of(a) != 'V' && type_of(a) != 'W') error({ type_name(type_of(a)) });
                v.t = 'x';
                v.variable = a.variable;
                const int64_t size = variables[a.variable].size;
                int64_t outside = -1;
                bool bad = false;
                // index numbers are kept up to the first that is out of range
                auto add = [&](int64_t from, int64_t to) {
                    for (int64_t k = from; !bad; ++k) {
                        if (k < 0 || k >= size) {
                            bad = true;
                            outside = k;
                        } else {
                            v.indices.push_back(k);
                        }
                        if (k == to) break;
                    }
                };
                for (const auto& entry : e.kids) {
                    const int64_t first = const_int(entry.kids[0]);
                    int64_t last = first;
                    if (entry.is("range")) {
                        last = const_int(entry.kids[1]);
                        if (first > last) error({ "last index", "first index" });
                    }
                    add(first, last);
                }
                if (bad) error({ std::to_string(outside), std::to_string(size) });
                return v;
            } catch (Err& x) {
                x.context(e.loc);
                throw;
            }
        }
        std::vector<Value> args;
        const auto& list = e.is("call") && !e.kids.empty() ? e.kids[0].kids : e.kids;
        for (const auto& k : list) args.push_back(visit(k));
        return call(e.is("call") ? e.text : e.is("ternary") ? "operator?:" : "operator" + e.text, args);
    }

    Value visit(const Node& e) {
        try {
            Value v = eval(e);
            v.loc = e.loc;
            return v;
        } catch (Err& x) {
            x.context(e.loc);
            throw;
        }
    }

    int64_t const_int(const Node& e) {
        if (auto v = promote(eval(e), 'i')) return v->i;
        error({ "integer" }, e.loc);
    }

    std::vector<Value> visit_list(const Node& list) {
        std::vector<Value> r;
        for (const auto& k : list.kids) r.push_back(visit(k));
        return r;
    }

    [[nodiscard]] Node value_node(const Value& v) const {
        Node n;
        n.located = true;
        n.loc = v.loc;
        if (v.t == 'b') {
            n.kind = "bool";
            n.i = v.b;
        } else if (v.t == 'i') {
            n.kind = "int";
            n.i = v.i;
        } else if (v.t == 'f') {
            n.kind = "float";
            n.f = v.f;
        } else {
            n.kind = v.t == 'v' ? "ref" : "indexref";
            n.text = variables[v.variable].name + "#" + std::to_string(v.variable);
            for (auto k : v.indices) {
                n.kids.push_back({ "int" });
                n.kids.back().i = k;
            }
        }
        return n;
    }
    [[nodiscard]] Node values_node(const char* kind, const std::vector<Value>& vs) const {
        Node n{ kind };
        for (auto& v : vs) n.kids.push_back(value_node(v));
        return n;
    }

    struct Gate {
        Node node;
        std::string terminal, resolution;
        bool two = false;
        int qubits = 1;
    };

    std::vector<Value> params(const std::string& name, const std::string& types, const std::vector<Value>& vs) {
        if (vs.size() != types.size()) error({ "'" + name + "'", std::to_string(vs.size()) });
        std::vector<Value> r;
        for (size_t k = 0; k < vs.size(); ++k) {
            auto v = promote(vs[k], types[k]);
            if (!v) error({ "'" + name + "'", std::string("(") + type_name(type_of(vs[k])) + ")" });
            r.push_back(*v);
        }
        return r;
    }

    Gate gate(const Node& g) {
        try {
            Gate r;
            r.node = Node{ "gate", g.text };
            r.node.located = true;
            r.node.loc = g.loc;
            const bool modifier = g.kids.size() == 2;
            Gate inner;
            if (modifier) {
                inner = gate(g.kids[0]);
                r.node.kids.push_back(inner.node);
            }
            auto ps = visit_list(g.kids.back());
            if (modifier) {
                ps = params(g.text, g.text == "pow" ? "f" : "", ps);
                if (inner.two) error({ "modifier" });
                r.terminal = inner.terminal;
                r.two = g.text == "ctrl";
                r.resolution = (r.two ? "2q_" : "1q_") + r.terminal;
            } else {
                auto it = gates().find(g.text);
                if (it == gates().end()) error({ "'" + g.text + "'" });
                ps = params(g.text, it->second.params, ps);
                r.terminal = r.resolution = g.text;
                r.two = it->second.two;
            }
            r.node.kids.push_back(values_node("list", ps));
            return r;
        } catch (Err& x) {
            x.context(g.loc);
            throw;
        }
    }

    [[nodiscard]] int64_t count(const Value& v) const {
        return v.t == 'v' ? variables[v.variable].size : static_cast<int64_t>(v.indices.size());
    }
    [[nodiscard]] bool fits(const std::string& spec, const std::vector<Value>& vs) const {
        if (spec.size() != vs.size()) return false;
        for (size_t k = 0; k < vs.size(); ++k) {
            const char t = type_of(vs[k]);
            if (spec[k] == 'q' ? t != 'Q' && t != 'V' : t != 'B' && t != 'W') return false;
        }
        return true;
    }
    [[nodiscard]] Node instruction_ref(const std::string& name, const std::vector<Value>& operands) const {
        return { "resolved", name + "(" + types(operands) + ")" };
    }

    std::optional<Node> statement(const Node& s) {
        if (s.is("asm")) {
            return s;
        }
        if (s.is("variable")) {
            Variable v;
            v.name = s.text;
            v.loc = s.loc;
            const auto& type = s.kids[0];
            const bool array = type.i != -1;
            if (array && type.i == 0) error({ type.text }, s.loc);
            v.type = type.text == "qubit" ? (array ? 'V' : 'Q') : (array ? 'W' : 'B');
            v.size = array ? type.i : 1;
            if (names.count(v.name)) error({ "'" + v.name + "'" }, s.loc);
            Value r;
            r.t = 'v';
            r.variable = static_cast<int>(variables.size());
            variables.push_back(v);
            names[v.name] = r;
            return std::nullopt;
        }
        try {
            if (s.is("instruction")) {
                Gate g = gate(s.kids[0]);
                auto operands = visit_list(s.kids[1]);
                if (!fits(g.two ? "qq" : "q", operands)) error({ "'" + g.resolution + "'", "(" + types(operands) + ")" });
                for (auto& o : operands) {
                    if (count(o) != count(operands[0])) error({ "size" });
                }
                Node n{ "instruction" };
                n.located = true;
                n.loc = s.loc;
                n.kids.push_back(instruction_ref(g.resolution, operands));
                n.kids.push_back(g.node);
                n.kids.push_back(values_node("operands", operands));
                return n;
            }
            auto operands = visit_list(s.kids[0]);
            const bool measure = s.text == "measure";
            if (!fits(measure ? "bq" : "q", operands)) error({ "'" + s.text + "'", "(" + types(operands) + ")" });
            auto ps = visit_list(s.kids[1]);
            ps = params(s.text, s.text == "wait" ? "i" : measure && !ps.empty() ? "fff" : "", ps);
            if (measure && count(operands[0]) != count(operands[1])) error({ "size" });
            Node n{ "nongate", s.text };
            n.located = true;
            n.loc = s.loc;
            n.kids.push_back(instruction_ref(s.text, operands));
            n.kids.push_back(values_node("operands", operands));
            n.kids.push_back(values_node("list", ps));
            return n;
        } catch (Err& x) {
            x.context(s.loc);
            throw;
        }
    }

    Analyzed run(const Node& program) {
        Analyzed r;
        r.program = Node{ "program", "3.0" };
        const Node& version = program.kids[0];
        if (version.text != "3.0" && version.text != "3") {
            r.errors.push_back({ "version", version.loc, { "3.0", version.text }, {} });
        }
        r.program.kids.push_back(version);
        Node block{ "block" };
        block.located = true;
        for (size_t k = 1; k < program.kids.size(); ++k) {
            try {
                if (auto n = statement(program.kids[k])) {
                    if (n->loc.set) {
                        auto& b = block.loc;
                        if (!b.set) {
                            b = n->loc;
                        } else {
                            auto widen = [&b](uint32_t l, uint32_t c) {
                                if (l < b.l1 || (l == b.l1 && c < b.c1)) b.l1 = l, b.c1 = c;
                                if (l > b.l2 || (l == b.l2 && c > b.c2)) b.l2 = l, b.c2 = c;
                            };
                            widen(n->loc.l1, n->loc.c1);
                            widen(n->loc.l2, n->loc.c2);
                        }
                    }
                    block.kids.push_back(std::move(*n));
                }
            } catch (Err& x) {
                r.errors.push_back(x.problem);
            }
        }
        r.program.kids.push_back(std::move(block));
        Node vs{ "variables" };
        for (auto& v : variables) {
            Node n{ "variable", v.name };
            n.located = true;
            n.loc = v.loc;
            n.kids.push_back({ "type", type_name(v.type) });
            n.kids.back().i = v.size;
            vs.kids.push_back(n);
        }
        r.program.kids.push_back(std::move(vs));
        return r;
    }
};

inline Analyzed analyze(const Node& program) { return Analyzer{}.run(program); }

}  // namespace ref
