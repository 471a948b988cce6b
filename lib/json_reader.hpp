// A strict JSON reader (RFC 8259) to judge what the library writes.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace json {

struct Value {
    enum Kind { NUL, BOOL, NUMBER, STRING, ARRAY, OBJECT } kind = NUL;
    bool boolean = false;
    std::string text;  // the decoded string, or the number as written
    std::vector<Value> items;
    std::vector<std::pair<std::string, Value>> members;

    const Value* find(const std::string& k) const {
        for (auto& m : members) {
            if (m.first == k) return &m.second;
        }
        return nullptr;
    }
    const Value& at(const std::string& k) const {
        if (auto* v = find(k)) return *v;
        throw std::runtime_error("no member '" + k + "'");
    }
};

class Reader {
    const std::string& s_;
    size_t i_ = 0;

    [[noreturn]] void bad(const std::string& what) const {
        throw std::runtime_error(what + " at offset " + std::to_string(i_));
    }
    void ws() {
        while (i_ < s_.size() && (s_[i_] == ' ' || s_[i_] == '\n' || s_[i_] == '\t' || s_[i_] == '\r')) ++i_;
    }
    unsigned hex4() {
        unsigned v = 0;
        for (int k = 0; k < 4; ++k, ++i_) {
            if (i_ >= s_.size()) bad("truncated \\u escape");
            const char c = s_[i_];
            if (c >= '0' && c <= '9') v = v * 16 + static_cast<unsigned>(c - '0');
            else if (c >= 'a' && c <= 'f') v = v * 16 + static_cast<unsigned>(c - 'a' + 10);
            else if (c >= 'A' && c <= 'F') v = v * 16 + static_cast<unsigned>(c - 'A' + 10);
            else bad("a bad \\u escape");
        }
        return v;
    }
    static void utf8(std::string& r, unsigned c) {
        if (c < 0x80) r += static_cast<char>(c);
        else if (c < 0x800) { r += static_cast<char>(0xc0 | (c >> 6)); r += static_cast<char>(0x80 | (c & 63)); }
        else if (c < 0x10000) { r += static_cast<char>(0xe0 | (c >> 12)); r += static_cast<char>(0x80 | ((c >> 6) & 63)); r += static_cast<char>(0x80 | (c & 63)); }
        else { r += static_cast<char>(0xf0 | (c >> 18)); r += static_cast<char>(0x80 | ((c >> 12) & 63)); r += static_cast<char>(0x80 | ((c >> 6) & 63)); r += static_cast<char>(0x80 | (c & 63)); }
    }
    std::string string() {
        ++i_;
        std::string r;
        for (;;) {
            if (i_ >= s_.size()) bad("an unterminated string");
            const auto c = static_cast<unsigned char>(s_[i_]);
            if (c < 32) bad("a control character in a string");
            if (c == '"') { ++i_; return r; }
            if (c != '\\') {
                // well-formed UTF-8 only
                size_t n = c < 0x80 ? 1 : (c >= 0xc2 && c < 0xe0) ? 2 : (c >> 4) == 14 ? 3 : (c >= 0xf0 && c < 0xf5) ? 4 : 0;
                if (!n || i_ + n > s_.size()) bad("ill-formed UTF-8");
                for (size_t k = 1; k < n; ++k) {
                    if ((static_cast<unsigned char>(s_[i_ + k]) & 0xc0) != 0x80) bad("ill-formed UTF-8");
                }
                r.append(s_, i_, n);
                i_ += n;
                continue;
            }
            if (++i_ >= s_.size()) bad("an unterminated escape");
            switch (s_[i_++]) {
                case '"': r += '"'; break;
                case '\\': r += '\\'; break;
                case '/': r += '/'; break;
                case 'b': r += '\b'; break;
                case 'f': r += '\f'; break;
                case 'n': r += '\n'; break;
                case 'r': r += '\r'; break;
                case 't': r += '\t'; break;
                case 'u': {
                    unsigned v = hex4();
                    if (v >= 0xd800 && v < 0xdc00) {
                        if (s_.compare(i_, 2, "\\u") != 0) bad("a lone surrogate");
                        i_ += 2;
                        const unsigned w = hex4();
                        if (w < 0xdc00 || w > 0xdfff) bad("a lone surrogate");
                        v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
                    } else if (v >= 0xdc00 && v < 0xe000) bad("a lone surrogate");
                    utf8(r, v);
                    break;
                }
                default: bad("an unknown escape");
            }
        }
    }
    Value value(int depth) {
        if (depth > 2000) bad("nested too deeply");
        ws();
        if (i_ >= s_.size()) bad("a missing value");
        Value v;
        const char c = s_[i_];
        if (c == '"') {
            v.kind = Value::STRING;
            v.text = string();
        } else if (c == '{') {
            v.kind = Value::OBJECT;
            ++i_;
            ws();
            if (i_ < s_.size() && s_[i_] == '}') { ++i_; return v; }
            for (;;) {
                ws();
                if (i_ >= s_.size() || s_[i_] != '"') bad("a missing member name");
                auto k = string();
                if (v.find(k)) bad("a duplicate member '" + k + "'");
                ws();
                if (i_ >= s_.size() || s_[i_] != ':') bad("a missing ':'");
                ++i_;
                v.members.emplace_back(k, value(depth + 1));
                ws();
                if (i_ < s_.size() && s_[i_] == ',') { ++i_; continue; }
                if (i_ < s_.size() && s_[i_] == '}') { ++i_; return v; }
                bad("a missing ',' or '}'");
            }
        } else if (c == '[') {
            v.kind = Value::ARRAY;
            ++i_;
            ws();
            if (i_ < s_.size() && s_[i_] == ']') { ++i_; return v; }
            for (;;) {
                v.items.push_back(value(depth + 1));
                ws();
                if (i_ < s_.size() && s_[i_] == ',') { ++i_; continue; }
                if (i_ < s_.size() && s_[i_] == ']') { ++i_; return v; }
                bad("a missing ',' or ']'");
            }
        } else if (s_.compare(i_, 4, "true") == 0) { v.kind = Value::BOOL; v.boolean = true; i_ += 4; }
        else if (s_.compare(i_, 5, "false") == 0) { v.kind = Value::BOOL; i_ += 5; }
        else if (s_.compare(i_, 4, "null") == 0) { i_ += 4; }
        else {
            const size_t b = i_;
            auto digits = [&] { size_t n = 0; while (i_ < s_.size() && s_[i_] >= '0' && s_[i_] <= '9') { ++i_; ++n; } return n; };
            if (s_[i_] == '-') ++i_;
            if (i_ < s_.size() && s_[i_] == '0') ++i_;
            else if (!digits()) bad("not a value");
            if (i_ < s_.size() && s_[i_] == '.') { ++i_; if (!digits()) bad("a bad number"); }
            if (i_ < s_.size() && (s_[i_] == 'e' || s_[i_] == 'E')) {
                ++i_;
                if (i_ < s_.size() && (s_[i_] == '+' || s_[i_] == '-')) ++i_;
                if (!digits()) bad("a bad number");
            }
            v.kind = Value::NUMBER;
            v.text = s_.substr(b, i_ - b);
        }
        return v;
    }

public:
    explicit Reader(const std::string& s) : s_(s) {}
    Value read() {
        auto v = value(0);
        ws();
        if (i_ != s_.size()) bad("trailing text");
        return v;
    }
};

inline Value parse(const std::string& s) { return Reader(s).read(); }

}  // namespace json
