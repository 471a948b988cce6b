/* Stand-in for the support library of tree-gen: the CBOR subset it writes and reads (RFC 7049). */
#pragma once

#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace tree::cbor {

namespace detail {
inline void head(std::ostream& os, unsigned major, std::uint64_t v) {
    auto put = [&os](unsigned b) { os.put(static_cast<char>(b & 0xFF)); };
    int n = v < 24 ? 0 : v < 0x100 ? 1 : v < 0x10000 ? 2 : v < 0x100000000ull ? 4 : 8;
    if (!n) {
        put(major << 5 | static_cast<unsigned>(v));
        return;
    }
    put(major << 5 | (n == 1 ? 24 : n == 2 ? 25 : n == 4 ? 26 : 27));
    for (int i = n - 1; i >= 0; --i) put(static_cast<unsigned>(v >> (8 * i)));
}
inline void w_int(std::ostream& os, std::int64_t v) {
    v >= 0 ? head(os, 0, static_cast<std::uint64_t>(v)) : head(os, 1, ~static_cast<std::uint64_t>(v));
}
inline void w_str(std::ostream& os, unsigned major, const std::string& s) {
    head(os, major, s.size());
    os.write(s.data(), static_cast<std::streamsize>(s.size()));
}
inline void w_float(std::ostream& os, double d) {
    std::uint64_t u;
    std::memcpy(&u, &d, 8);
    os.put(static_cast<char>(0xFB));
    for (int i = 7; i >= 0; --i) os.put(static_cast<char>((u >> (8 * i)) & 0xFF));
}
struct Item {
    enum Kind { NUL, BOOL, INT, FLOAT, STR, BIN, ARR, MAP } kind = NUL;
    bool b = false;
    std::int64_t i = 0;
    double d = 0;
    std::string s;
    std::vector<std::shared_ptr<const Item>> arr;
    std::map<std::string, std::shared_ptr<const Item>> map;
};
}  // namespace detail

class MapWriter;

class ArrayWriter {
    std::ostream* os;

public:
    explicit ArrayWriter(std::ostream& o) : os(&o) { os->put(static_cast<char>(0x9F)); }
    void append_null() { os->put(static_cast<char>(0xF6)); }
    void append_bool(bool v) { os->put(static_cast<char>(v ? 0xF5 : 0xF4)); }
    void append_int(std::int64_t v) { detail::w_int(*os, v); }
    void append_float(double v) { detail::w_float(*os, v); }
    void append_string(const std::string& v) { detail::w_str(*os, 3, v); }
    void append_binary(const std::string& v) { detail::w_str(*os, 2, v); }
    ArrayWriter append_array() { return ArrayWriter(*os); }
    inline MapWriter append_map();
    void close() { os->put(static_cast<char>(0xFF)); }
};

class MapWriter {
    std::ostream* os;
    std::ostream& key(const std::string& k) {
        detail::w_str(*os, 3, k);
        return *os;
    }

public:
    explicit MapWriter(std::ostream& o) : os(&o) { os->put(static_cast<char>(0xBF)); }
    void append_null(const std::string& k) { key(k).put(static_cast<char>(0xF6)); }
    void append_bool(const std::string& k, bool v) { key(k).put(static_cast<char>(v ? 0xF5 : 0xF4)); }
    void append_int(const std::string& k, std::int64_t v) { detail::w_int(key(k), v); }
    void append_float(const std::string& k, double v) { detail::w_float(key(k), v); }
    void append_string(const std::string& k, const std::string& v) { detail::w_str(key(k), 3, v); }
    void append_binary(const std::string& k, const std::string& v) { detail::w_str(key(k), 2, v); }
    ArrayWriter append_array(const std::string& k) { return ArrayWriter(key(k)); }
    MapWriter append_map(const std::string& k) { return MapWriter(key(k)); }
    void close() { os->put(static_cast<char>(0xFF)); }
};
inline MapWriter ArrayWriter::append_map() { return MapWriter(*os); }

class Writer {
    std::ostream* os;

public:
    explicit Writer(std::ostream& o) : os(&o) {}
    MapWriter start() { return MapWriter(*os); }
};

class Reader;
class ArrayReader;
class MapReader;

class Reader {
    using Item = detail::Item;
    std::shared_ptr<const Item> item;

    static std::uint64_t arg(const std::string& d, size_t& p, unsigned info) {
        if (info < 24) return info;
        int n = info == 24 ? 1 : info == 25 ? 2 : info == 26 ? 4 : info == 27 ? 8 : -1;
        if (n < 0 || p + static_cast<size_t>(n) > d.size()) throw std::runtime_error("invalid CBOR");
        std::uint64_t v = 0;
        for (int i = 0; i < n; ++i) v = v << 8 | static_cast<unsigned char>(d[p++]);
        return v;
    }
    static bool at_break(const std::string& d, size_t& p) {
        if (p >= d.size()) throw std::runtime_error("invalid CBOR: truncated");
        if (static_cast<unsigned char>(d[p]) == 0xFF) {
            ++p;
            return true;
        }
        return false;
    }
    static std::shared_ptr<const Item> parse(const std::string& d, size_t& p) {
        if (p >= d.size()) throw std::runtime_error("invalid CBOR: truncated");
        unsigned ib = static_cast<unsigned char>(d[p++]);
        unsigned major = ib >> 5, info = ib & 31;
        auto it = std::make_shared<Item>();
        switch (major) {
            case 0:
                it->kind = Item::INT;
                it->i = static_cast<std::int64_t>(arg(d, p, info));
                break;
            case 1:
                it->kind = Item::INT;
                it->i = static_cast<std::int64_t>(~arg(d, p, info));
                break;
            case 2:
            case 3: {
                it->kind = major == 2 ? Item::BIN : Item::STR;
                auto n = arg(d, p, info);
                if (n > d.size() - p) throw std::runtime_error("invalid CBOR: truncated string");
                it->s = d.substr(p, n);
                p += n;
                break;
            }
            case 4: {
                it->kind = Item::ARR;
                if (info == 31) {
                    while (!at_break(d, p)) it->arr.push_back(parse(d, p));
                } else {
                    for (auto n = arg(d, p, info); n; --n) it->arr.push_back(parse(d, p));
                }
                break;
            }
            case 5: {
                it->kind = Item::MAP;
                auto one = [&] {
                    auto k = parse(d, p);
                    if (k->kind != Item::STR) throw std::runtime_error("invalid CBOR: map key");
                    if (it->map.count(k->s)) throw std::runtime_error("invalid CBOR: duplicate map key " + k->s);
                    it->map[k->s] = parse(d, p);
                };
                if (info == 31) {
                    while (!at_break(d, p)) one();
                } else {
                    for (auto n = arg(d, p, info); n; --n) one();
                }
                break;
            }
            case 7:
                if (ib == 0xF4 || ib == 0xF5) {
                    it->kind = Item::BOOL;
                    it->b = ib == 0xF5;
                } else if (ib == 0xF6) {
                    it->kind = Item::NUL;
                } else if (ib == 0xFB) {
                    it->kind = Item::FLOAT;
                    auto u = arg(d, p, 27);
                    std::memcpy(&it->d, &u, 8);
                } else {
                    throw std::runtime_error("invalid CBOR: unsupported simple value");
                }
                break;
            default: throw std::runtime_error("invalid CBOR: unsupported major type");
        }
        return it;
    }
    const Item& need(Item::Kind k) const {
        if (!item || item->kind != k) throw std::runtime_error("unexpected CBOR structure: wrong type");
        return *item;
    }

public:
    explicit Reader(const std::string& data) {
        size_t p = 0;
        item = parse(data, p);
        if (p != data.size()) throw std::runtime_error("invalid CBOR: trailing garbage");
    }
    explicit Reader(std::shared_ptr<const Item> i) : item(std::move(i)) {}
    [[nodiscard]] bool is_null() const { return item->kind == Item::NUL; }
    [[nodiscard]] bool as_bool() const { return need(Item::BOOL).b; }
    [[nodiscard]] std::int64_t as_int() const { return need(Item::INT).i; }
    [[nodiscard]] double as_float() const { return need(Item::FLOAT).d; }
    [[nodiscard]] std::string as_string() const { return need(Item::STR).s; }
    [[nodiscard]] std::string as_binary() const { return need(Item::BIN).s; }
    [[nodiscard]] inline ArrayReader as_array() const;
    [[nodiscard]] inline MapReader as_map() const;
};

class ArrayReader : public std::vector<Reader> {};
class MapReader : public std::map<std::string, Reader> {};

inline ArrayReader Reader::as_array() const {
    ArrayReader r;
    for (const auto& x : need(Item::ARR).arr) r.emplace_back(x);
    return r;
}
inline MapReader Reader::as_map() const {
    MapReader r;
    for (const auto& kv : need(Item::MAP).map) r.emplace(kv.first, Reader(kv.second));
    return r;
}

}  // namespace tree::cbor
