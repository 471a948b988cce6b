/* Stand-in for the support library of tree-gen: nodes and edges. */
#pragma once

#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#include "tree-annotatable.hpp"
#include "tree-cbor.hpp"

namespace tree {
using signed_size_t = std::make_signed_t<std::size_t>;
}

namespace tree::base {

class NotWellFormed : public std::runtime_error {
public:
    explicit NotWellFormed(const std::string& msg) : std::runtime_error(msg) {}
};

template <class T> class Maybe;
template <class T> class One;
template <class T> class Any;
template <class T> class Many;
template <class T> class OptLink;
template <class T> class Link;

/** Pointers to the nodes of a tree, numbered in the order of discovery. */
class PointerMap {
    std::unordered_map<const void*, std::size_t> map;

public:
    void add_ptr(const void* p, const char* name) {
        if (!map.emplace(p, map.size()).second) {
            throw NotWellFormed(std::string("duplicate node of type ") + name + " found in tree");
        }
    }
    [[nodiscard]] bool has(const void* p) const { return map.count(p) != 0; }
    [[nodiscard]] std::size_t get(const void* p) const {
        auto it = map.find(p);
        if (it == map.end()) throw NotWellFormed("element not found in tree");
        return it->second;
    }
};

/** Used while deserializing: nodes by their number, and links to be restored. */
class IdentifierMap {
    std::map<std::size_t, std::shared_ptr<class Base>> bases;

public:
    std::vector<std::pair<std::size_t, class RestorableLink*>> links;
    void register_node(std::size_t id, const std::shared_ptr<class Base>& node) { bases[id] = node; }
    [[nodiscard]] std::shared_ptr<class Base> get(std::size_t id) const {
        auto it = bases.find(id);
        if (it == bases.end()) throw std::runtime_error("link to unknown node");
        return it->second;
    }
    inline void restore_links() const;
};

class RestorableLink {
public:
    virtual ~RestorableLink() = default;
    virtual void restore(const std::shared_ptr<class Base>& target) = 0;
};

class Completable {
public:
    virtual ~Completable() = default;
    virtual void find_reachable(PointerMap& /* map */) const {}
    virtual void check_complete(const PointerMap& /* map */) const {}
    void check_well_formed() const {
        PointerMap map;
        find_reachable(map);
        check_complete(map);
    }
    [[nodiscard]] bool is_well_formed() const {
        try {
            check_well_formed();
        } catch (const NotWellFormed&) {
            return false;
        }
        return true;
    }
};

class Base : public annotatable::Annotatable, public Completable {
public:
    Base() = default;
    Base(const Base&) = default;
    Base(Base&&) = default;
    Base& operator=(const Base&) = default;
    Base& operator=(Base&&) = default;
    ~Base() override = default;
};

inline void IdentifierMap::restore_links() const {
    for (const auto& l : links) l.second->restore(get(l.first));
}

namespace detail {
template <class T, class S>
std::shared_ptr<T> cast(const std::shared_ptr<S>& p) {
    if constexpr (std::is_convertible_v<S*, T*>) {
        return p;
    } else {
        auto r = std::dynamic_pointer_cast<T>(p);
        if (p && !r) throw std::runtime_error(std::string("cannot convert node to ") + typeid(T).name());
        return r;
    }
}
template <class T, class S>
concept Castable = std::is_class_v<T> && std::is_class_v<S>;
}  // namespace detail

template <class T>
class Maybe : public Completable {
protected:
    std::shared_ptr<T> val;

public:
    using element_type = T;

    Maybe() = default;
    Maybe(std::nullptr_t) {}
    explicit Maybe(T* value) : val(value) {}
    Maybe(const Maybe&) = default;
    Maybe(Maybe&&) noexcept = default;
    Maybe& operator=(const Maybe&) = default;
    Maybe& operator=(Maybe&&) noexcept = default;
    template <class S>
    Maybe(const std::shared_ptr<S>& value) : val(detail::cast<T>(value)) {}
    template <class S>
    Maybe(const Maybe<S>& value) : val(detail::cast<T>(value.get_ptr())) {}
    template <class S>
    Maybe& operator=(const std::shared_ptr<S>& value) {
        val = detail::cast<T>(value);
        return *this;
    }
    template <class S>
    Maybe& operator=(const Maybe<S>& value) {
        val = detail::cast<T>(value.get_ptr());
        return *this;
    }

    template <class S>
    void set(const std::shared_ptr<S>& value) { val = detail::cast<T>(value); }
    template <class S>
    void set(const Maybe<S>& value) { val = detail::cast<T>(value.get_ptr()); }
    void set_raw(T* value) { val.reset(value); }
    template <class S, class... Args>
    void emplace(Args&&... args) { val = std::make_shared<S>(std::forward<Args>(args)...); }
    void reset() { val.reset(); }
    [[nodiscard]] bool empty() const { return !val; }
    [[nodiscard]] std::size_t size() const { return val ? 1 : 0; }
    const std::shared_ptr<T>& get_ptr() const { return val; }
    std::shared_ptr<T>& get_ptr() { return val; }
    T& deref() const {
        if (!val) throw std::out_of_range("dereferencing empty Maybe/One object");
        return *val;
    }
    T& operator*() const { return deref(); }
    T* operator->() const { return &deref(); }
    template <class S>
    S* as() const { return dynamic_cast<S*>(val.get()); }
    explicit operator bool() const { return static_cast<bool>(val); }

    [[nodiscard]] bool equals(const Maybe& rhs) const {
        if (!val || !rhs.val) return !val && !rhs.val;
        return *val == *rhs.val;
    }
    bool operator==(const Maybe& rhs) const { return equals(rhs); }
    bool operator!=(const Maybe& rhs) const { return !equals(rhs); }

    Maybe copy() const { return val ? Maybe(val->copy()) : Maybe(); }
    Maybe clone() const { return val ? Maybe(val->clone()) : Maybe(); }

    void find_reachable(PointerMap& map) const override {
        if (val) {
            map.add_ptr(static_cast<const void*>(static_cast<const Base*>(val.get())), typeid(*val).name());
            val->find_reachable(map);
        }
    }
    void check_complete(const PointerMap& map) const override {
        if (val) val->check_complete(map);
    }

    virtual const char* edge_code() const { return "?"; }
    void serialize(cbor::MapWriter& map, const PointerMap& ids) const {
        map.append_string("@T", edge_code());
        if (!val) {
            map.append_null("@t");
            return;
        }
        map.append_int("@i", static_cast<std::int64_t>(
                                 ids.get(static_cast<const void*>(static_cast<const Base*>(val.get())))));
        val->serialize(map, ids);
    }
    void deserialize(const cbor::MapReader& map, IdentifierMap& ids) {
        auto t = map.at("@T").as_string();
        if (t != "?" && t != "1") throw std::runtime_error("Schema validation failed: unexpected edge type");
        if (map.at("@t").is_null()) {
            val.reset();
            return;
        }
        val = detail::cast<T>(T::deserialize(map, ids));
        ids.register_node(static_cast<std::size_t>(map.at("@i").as_int()), val);
    }
};

template <class T>
class One : public Maybe<T> {
public:
    One() = default;
    explicit One(T* value) : Maybe<T>(value) {}
    One(const One&) = default;
    One(One&&) noexcept = default;
    One& operator=(const One&) = default;
    One& operator=(One&&) noexcept = default;
    template <class S>
    One(const std::shared_ptr<S>& value) : Maybe<T>(value) {}
    template <class S>
    One(const Maybe<S>& value) : Maybe<T>(value) {}
    template <class S>
    One& operator=(const std::shared_ptr<S>& value) {
        Maybe<T>::operator=(value);
        return *this;
    }
    template <class S>
    One& operator=(const Maybe<S>& value) {
        Maybe<T>::operator=(value);
        return *this;
    }
    One copy() const { return One(Maybe<T>::copy()); }
    One clone() const { return One(Maybe<T>::clone()); }
    void find_reachable(PointerMap& map) const override {
        if (!this->val) throw NotWellFormed(std::string("'One' edge of type ") + typeid(T).name() + " is empty");
        Maybe<T>::find_reachable(map);
    }
    void check_complete(const PointerMap& map) const override {
        if (!this->val) throw NotWellFormed(std::string("'One' edge of type ") + typeid(T).name() + " is empty");
        Maybe<T>::check_complete(map);
    }
    const char* edge_code() const override { return "1"; }
};

template <class T, class... Args>
One<T> make(Args... args) {
    return One<T>(std::make_shared<T>(args...));
}

template <class T>
class Any : public Completable {
protected:
    std::vector<One<T>> vec;

public:
    using value_type = One<T>;
    using iterator = typename std::vector<One<T>>::iterator;
    using const_iterator = typename std::vector<One<T>>::const_iterator;

    Any() = default;
    Any(const Any&) = default;
    Any(Any&&) noexcept = default;
    Any& operator=(const Any&) = default;
    Any& operator=(Any&&) noexcept = default;
    Any(std::initializer_list<One<T>> l) : vec(l) {}
    template <class S>
        requires(!std::is_same_v<S, T>)
    Any(const Any<S>& o) {
        for (const auto& x : o) vec.emplace_back(x);
    }

    template <class S>
    Any& add(const Maybe<S>& ob, signed_size_t pos = -1) {
        if (ob.empty()) return *this;
        if (pos < 0 || static_cast<std::size_t>(pos) >= vec.size()) {
            vec.emplace_back(ob);
        } else {
            vec.insert(vec.begin() + pos, One<T>(ob));
        }
        return *this;
    }
    template <class S>
    Any& add(const std::shared_ptr<S>& ob, signed_size_t pos = -1) { return add(Maybe<S>(ob), pos); }
    Any& add_raw(T* ob, signed_size_t pos = -1) { return add(Maybe<T>(ob), pos); }
    template <class S, class... Args>
    Any& emplace(Args&&... args) {
        vec.emplace_back(std::make_shared<S>(std::forward<Args>(args)...));
        return *this;
    }
    Any& extend(const Any& other) {
        std::vector<One<T>> copy = other.vec;
        vec.insert(vec.end(), copy.begin(), copy.end());
        return *this;
    }
    void remove(signed_size_t pos = -1) {
        if (vec.empty()) return;
        if (pos < 0 || static_cast<std::size_t>(pos) >= vec.size()) pos = static_cast<signed_size_t>(vec.size()) - 1;
        vec.erase(vec.begin() + pos);
    }
    void reset() { vec.clear(); }
    [[nodiscard]] std::size_t size() const { return vec.size(); }
    [[nodiscard]] bool empty() const { return vec.empty(); }
    One<T>& at(std::size_t i) { return vec.at(i); }
    const One<T>& at(std::size_t i) const { return vec.at(i); }
    One<T>& operator[](std::size_t i) { return vec[i]; }
    const One<T>& operator[](std::size_t i) const { return vec[i]; }
    One<T>& front() { return vec.front(); }
    const One<T>& front() const { return vec.front(); }
    One<T>& back() { return vec.back(); }
    const One<T>& back() const { return vec.back(); }
    iterator begin() { return vec.begin(); }
    iterator end() { return vec.end(); }
    const_iterator begin() const { return vec.begin(); }
    const_iterator end() const { return vec.end(); }
    std::vector<One<T>>& get_vec() { return vec; }
    const std::vector<One<T>>& get_vec() const { return vec; }

    [[nodiscard]] bool equals(const Any& rhs) const {
        if (vec.size() != rhs.vec.size()) return false;
        for (std::size_t i = 0; i < vec.size(); ++i) {
            if (!vec[i].equals(rhs.vec[i])) return false;
        }
        return true;
    }
    bool operator==(const Any& rhs) const { return equals(rhs); }
    bool operator!=(const Any& rhs) const { return !equals(rhs); }
    Any copy() const {
        Any r;
        for (const auto& x : vec) r.vec.emplace_back(x.copy());
        return r;
    }
    Any clone() const {
        Any r;
        for (const auto& x : vec) r.vec.emplace_back(x.clone());
        return r;
    }
    void find_reachable(PointerMap& map) const override {
        for (const auto& x : vec) x.find_reachable(map);
    }
    void check_complete(const PointerMap& map) const override {
        for (const auto& x : vec) x.check_complete(map);
    }
    virtual const char* edge_code() const { return "*"; }
    void serialize(cbor::MapWriter& map, const PointerMap& ids) const {
        map.append_string("@T", edge_code());
        auto ar = map.append_array("@d");
        for (const auto& x : vec) {
            auto m = ar.append_map();
            x.serialize(m, ids);
            m.close();
        }
        ar.close();
    }
    void deserialize(const cbor::MapReader& map, IdentifierMap& ids) {
        auto t = map.at("@T").as_string();
        if (t != "*" && t != "+") throw std::runtime_error("Schema validation failed: unexpected edge type");
        vec.clear();
        for (const auto& it : map.at("@d").as_array()) {
            vec.emplace_back();
            vec.back().deserialize(it.as_map(), ids);
        }
    }
};

template <class T>
class Many : public Any<T> {
public:
    Many() = default;
    Many(const Many&) = default;
    Many(Many&&) noexcept = default;
    Many& operator=(const Many&) = default;
    Many& operator=(Many&&) noexcept = default;
    Many(std::initializer_list<One<T>> l) : Any<T>(l) {}
    Many(const Any<T>& o) : Any<T>(o) {}
    template <class S>
        requires(!std::is_same_v<S, T>)
    Many(const Any<S>& o) : Any<T>(o) {}
    Many copy() const { return Many(Any<T>::copy()); }
    Many clone() const { return Many(Any<T>::clone()); }
    void find_reachable(PointerMap& map) const override {
        if (this->vec.empty()) throw NotWellFormed(std::string("'Many' edge of type ") + typeid(T).name() + " is empty");
        Any<T>::find_reachable(map);
    }
    void check_complete(const PointerMap& map) const override {
        if (this->vec.empty()) throw NotWellFormed(std::string("'Many' edge of type ") + typeid(T).name() + " is empty");
        Any<T>::check_complete(map);
    }
    const char* edge_code() const override { return "+"; }
};

template <class T>
class OptLink : public Completable, public RestorableLink {
protected:
    std::weak_ptr<T> val;

    T& checked() const {
        auto p = val.lock();
        if (!p) throw std::out_of_range("dereferencing empty or expired (Opt)Link object");
        return *p;
    }

public:
    OptLink() = default;
    OptLink(const OptLink&) = default;
    OptLink(OptLink&&) noexcept = default;
    OptLink& operator=(const OptLink&) = default;
    OptLink& operator=(OptLink&&) noexcept = default;
    template <class S>
    OptLink(const Maybe<S>& value) : val(detail::cast<T>(value.get_ptr())) {}
    template <class S>
    OptLink(const std::shared_ptr<S>& value) : val(detail::cast<T>(value)) {}
    template <class S>
    OptLink& operator=(const Maybe<S>& value) {
        val = detail::cast<T>(value.get_ptr());
        return *this;
    }
    template <class S>
    void set(const Maybe<S>& value) { val = detail::cast<T>(value.get_ptr()); }
    void reset() { val.reset(); }
    [[nodiscard]] bool empty() const { return val.expired(); }
    [[nodiscard]] std::shared_ptr<T> get_ptr() const { return val.lock(); }
    T& deref() const { return checked(); }
    T& operator*() const { return checked(); }
    T* operator->() const { return &checked(); }
    template <class S>
    S* as() const { return dynamic_cast<S*>(val.lock().get()); }
    [[nodiscard]] bool links_to(const Maybe<T>& target) const { return val.lock() == target.get_ptr(); }
    [[nodiscard]] bool equals(const OptLink& rhs) const { return val.lock() == rhs.val.lock(); }
    bool operator==(const OptLink& rhs) const { return equals(rhs); }
    bool operator!=(const OptLink& rhs) const { return !equals(rhs); }
    OptLink copy() const { return *this; }
    OptLink clone() const { return *this; }

    void check_complete(const PointerMap& map) const override {
        if (auto p = val.lock()) {
            if (!map.has(static_cast<const void*>(static_cast<const Base*>(p.get())))) {
                throw NotWellFormed("link points to a node outside of the tree");
            }
        }
    }
    virtual const char* edge_code() const { return "@"; }
    void serialize(cbor::MapWriter& map, const PointerMap& ids) const {
        map.append_string("@T", edge_code());
        if (auto p = val.lock()) {
            map.append_int("@l",
                static_cast<std::int64_t>(ids.get(static_cast<const void*>(static_cast<const Base*>(p.get())))));
        } else {
            map.append_null("@l");
        }
    }
    void deserialize(const cbor::MapReader& map, IdentifierMap& ids) {
        auto t = map.at("@T").as_string();
        if (t != "@" && t != "$") throw std::runtime_error("Schema validation failed: unexpected edge type");
        auto l = map.at("@l");
        if (!l.is_null()) ids.links.emplace_back(static_cast<std::size_t>(l.as_int()), this);
    }
    void restore(const std::shared_ptr<Base>& target) override { val = detail::cast<T>(target); }
};

template <class T>
class Link : public OptLink<T> {
public:
    Link() = default;
    Link(const Link&) = default;
    Link(Link&&) noexcept = default;
    Link& operator=(const Link&) = default;
    Link& operator=(Link&&) noexcept = default;
    Link(const OptLink<T>& o) : OptLink<T>(o) {}
    template <class S>
    Link(const Maybe<S>& value) : OptLink<T>(value) {}
    template <class S>
    Link(const std::shared_ptr<S>& value) : OptLink<T>(value) {}
    template <class S>
    Link& operator=(const Maybe<S>& value) {
        OptLink<T>::operator=(value);
        return *this;
    }
    Link copy() const { return *this; }
    Link clone() const { return *this; }
    void check_complete(const PointerMap& map) const override {
        if (this->val.expired()) throw NotWellFormed("'Link' edge is empty");
        OptLink<T>::check_complete(map);
    }
    const char* edge_code() const override { return "$"; }
};

template <class T>
void serialize(const Maybe<T>& tree, std::ostream& os) {
    PointerMap ids;
    tree.find_reachable(ids);
    tree.check_complete(ids);
    cbor::Writer writer{ os };
    auto map = writer.start();
    tree.serialize(map, ids);
    map.close();
}
template <class T>
std::string serialize(const Maybe<T>& tree) {
    std::ostringstream os;
    serialize<T>(tree, os);
    return os.str();
}
template <class T>
Maybe<T> deserialize(const std::string& cbor) {
    cbor::Reader reader{ cbor };
    IdentifierMap ids;
    Maybe<T> tree;
    tree.deserialize(reader.as_map(), ids);
    ids.restore_links();
    tree.check_well_formed();
    return tree;
}
template <class T>
Maybe<T> deserialize(std::istream& is) {
    return deserialize<T>(std::string(std::istreambuf_iterator<char>(is), {}));
}

}  // namespace tree::base
