/* Stand-in for the support library of tree-gen (not available in this sandbox): annotations. */
#pragma once

#include <map>
#include <memory>
#include <typeindex>
#include <typeinfo>
#include <utility>

namespace tree::annotatable {

class Annotatable {
    struct Holder {
        virtual ~Holder() = default;
    };
    template <class T>
    struct TypedHolder : Holder {
        T value;
        explicit TypedHolder(const T& v) : value(v) {}
        explicit TypedHolder(T&& v) : value(std::move(v)) {}
    };
    std::map<std::type_index, std::shared_ptr<Holder>> annotations;

public:
    Annotatable() = default;
    Annotatable(const Annotatable&) = default;
    Annotatable(Annotatable&&) = default;
    Annotatable& operator=(const Annotatable&) = default;
    Annotatable& operator=(Annotatable&&) = default;
    virtual ~Annotatable() = default;

    template <typename T>
    void set_annotation(const T& ob) {
        annotations[std::type_index(typeid(T))] = std::make_shared<TypedHolder<T>>(ob);
    }
    template <typename T>
    void set_annotation(T&& ob) {
        using U = std::decay_t<T>;
        annotations[std::type_index(typeid(U))] = std::make_shared<TypedHolder<U>>(std::forward<T>(ob));
    }
    template <typename T>
    [[nodiscard]] bool has_annotation() const {
        return annotations.count(std::type_index(typeid(T))) != 0;
    }
    template <typename T>
    T* get_annotation_ptr() {
        auto it = annotations.find(std::type_index(typeid(T)));
        return it == annotations.end() ? nullptr : &static_cast<TypedHolder<T>*>(it->second.get())->value;
    }
    template <typename T>
    const T* get_annotation_ptr() const {
        auto it = annotations.find(std::type_index(typeid(T)));
        return it == annotations.end() ? nullptr : &static_cast<const TypedHolder<T>*>(it->second.get())->value;
    }
    template <typename T>
    T& get_annotation() {
        if (auto* p = get_annotation_ptr<T>()) return *p;
        throw std::out_of_range("object does not have an annotation of this type");
    }
    template <typename T>
    const T& get_annotation() const {
        if (auto* p = get_annotation_ptr<T>()) return *p;
        throw std::out_of_range("object does not have an annotation of this type");
    }
    template <typename T>
    void erase_annotation() {
        annotations.erase(std::type_index(typeid(T)));
    }
    template <typename T>
    void copy_annotation(const Annotatable& src) {
        auto it = src.annotations.find(std::type_index(typeid(T)));
        if (it != src.annotations.end()) {
            set_annotation<T>(static_cast<const TypedHolder<T>*>(it->second.get())->value);
        } else {
            erase_annotation<T>();
        }
    }
    void copy_annotations(const Annotatable& src) {
        for (const auto& kv : src.annotations) annotations[kv.first] = kv.second;
    }
};

}  // namespace tree::annotatable
