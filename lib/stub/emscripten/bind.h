// Stand-in for the part of Emscripten that the web wrapper uses: keeps what is bound under which name.
#pragma once

#include <any>
#include <functional>
#include <map>
#include <string>

namespace emscripten {

inline std::map<std::string, std::any>& bound() {
    static std::map<std::string, std::any> r;
    return r;
}

template <class T>
struct class_ {
    explicit class_(const char* /* name */) {}
    template <class... A>
    const class_& constructor(A&&... /* policies */) const {
        return *this;
    }
    template <class R, class... A, class... P>
    const class_& function(const char* name, R (T::*f)(A...), P&&... /* policies */) const {
        bound()[name] = std::function<R(T&, A...)>(f);
        return *this;
    }
    template <class R, class... A, class... P>
    const class_& function(const char* name, R (T::*f)(A...) const, P&&... /* policies */) const {
        bound()[name] = std::function<R(T&, A...)>(f);
        return *this;
    }
    template <class R, class... A, class... P>
    const class_& function(const char* name, R (*f)(T&, A...), P&&... /* policies */) const {
        bound()[name] = std::function<R(T&, A...)>(f);
        return *this;
    }
    template <class F, class... P>
    const class_& class_function(const char* name, F f, P&&... /* policies */) const {
        bound()[name] = f;
        return *this;
    }
};

}  // namespace emscripten

#define EMSCRIPTEN_BINDINGS(name)                                                      \
    static void bindings_##name();                                                     \
    static const bool bindings_of_##name = (bindings_##name(), true);                  \
    static void bindings_##name()
