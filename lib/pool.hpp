// Statements that programs are put together from: declarations, uses, and misuses of every kind.
#pragma once

#include <string>
#include <vector>

namespace pool {

/// the ones of which all sequences are explored
inline const std::vector<std::string>& statements() {
    static const std::vector<std::string> r{
        // declarations
        "qubit q", "qubit[2] q", "bit b", "bit[2] b", "qubit[3] r", "bit q", "qubit[0] q", "qubit pi", "bit[1] B",
        // uses that are valid after some of them
        "X q", "inv.H q[0]", "CNOT q, r[1:2]", "CRk(2) q[1], r[0]", "Rx(pi) r", "b = measure q", "b[0] = measure(1,0,0) r[2]", "B = measure q",
        "reset q", "init r[0]", "barrier r[0:1]", "wait(3) q", "pow(true).S r", "ctrl.Y q, q", "ctrl.pow(0.5).T q[1], r[0]",
        "asm(be) ''' x '''",
        // uses that never are
        "X Q", "x q", "Rx(q) q", "Rx q", "X(1) r", "X pi", "inv.CNOT q, r", "ctrl.ctrl.X q, r", "q = measure b", "reset b", "wait(1.5) r", "X q[2/0]",
        "barrier r[3]",
    };
    return r;
}

/// further ones, explored in pairs and between declarations
inline const std::vector<std::string>& more() {
    static const std::vector<std::string> r{
        "qubit[1] q", "bit[0] b", "bit[9223372036854775807] z", "qubit sin", "qubit X", "qubit eu", "bit tau", "qubit q2", "bit[3] c", "bit c",
        "Y90 r[2,0]", "mZ90 r[0,0]", "SWAP r, r", "CZ r[0:1], q", "CR(1) q, q", "Rn(0,1,false,pi,2) q", "U(1,2,3) r", "U(1,2) r", "U(1,2,3,4) r", "Rn(1,2,3,4,5.5) r[1]",
        "CRk(2.5) q, r", "CRk(q) q, r", "CRk q, r", "CNOT q", "CNOT q, r, q", "CNOT q, b", "X q, r", "X b", "X 1", "X 1.5", "X true", "X r[b]", "X pi[0]", "X q[0]",
        "X r[-1]", "X r[1:0]", "X r[true]", "X r[1.5]", "X r[0,3]", "X foo", "X sin(1)", "X q + 1", "X -q", "X !q", "X q ? r : r", "foo q", "foo(1) q", "Measure q",
        "inv.foo q", "inv.X foo", "inv.inv.inv.X q", "inv.ctrl.X q, r", "pow(2).ctrl.X q, r", "ctrl.X q", "ctrl.inv.Rx(1) q, q", "ctrl.Rx(1) q, q",
        "pow(q).X q", "pow(2).X b", "c = measure r", "c = measure q", "b = measure b", "b = measure r", "b = measure foo", "foo = measure q",
        "1 = measure q", "b = measure(1,2) q", "b = measure(1,2,3) q", "b = measure(1,2,q) q", "b = measure(foo,2,3) q", "b[2] = measure q", "c[2,0] = measure r[0:1]",
        "reset r[5]", "reset 1", "init b", "init pi", "barrier c", "barrier foo", "wait(q) q", "wait(3) b", "wait(true) q", "wait(foo) q", "wait(1/0) q",
        "wait(1<<2) r[1]", "Rx(sqrt(2)) q", "Rx(sqrt(q)) q", "Rx(sqrt()) q", "Rx(foo(1)) q", "Rx(1 % 0) q", "Rx(1 && 2) q", "Rx(true ? 1 : 2.5) q", "Rx(1 ? 2 : 3) q",
        "Rx(pi[0]) q", "Rx(-(-1)) q", "Rx(~1.5) q", "Rx(foo) q", "Rx(1,2) q", "asm(q) ''''''", "asm(X) '''X q'''",
    };
    return r;
}

inline const std::vector<std::string>& versions() {
    static const std::vector<std::string> r{ "3.0", "3", "3.1", "2.0", "1", "4", "0", "30", "03", "3.00", "3.10", "0.3" };
    return r;
}

inline std::string program(const std::string& version, const std::vector<std::string>& ss) {
    std::string r = "version " + version;
    for (auto& s : ss) r += "\n" + s;
    return r + "\n";
}

}  // namespace pool
