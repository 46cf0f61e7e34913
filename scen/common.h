// Shared by the scenarios. State of the oracles lives in the section "simquiet" (which the
// simulator does not watch) or on the real heap (allocated under Quiet).
#pragma once
#include "../sim/rt.h"

#include <assert.h>
#include <string.h>

#include <string>
#include <vector>

#define ORACLE __attribute__((section("simquiet")))

// A value of oracle state. Threads are switched at plain accesses of the code under test, which
// the compiler may move across accesses to the oracle; so reading or updating the latter must be
// fenced to be atomic with respect to switches. (The state must also have external linkage:
// __tsan_* calls are "leaf" to the compiler.)
template <typename T>
struct Ov {
    T v;
    static void fence() { asm volatile("" ::: "memory"); }
    operator T() const {
        fence();
        T r = v;
        fence();
        return r;
    }
    T operator=(T n) {
        fence();
        v = n;
        fence();
        return n;
    }
    T operator=(const Ov& o) { return *this = (T)o; }
    Ov() = default;
    Ov(const Ov& o) : v((T)o) {}
    Ov(T n) : v(n) {}
    T operator+=(T n) {
        fence();
        T r = v = v + n;
        fence();
        return r;
    }
    T operator-=(T n) { return *this += (T)-n; }
    T operator|=(T n) { return *this = (T)(*this | n); }
    T operator++() { return *this += (T)1; }
    T operator--() { return *this -= (T)1; }
    T operator++(int) { return (T)((*this += (T)1) - (T)1); }
    T operator--(int) { return (T)((*this -= (T)1) + (T)1); }
};
typedef Ov<int> Oint;
typedef Ov<int64_t> Oi64;
typedef Ov<uint64_t> Ou64;
typedef Ov<bool> Obool;

static inline sim::Op mkop(int t, int code, int64_t a = 0, int64_t b = 0, int64_t c = 0) {
    sim::Op o;
    o.t = t;
    o.code = code;
    o.a = a;
    o.b = b;
    o.c = c;
    return o;
}

// |v| folded into [0, n); any value of a parameter or operand is legal.
static inline int clampi(int64_t v, int n) {
    int64_t r = v % n;
    return (int)(r < 0 ? r + n : r);
}
