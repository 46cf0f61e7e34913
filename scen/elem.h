// Elements whose life cycle is tracked, and an allocation policy that can fail: used by the
// container scenarios.
#pragma once
#include "common.h"

#include <map>
#include <set>
#include <string>
#include <utility>

namespace elems {
using namespace sim;

const int64_t kUnset = -999;
const int64_t kMoved = -998;

struct Reg {
    std::set<uintptr_t>* live;  // addresses of the elements alive now
    struct Block {
        int pool;
        size_t n;
    };
    std::map<uintptr_t, Block>* blocks;
    Ou64 refused[64];    // per thread
    Ou64 overflows[64];  // per thread
    Ou64 allocs[64];
    Ou64 copies[64];     // copies of elements made by this thread
    Ou64 bytes[4096];    // per pool
    Ou64 total;
    Ou64 limit;
    Obool fragile[64];    // copies of Frail made by this thread may throw
    int npools;
    bool pool0_ok;        // default-constructed policies are in order
    void (*watch)();      // called whenever an element is made or destroyed
};
ORACLE Reg R;

inline void reg_reset() {
    Quiet q;
    memset((void*)&R, 0, sizeof(R));
    R.live = new std::set<uintptr_t>;
    R.blocks = new std::map<uintptr_t, Reg::Block>;
    R.limit = ~0ull;
    R.npools = 1;
}
__attribute__((noinline)) inline void born(const void* p) {
    Quiet q;
    if (R.watch)
        R.watch();
    if (!R.live->insert((uintptr_t)p).second)
        violation("lifetime", "an element is constructed on top of a live one");
}
__attribute__((noinline)) inline void died(const void* p) {
    Quiet q;
    if (R.watch)
        R.watch();
    if (!R.live->erase((uintptr_t)p))
        violation("lifetime", "something that is not a live element is destroyed");
}
__attribute__((noinline)) inline void used(const void* p, const char* how) {
    Quiet q;
    if (!R.live->count((uintptr_t)p))
        violation("dead-read", "%s something that is not a live element", how);
}
__attribute__((noinline)) inline size_t live_elems() {
    Quiet q;
    return R.live->size();
}
// Live elements inside [p, p + n).
__attribute__((noinline)) inline size_t live_in(const void* p, size_t n) {
    Quiet q;
    size_t c = 0;
    for (auto i = R.live->lower_bound((uintptr_t)p); i != R.live->end() && *i < (uintptr_t)p + n; ++i)
        c++;
    return c;
}

// A value with a tracked life cycle.
class Elem {
    int64_t v_;
    const Elem* self_;

  public:
    Elem() : v_(kUnset), self_(this) {
        born(this);
    }
    explicit Elem(int64_t v) : v_(v), self_(this) {
        born(this);
    }
    Elem(const Elem& o) : v_(o.get()), self_(this) {
        R.copies[self()]++;
        born(this);
    }
    Elem(Elem&& o) : v_(o.get()), self_(this) {
        o.v_ = kMoved;
        born(this);
    }
    ~Elem() {
        died(this);
        if (self_ != this)
            violation("lifetime", "an element was copied bytewise");
        self_ = nullptr;
        v_ = -997;
    }
    Elem& operator=(const Elem& o) {
        used(this, "assignment to");
        R.copies[self()]++;
        v_ = o.get();
        return *this;
    }
    Elem& operator=(Elem&& o) {
        used(this, "assignment to");
        int64_t n = o.get();
        o.v_ = kMoved;
        v_ = n;
        return *this;
    }
    int64_t get() const {
        used(this, "read of");
        if (self_ != this)
            violation("lifetime", "an element was copied bytewise");
        return v_;
    }
    void set(int64_t v) {
        used(this, "write to");
        v_ = v;
    }
    bool operator==(const Elem& o) const {
        return get() == o.get();
    }
    bool operator!=(const Elem& o) const {
        return get() != o.get();
    }
};

struct Cancel {};

// May be cancelled here.
__attribute__((noinline)) inline void cancel_point() {
    point();
    if (fault(F_CANCEL)) {
        probe("cancelled");
        Quiet q;
        throw Cancel();
    }
}
// For a scope in which copying a Frail may be where the task is cancelled.
struct Fragile {
    Fragile() {
        R.fragile[self()] = true;
    }
    ~Fragile() {
        off();
    }
    void off() {
        R.fragile[self()] = false;
    }
};
// No element may be copied while this lives.
struct NoCopies {
    uint64_t n = R.copies[self()];
    const char* what;
    explicit NoCopies(const char* w) : what(w) {}
    ~NoCopies() {
        if (R.copies[self()] != n)
            violation("copied", "%s copied", what);
    }
};
inline void cancel_if_fragile() {
    if (R.fragile[self()])
        cancel_point();
}
class Frail {
    Elem e_;
    static void step() {
        cancel_if_fragile();
    }

  public:
    Frail() : e_(0) {}
    explicit Frail(int64_t v) : e_(v) {}
    Frail(const Frail& o) : e_((step(), o.e_)) {
        R.copies[self()]--;  // (it has no other way to be moved)
    }
    Frail& operator=(const Frail& o) {
        step();
        e_ = o.e_;
        R.copies[self()]--;
        return *this;
    }
    int64_t get() const {
        return e_.get();
    }
    void set(int64_t v) {
        e_.set(v);
    }
    bool operator==(const Frail& o) const {
        return e_ == o.e_;
    }
    bool operator!=(const Frail& o) const {
        return e_ != o.e_;
    }
};

// Pool 0 is nobody's: a container that uses it dropped the policy it was given.
class Pol {
    int pool_;
    Pol* check_;  // never bytewise or partially initialised

  public:
    Pol() : pool_(0), check_(this) {}
    explicit Pol(int pool) : pool_(pool), check_(this) {}
    Pol(const Pol& o) : pool_(o.pool()), check_(this) {}
    Pol& operator=(const Pol& o) {
        pool_ = o.pool();
        return *this;
    }
    int pool() const {
        if (check_ != this)
            violation("policy", "an allocation policy is used before its constructor");
        return pool_;
    }
    void reportOutOfMemory() {}
    void reportAllocationOverflow() {
        R.overflows[self()]++;
        probe("overflow");
    }
    __attribute__((noinline)) void* am_malloc(size_t n) {
        int pool = this->pool();
        SIM_EXPECT(pool < 4096, "harness", "too many pools");
        SIM_EXPECT(pool || R.pool0_ok, "policy", "memory comes from a policy nobody gave to the container");
        SIM_EXPECT(n < (1ull << 31), "overflow", "a request for %zu bytes reached the policy", n);
        point();
        if (fault(F_POLICY)) {
            R.refused[self()]++;
            probe("refused");
            return nullptr;
        }
        if (R.total + n > R.limit) {
            R.refused[self()]++;
            probe("budget");
            return nullptr;
        }
        void* p = arena_alloc(n);
        if (!p)
            violation("harness", "simulated heap exhausted");
        Quiet q;
        (*R.blocks)[(uintptr_t)p] = Reg::Block{pool, n};
        R.total += n;
        R.bytes[pool] += n;
        R.allocs[self()]++;
        return p;
    }
    __attribute__((noinline)) void am_free(void* p) {
        int pool = this->pool();
        if (!p)
            return;
        point();
        {
            Quiet q;
            auto i = R.blocks->find((uintptr_t)p);
            if (i == R.blocks->end())
                violation("policy", "am_free of something that am_malloc did not return, or twice");
            if (i->second.pool != pool)
                violation("policy", "a block of policy %d is given back to policy %d", i->second.pool, pool);
            size_t n = i->second.n;
            size_t left = live_in(p, n);
            if (left)
                violation("leak", "memory holding %zu live elements is freed", left);
            R.total -= n;
            R.bytes[pool] -= n;
            R.blocks->erase(i);
        }
        arena_free(p);
    }
};

}  // namespace elems
