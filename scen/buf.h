// Output buffers whose surroundings are watched.
#pragma once
#include "common.h"

#include <sys/mman.h>

namespace bufs {
using namespace sim;

const size_t kGuard = 24;

// A buffer of |n| bytes. Either the block ends right behind it, or there are guards on both sides.
struct Buf {
    char* block;
    char* p;
    size_t n;
    bool guarded;
    bool huge; // of gigabytes, of which nobody should touch more than the beginning
};
const size_t kHuge[] = {0x7fffffff, 0x80000000, 0x80000005, 0xffffffff, 0x100000000, 0x100000003, 0x180000010};
__attribute__((noinline)) inline Buf make_huge_buf(int k) {
    Buf b;
    b.n = kHuge[k % 7];
    b.guarded = false;
    b.huge = true;
    b.block = (char*)mmap(nullptr, b.n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b.block == MAP_FAILED)
        violation("harness", "mmap");
    b.p = b.block;
    Quiet q;
    memset(b.p, 0x5a, 4096);
    probe("huge-buffer");
    return b;
}
__attribute__((noinline)) inline Buf make_buf(size_t n, bool guarded) {
    Buf b;
    b.n = n;
    b.huge = false;
    b.guarded = guarded || !n;
    size_t total = n + (b.guarded ? 2 * kGuard : 0);
    b.block = (char*)arena_alloc(total);
    if (!b.block)
        violation("harness", "simulated heap exhausted");
    b.p = b.block + (b.guarded ? kGuard : 0);
    Quiet q;
    memset(b.block, 0x5a, total);
    return b;
}
__attribute__((noinline)) inline void drop_buf(Buf& b) {
    if (b.huge)
        munmap(b.block, b.n);
    else
        arena_free(b.block);
}
__attribute__((noinline)) inline void check_guards(const Buf& b, const char* fn) {
    Quiet q;
    if (b.guarded) {
        for (size_t i = 0; i < kGuard; i++) {
            if (b.block[i] != 0x5a || b.p[b.n + i] != 0x5a)
                violation("overrun", "%s wrote outside a buffer of %zu bytes", fn, b.n);
        }
    }
}
__attribute__((noinline)) inline std::string show(const std::string& s) {
    std::string r;
    for (char c : s.substr(0, 40)) {
        if (c < 32 || c > 126) {
            char h[8];
            snprintf(h, sizeof(h), "\\x%02x", (unsigned char)c);
            r += h;
        } else {
            r += c;
        }
    }
    return "\"" + r + (s.size() > 40 ? "\"..." : "\"");
}
// The buffer holds the longest prefix of |want| that fits, and |len| says so.
__attribute__((noinline)) inline bool holds(const Buf& b, size_t len, const std::string& want) {
    Quiet q;
    if (!b.n)
        return len == 0;
    size_t k = want.size() < b.n ? want.size() : b.n - 1;
    return len == k && !memcmp(b.p, want.data(), k) && b.p[k] == 0;
}
}  // namespace bufs
