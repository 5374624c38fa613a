/* What an observer of the instructions and addresses of a run sees, as a digest: the callbacks of
   LLVM's coverage instrumentation (every edge taken, the address of every load and store, every
   computed index), and the calls of the C library's block routines, which it does not see into. */
#include <stddef.h>
#include <stdint.h>

static int on;
static uint64_t h1, h2, n, pc;
/* to find the first difference of two runs */
static uint64_t *tape, room, at, where_[2];

static inline void event(uint64_t x)
{
    if (!on)
        return;
    h1 = (h1 ^ x) * 0x9E3779B97F4A7C15ull;
    h1 ^= h1 >> 29;
    h2 = (h2 + x) * 0xD6E8FEB86659FD93ull;
    h2 ^= h2 >> 32;
    if (on == 2 && n < room)
        tape[n] = x;
    if (on == 3 && !at && (n >= room || tape[n] != x)) {
        at = n + 1;
        where_[0] = pc;
        where_[1] = x;
    }
    n++;
}

void __sanitizer_cov_trace_pc(void)
{
    uint64_t r = (uint64_t)__builtin_return_address(0);
    event(r);
    pc = r;
}
#define ACCESS(k) \
    void __sanitizer_cov_load##k(void *p) { event((uint64_t)p * 4 + 1); } \
    void __sanitizer_cov_store##k(void *p) { event((uint64_t)p * 4 + 2); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
void __sanitizer_cov_trace_gep(uint64_t i) { event(i * 4 + 3); }

void *memcpy(void *d, const void *s, size_t k)
{
    event((uint64_t)d), event((uint64_t)s), event(k);
    for (size_t i = 0; i < k; i++)
        ((volatile char *)d)[i] = ((const char *)s)[i];
    return d;
}
void *memmove(void *d, const void *s, size_t k)
{
    event((uint64_t)d), event((uint64_t)s), event(k);
    if ((uintptr_t)d < (uintptr_t)s)
        for (size_t i = 0; i < k; i++)
            ((volatile char *)d)[i] = ((const char *)s)[i];
    else
        while (k--)
            ((volatile char *)d)[k] = ((const char *)s)[k];
    return d;
}
void *memset(void *d, int c, size_t k)
{
    event((uint64_t)d), event(k);
    for (size_t i = 0; i < k; i++)
        ((volatile char *)d)[i] = c;
    return d;
}
/* stops at the first difference */
int memcmp(const void *a, const void *b, size_t k)
{
    const unsigned char *x = a, *y = b;
    size_t i = 0;
    while (i < k && x[i] == y[i])
        i++;
    event((uint64_t)a), event((uint64_t)b), event(i);
    return i < k ? x[i] - y[i] : 0;
}
int bcmp(const void *a, const void *b, size_t k) { return memcmp(a, b, k); }

void leak_tape(uint64_t *t, uint64_t k) { tape = t, room = k; }
/* 1: digest, 2: and record, 3: and compare with what was recorded */
void leak_on(int mode) { h1 = h2 = n = at = pc = 0, on = mode; }
void leak_off(uint64_t *o)
{
    on = 0;
    o[0] = n, o[1] = h1, o[2] = h2, o[3] = at, o[4] = where_[0], o[5] = where_[1], o[6] = (uint64_t)leak_off;
}
