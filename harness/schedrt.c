/* Schedules: where a thread is made to wait, so that the others run on.  The callbacks of LLVM's
   coverage instrumentation are the places: any block of the crate's code, and, much more likely, any
   access to what threads could share: writable static memory. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <time.h>

extern char __data_start __attribute__((weak)), _end __attribute__((weak));
static __thread int on;
static __thread uint64_t rng, mine;
static __thread unsigned char visits[1 << 12];

static uint64_t next(void)
{
    rng ^= rng << 13, rng ^= rng >> 7, rng ^= rng << 17;
    return rng;
}

/* In a run a thread is slow at few places (one in `few`), and there for long: the first times it
   comes there, and now and then after.  Which places is different for each thread and run. */
static void place(uint64_t pc, unsigned few)
{
    uint64_t h = ((pc - (uint64_t)&__data_start) ^ mine) * 0x9E3779B97F4A7C15ull;
    h = (h ^ h >> 31) * 0xD6E8FEB86659FD93ull;
    if ((h >> 20) % few)
        return;
    unsigned char *c = &visits[h >> 52];
    if (*c > 2 && next() % 512)
        return;
    *c += *c < 3;
    struct timespec t = {0, 50000u << next() % 7};
    nanosleep(&t, 0);
}

static inline int shared(const void *p) { return (char *)p >= &__data_start && (char *)p < &_end; }

void __sanitizer_cov_trace_pc(void)
{
    if (on)
        place((uint64_t)__builtin_return_address(0), 48);
}
static void access_(void *p, uint64_t pc)
{
    if (on && shared(p))
        place(pc, 3);
}
#define ACCESS(k) \
    void __sanitizer_cov_load##k(void *p) { access_(p, (uint64_t)__builtin_return_address(0)); } \
    void __sanitizer_cov_store##k(void *p) { access_(p, (uint64_t)__builtin_return_address(0)); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)

void __sanitizer_cov_trace_gep(uint64_t i) { (void)i; }

/* a copy from or to shared memory is not one step */
static void *copy(char *d, const char *s, size_t k, uint64_t pc)
{
    int slow = on && k > 8 && (shared(d) || shared(s));
    if (d <= s)
        for (size_t i = 0; i < k; i++) {
            if (slow && i == k / 2)
                place(pc, 3);
            ((volatile char *)d)[i] = s[i];
        }
    else
        for (size_t i = k; i--;) {
            if (slow && i == k / 2)
                place(pc, 3);
            ((volatile char *)d)[i] = s[i];
        }
    return d;
}
void *memcpy(void *d, const void *s, size_t k) { return copy(d, s, k, (uint64_t)__builtin_return_address(0)); }
void *memmove(void *d, const void *s, size_t k) { return copy(d, s, k, (uint64_t)__builtin_return_address(0)); }

void sched_on(int x)
{
    static uint64_t threads;
    if (!rng) {
        const char *e = getenv("SCHED_SEED");
        mine = 0xD6E8FEB86659FD93ull * (2 * (e ? strtoull(e, 0, 10) : 1) + 1) + 0x9E3779B97F4A7C15ull * __atomic_add_fetch(&threads, 1, __ATOMIC_RELAXED);
        mine ^= mine >> 29;
        rng = mine | 1;
        next();
    }
    on = x;
}
