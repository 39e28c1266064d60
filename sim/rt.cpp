#include "rt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <ctime>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

RtState rt;
void (*rt_on_free)(void *, size_t) = nullptr;

// ---------------------------------------------------------------- simulated heap
namespace {
const size_t HEAP = size_t(1) << 32;
char *heap_base = nullptr, *heap_end = nullptr, *heap_top = nullptr, *heap_low = nullptr;   // fresh memory: heap_top up to heap_low
const uint32_t MAGIC = 0x5ca1ab1e, DEAD = 0xdeadbeef, TAIL = 0x7a117a11;
struct Head { uint32_t magic; uint32_t cls; uint64_t size; };
enum { NCLS = 40 };
void *freelist[NCLS];
uint64_t fill_state = 88172645463325252ull;

size_t cls_size(unsigned c) { return size_t(32) << c; }
unsigned cls_of(size_t n) { unsigned c = 0; while(cls_size(c) < n) c++; return c; }

void fill(void *p, size_t n, uint32_t pat) {
    rt.filled_bytes += n;
    if(pat < 256) { memset(p, (int)pat, n); return; }
    unsigned char *q = (unsigned char *)p;
    for(size_t i = 0; i < n; i++) {
        fill_state ^= fill_state << 13; fill_state ^= fill_state >> 7; fill_state ^= fill_state << 17;
        q[i] = (unsigned char)(fill_state >> 24);
    }
}

Head *fresh(unsigned c) {
    size_t z = cls_size(c);
    if(size_t(heap_low - heap_top) < z * 32) rt_budget_exceeded();
    if(rt.layout == 1) return (Head *)(heap_low -= z);
    if(rt.layout > 1 && c < 8) {          // a batch of blocks, handed out in a shuffled order
        static uint64_t s; if(!s) s = rt.layout * 0x9e3779b97f4a7c15ull;
        unsigned char at[16];
        for(int i = 0; i < 16; i++) {
            s ^= s << 13; s ^= s >> 7; s ^= s << 17;
            int j = int((s >> 20) % (i + 1)); at[i] = at[j]; at[j] = (unsigned char)i;
        }
        for(int i = 1; i < 16; i++) {
            Head *h = (Head *)(heap_top + at[i] * z);
            h->magic = DEAD; memcpy(h + 1, &freelist[c], sizeof(void *)); freelist[c] = h;
        }
        Head *h = (Head *)(heap_top + at[0] * z);
        heap_top += 16 * z;
        return h;
    }
    Head *h = (Head *)heap_top; heap_top += z; return h;
}

void *sim_alloc(size_t n) {
    rt.seq++;
    if(rt.armed && rt.oom_at >= 0 && (rt.seq - 1 == rt.oom_at || (rt.oom_forever && rt.seq - 1 > rt.oom_at))) {
        rt.oom_fired++;
        throw std::bad_alloc();
    }
    if(rt.budget && rt.seq > rt.budget) rt_budget_exceeded();
    if(n > (size_t(1) << 31)) throw std::bad_alloc();
    unsigned c = cls_of(n + sizeof(Head) + 4);
    Head *h;
    if(freelist[c]) {
        h = (Head *)freelist[c];
        memcpy(&freelist[c], h + 1, sizeof(void *));
    } else h = fresh(c);
    h->magic = MAGIC; h->cls = c; h->size = n;
    memcpy((char *)(h + 1) + n, &TAIL, 4);
    if(rt.fill_on) fill(h + 1, n, rt.fill_alloc);
    rt.live++;
    return h + 1;
}

void sim_free(void *p) {
    Head *h = (Head *)p - 1;
    uint32_t t;
    if(h->magic != MAGIC) { rt.corrupt++; return; }
    memcpy(&t, (char *)p + h->size, 4);
    if(t != TAIL) rt.corrupt++;
    if(rt_on_free) rt_on_free(p, h->size);
    h->magic = DEAD;
    if(rt.fill_on) fill(p, h->size, rt.fill_free);
    memcpy(h + 1, &freelist[h->cls], sizeof(void *));
    freelist[h->cls] = h;
    rt.live--;
}
} // namespace

void rt_each_block(void (*f)(void *, size_t)) {
    if(rt.layout) return;
    for(char *p = heap_base; p < heap_top;) { Head *h = (Head *)p; if(h->magic == MAGIC) f(h + 1, h->size); p += cls_size(h->cls); }
}
void rt_init() {
    if(heap_base) return;
    void *want = (void *)0x200000000000ull;
    void *p = mmap(want, HEAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if(p == MAP_FAILED) { perror("simulated heap"); _exit(2); }
    heap_base = heap_top = (char *)p; heap_end = heap_low = heap_base + HEAP;
}

static inline void *do_new(size_t n) {
    if(rt.in_sut) return sim_alloc(n);
    void *p = malloc(n ? n : 1);
    if(!p) throw std::bad_alloc();
    return p;
}
static inline void do_delete(void *p) {
    if(!p) return;
    if((char *)p >= heap_base && (char *)p < heap_end) sim_free(p);
    else { if(rt_on_free && rt.in_sut) rt_on_free(p, 0); free(p); }
}
void *operator new(size_t n) { return do_new(n); }
void *operator new[](size_t n) { return do_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return do_new(n); } catch(...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return do_new(n); } catch(...) { return nullptr; } }
void operator delete(void *p) noexcept { do_delete(p); }
void operator delete[](void *p) noexcept { do_delete(p); }
void operator delete(void *p, size_t) noexcept { do_delete(p); }
void operator delete[](void *p, size_t) noexcept { do_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_delete(p); }

extern "C" void sim_enter_sut() { rt.in_sut = true; rt.armed = true; }
extern "C" void sim_leave_sut() { rt.in_sut = false; rt.armed = false; }
extern "C" void sim_disarm() { rt.armed = false; }

void rt_request_begin() { rt.seq = 0; rt.oom_fired = 0; rt.reads = 0; rt.tick_pos = 0; }

void __attribute__((noinline)) rt_poison_stack(uint32_t pattern, size_t bytes) {
    volatile unsigned char *p = (volatile unsigned char *)__builtin_alloca(bytes);
    if(pattern < 256) { for(size_t i = 0; i < bytes; i += 8) *(volatile uint64_t *)(p + i) = 0x0101010101010101ull * pattern; return; }
    uint64_t s = pattern * 0x9e3779b97f4a7c15ull + 1;
    for(size_t i = 0; i < bytes; i += 8) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; *(volatile uint64_t *)(p + i) = s; }
}

// ---------------------------------------------------------------- simulated clock
void rt_set_clock(int64_t s, int64_t ns, const int64_t *ticks, int n) {
    rt.clock_on = true; rt.now_s = s; rt.now_ns = ns;
    rt.nticks = n;
    for(int i = 0; i < n && i < 8; i++) rt.ticks_ns[i] = ticks[i];
    rt.tick_pos = 0; rt.reads = 0;
}

static void clock_read(int64_t &s, int64_t &ns) {
    s = rt.now_s; ns = rt.now_ns;
    if(rt.reads < 8) rt.read_s[rt.reads] = s;
    rt.reads++;
    int64_t t = rt.tick_pos < rt.nticks ? rt.ticks_ns[rt.tick_pos++] : 0;
    int64_t n = rt.now_ns + t % 1000000000;
    rt.now_s += t / 1000000000;
    if(n < 0) { n += 1000000000; rt.now_s--; }
    if(n >= 1000000000) { n -= 1000000000; rt.now_s++; }
    rt.now_ns = n;
}

extern "C" {
time_t time(time_t *out) noexcept {
    int64_t s, ns;
    if(rt.clock_on) clock_read(s, ns);
    else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); s = ts.tv_sec; }
    if(out) *out = s;
    return s;
}
int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
    if(rt.clock_on && rt.in_sut && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_MONOTONIC)) {
        int64_t s, ns; clock_read(s, ns);
        ts->tv_sec = s; ts->tv_nsec = ns; return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval *tv, void *) noexcept {
    int64_t s, ns;
    if(rt.clock_on) clock_read(s, ns);
    else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); s = ts.tv_sec; ns = ts.tv_nsec; }
    if(tv) { tv->tv_sec = s; tv->tv_usec = ns / 1000; }
    return 0;
}
int timespec_get(struct timespec *ts, int base) noexcept { return clock_gettime(CLOCK_REALTIME, ts) == 0 ? base : 0; }
}
