// Seeded scheduler and race detector. The code under test is compiled with -fsanitize=thread, whose
// calls end up here instead of in the sanitizer's runtime. Threads are real ones (so that thread-local
// storage is), but one of them runs at a time: the one that holds the baton. Every call from the
// instrumented code is a step at which the baton may pass on.
#include "sched.hpp"
#include "rt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cstdarg>
#include <ctime>
#include <clocale>
#include <iostream>
#include <string>
#include <map>
#include <vector>
#include <algorithm>
#include <mutex>
#include <cxxabi.h>
#include <elf.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>

#define PC ((uint32_t)(uintptr_t)__builtin_return_address(0))
extern "C" { extern char __data_start[], _end[]; }

namespace {
enum { MAXT = 4, STACK = 48 };
const char *const HEAP0 = (const char *)0x200000000000ull;
const size_t HEAPN = size_t(256) << 20;
enum State { RUN, BLOCKED, DONE };

struct Thread {
    sem_t sem; pthread_t id; State state = RUN; const void *waits = nullptr; int req = -1;
    bool in_sut = false, armed = false, forever = false, paused = true; long seq = 0, oom_at = -1; int fired = 0;
    uint32_t vc[MAXT] = {0, 0, 0, 0};
    int prio = 0; long spins = 0;
    const void *held[16]; int nheld = 0, in_guard = 0; bool back = false;
    uint32_t stack[STACK]; int depth = 0;
    std::vector<std::pair<void (*)(void *), void *>> at_end;
};
Thread th[MAXT];
SchedConf *conf = nullptr;
bool on = false;                 // threads run and the current one is in the code under test
int cur = 0;
uint64_t steps = 0, next_event = ~0ull, last_switch = 0, checks = 0;
void (*entry)(int);
sem_t all_done;
uint64_t rnd_state = 1;
uint64_t rnd() { uint64_t z = (rnd_state += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
uint64_t loguniform(int maxbits) { int b = (int)below(maxbits) + 1; return (1ull << (b - 1)) + below(1ull << (b - 1)); }
int fixed_pos = 0;
int changes_left = 0, lowest = 0;
int burst = 0;

void sim_save(Thread &t) { t.in_sut = rt.in_sut; t.armed = rt.armed; t.seq = rt.seq; t.oom_at = rt.oom_at; t.forever = rt.oom_forever; t.fired = rt.oom_fired; }
void sim_load(Thread &t) { rt.in_sut = t.in_sut; rt.armed = t.armed; rt.seq = t.seq; rt.oom_at = t.oom_at; rt.oom_forever = t.forever; rt.oom_fired = t.fired; }
void refresh() { on = conf && !th[cur].paused; }

// ------------------------------------------------------------------ when to switch
void plan() {                    // the step of the next voluntary switch
    if(conf->fixed) {
        while(fixed_pos < conf->nsched && conf->sched[fixed_pos].step < steps) fixed_pos++;
        next_event = fixed_pos < conf->nsched ? conf->sched[fixed_pos].step : conf->max_steps;
        return;
    }
    if(*conf->nout >= conf->maxout) { next_event = conf->max_steps; return; }
    if(conf->mode == 2) next_event = changes_left > 0 ? steps + loguniform(23) : steps + 20000000;
    else if(conf->mode == 3) {      // bursts of frequent switches, quiet in between
        if(burst <= 0) { burst = 1 + (int)below(60); next_event = steps + loguniform(22); }
        else { burst--; next_event = steps + 1 + below(conf->mean); }
    }
    else if(conf->mode == 4) next_event = steps + 1 + below(2000000);
    else next_event = steps + 1 + below(2 * (uint64_t)conf->mean);
}
bool runnable(int t) { return t >= 0 && t < conf->threads && th[t].state == RUN; }
int pick_other(bool must = false) {
    int c[MAXT], n = 0;
    for(int t = 0; t < conf->threads; t++) if(t != cur && runnable(t)) c[n++] = t;
    if(!n) return -1;
    if(conf->mode == 5) {           // who took a lock waits until nobody else can go on
        int k = 0; for(int i = 0; i < n; i++) if(!th[c[i]].back) std::swap(c[k++], c[i]);
        if(k) n = k; else if(!must && !th[cur].back && below(8)) return -1;
    }
    if(*conf->nout >= conf->maxout) { for(int i = 1; i < conf->threads; i++) { int t = (cur + i) % conf->threads; if(runnable(t)) return t; } }
    if(conf->mode == 2) { int b = c[0]; for(int i = 1; i < n; i++) if(th[c[i]].prio > th[b].prio) b = c[i]; return b; }
    return c[below(n)];
}
void finish_stats() { conf->steps = steps; conf->checks = checks; }

void pass_to(int t) {
    if(*conf->nout < conf->maxout) { conf->out[*conf->nout] = Switch{steps, t}; ++*conf->nout; }
    uint64_t h = conf->hash ? conf->hash : 1469598103934665603ull;
    h = (h ^ (uint64_t)(t + 1)) * 1099511628211ull; h = (h ^ (steps - last_switch)) * 1099511628211ull;
    conf->hash = h; last_switch = steps;
    int me = cur;
    sim_save(th[me]);
    cur = t; sim_load(th[t]); refresh();
    th[t].back = false;
    plan();
    bool done = th[me].state == DONE;
    sem_post(&th[t].sem);
    if(done) return;
    while(sem_wait(&th[me].sem) && errno == EINTR) { }
}
// something has to be decided at this step
__attribute__((noinline)) void event() {
    if(steps >= conf->max_steps) { rt.in_sut = false; finish_stats(); conf->stuck("no end: more steps than any request takes, while other threads can run"); }
    int to = -1;
    if(conf->fixed) {
        if(fixed_pos < conf->nsched && conf->sched[fixed_pos].step == steps) { to = conf->sched[fixed_pos].to; fixed_pos++; }
        if(!runnable(to) || to == cur) to = -1;
    } else if(conf->mode == 2) {
        // the running thread loses its priority
        if(changes_left > 0) changes_left--;
        th[cur].prio = --lowest;
        to = pick_other();
    } else to = pick_other();
    if(to < 0) { plan(); return; }
    pass_to(to);
}
inline void step() { if(++steps >= next_event) event(); }
// an access that other threads can notice: a good place for a switch
void chance(int one_in) {         // a step of its own, at which the baton passes at most once
    if(++steps >= next_event) { event(); return; }
    if(conf->fixed || *conf->nout >= conf->maxout || !one_in || below(one_in)) return;
    int to = pick_other();
    if(to >= 0) pass_to(to);
}
__attribute__((noinline)) void hot() { chance(conf->mode == 1 ? 6 : 0); }
void yield_now() {               // the running thread says that it waits
    if(++th[cur].spins > 200000) { rt.in_sut = false; finish_stats(); conf->stuck("a thread waits in a loop for something that never happens"); }
    steps++;
    int to = -1;
    if(conf->fixed && fixed_pos < conf->nsched && conf->sched[fixed_pos].step == steps) { to = conf->sched[fixed_pos].to; fixed_pos++; }
    if(!runnable(to) || to == cur) { to = -1; for(int i = 1; i < conf->threads && to < 0; i++) { int t = (cur + i) % conf->threads; if(runnable(t)) to = t; } }
    if(to >= 0) pass_to(to); else if(steps >= next_event) event();
}
int forced() {                   // the running thread can not go on
    int to = -1;
    if(conf->fixed) {
        if(fixed_pos < conf->nsched && conf->sched[fixed_pos].step == steps) { to = conf->sched[fixed_pos].to; fixed_pos++; }
        if(!runnable(to) || to == cur) { to = -1; for(int i = 1; i < conf->threads && to < 0; i++) { int t = (cur + i) % conf->threads; if(runnable(t)) to = t; } }
    } else to = pick_other(true);
    return to;
}
void block(const void *on_what, const char *name) {
    conf->blocked++;
    steps++;
    Thread &t = th[cur];
    t.state = BLOCKED; t.waits = on_what;
    int to = forced();
    if(to < 0) {
        std::string m = std::string("deadlock: thread ") + std::to_string(cur) + " waits for " + name + " and no other thread can run";
        rt.in_sut = false; finish_stats(); conf->stuck(m.c_str());
    }
    pass_to(to);
}
void wake(const void *what) { for(int t = 0; t < conf->threads; t++) if(th[t].state == BLOCKED && th[t].waits == what) { th[t].state = RUN; th[t].waits = nullptr; } }

// ------------------------------------------------------------------ order between threads
struct Sync { uintptr_t key = 0; uint32_t vc[MAXT] = {0, 0, 0, 0}; };
enum { NSYNC = 1 << 16 };
Sync *syncs;
Sync &sync_of(const void *p) {
    uintptr_t k = ((uintptr_t)p & ~(uintptr_t)7) | 1;
    uint32_t h = (uint32_t)((k * 0x9e3779b97f4a7c15ull) >> 40) & (NSYNC - 1);
    for(int i = 0; i < 64; i++) {
        Sync &s = syncs[(h + i) & (NSYNC - 1)];
        if(s.key == k) return s;
        if(!s.key) { s.key = k; return s; }
    }
    return syncs[0];             // shared by what does not fit: orders more than there is
}
void acquire(const void *p) { Sync &s = sync_of(p); uint32_t *v = th[cur].vc; for(int i = 0; i < MAXT; i++) if(s.vc[i] > v[i]) v[i] = s.vc[i]; }
void release(const void *p) {
    Sync &s = sync_of(p); uint32_t *v = th[cur].vc;
    for(int i = 0; i < MAXT; i++) if(v[i] > s.vc[i]) s.vc[i] = v[i];
    if(v[cur] < 0xfffff) v[cur]++;
}

// ------------------------------------------------------------------ accesses
void hint(int kind, uint64_t a, uint64_t b);
unsigned char *older;            // heap words that were in use before the threads started
inline bool is_older(uintptr_t a) { uintptr_t h = a - (uintptr_t)HEAP0; return h < HEAPN && (older[h >> 6] >> ((h >> 3) & 7) & 1); }
// a word: clock 20 | thread 2 | bytes 8 | write 1 | used 1 | pc 32
struct Cell { uint64_t w[4]; };
Cell *heap_shadow, *data_shadow;
size_t data_n;
const int VIRT = 64;             // cells for state inside the C library
char virt_mem[VIRT * 8] __attribute__((aligned(8)));

inline Cell *cell_of(uintptr_t a) {
    uintptr_t h = a - (uintptr_t)HEAP0;
    if(h < HEAPN) return heap_shadow + (h >> 3);
    uintptr_t d = a - ((uintptr_t)__data_start & ~(uintptr_t)7);
    if(d < data_n) return data_shadow + (d >> 3);
    return nullptr;
}
inline uint64_t word(uint32_t clk, int t, uint32_t mask, bool write, uint32_t pc) {
    return ((uint64_t)pc << 32) | 1ull | ((uint64_t)write << 1) | ((uint64_t)mask << 2) | ((uint64_t)t << 10) | ((uint64_t)clk << 12);
}
inline uint32_t w_clk(uint64_t w) { return (uint32_t)(w >> 12) & 0xfffff; }
inline int w_t(uint64_t w) { return (int)(w >> 10) & 3; }
inline uint32_t w_mask(uint64_t w) { return (uint32_t)(w >> 2) & 0xff; }
inline bool w_write(uint64_t w) { return w & 2; }
inline uint32_t w_pc(uint64_t w) { return (uint32_t)(w >> 32); }

// ---- names, from the symbol table of this binary
struct Sym { uint64_t at, size; std::string name; bool func; };
std::vector<Sym> *symtab;
void load_symbols() {
    if(symtab) return;
    symtab = new std::vector<Sym>;
    FILE *f = fopen("/proc/self/exe", "rb");
    if(!f) return;
    fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f);
    std::vector<char> b(n);
    if(fread(b.data(), 1, n, f) != (size_t)n) { fclose(f); return; }
    fclose(f);
    Elf64_Ehdr *e = (Elf64_Ehdr *)b.data(); Elf64_Shdr *s = (Elf64_Shdr *)(b.data() + e->e_shoff);
    for(int i = 0; i < e->e_shnum; i++) {
        if(s[i].sh_type != SHT_SYMTAB) continue;
        const char *str = b.data() + s[s[i].sh_link].sh_offset;
        Elf64_Sym *y = (Elf64_Sym *)(b.data() + s[i].sh_offset);
        for(size_t k = 0; k < s[i].sh_size / sizeof *y; k++) {
            int ty = ELF64_ST_TYPE(y[k].st_info);
            if(!y[k].st_value || (ty != STT_FUNC && ty != STT_OBJECT)) continue;
            symtab->push_back({y[k].st_value, y[k].st_size, str + y[k].st_name, ty == STT_FUNC}); { auto &n = symtab->back().name; size_t at = n.find('@'); if(at != std::string::npos) n.resize(at); }
        }
    }
    std::sort(symtab->begin(), symtab->end(), [](const Sym &a, const Sym &b) { return a.at != b.at ? a.at < b.at : a.name < b.name; });
}
std::string name_of(uint64_t a, bool func) {
    load_symbols();
    for(auto &s : *symtab) if(s.func == func && a >= s.at && a < s.at + std::max<uint64_t>(s.size, 1)) {
        int st; char *d = abi::__cxa_demangle(s.name.c_str(), nullptr, nullptr, &st);
        std::string r = d ? d : s.name; free(d);
        return r;
    }
    return "";
}
bool of_repo(const std::string &n) { return n.find("parser::") != std::string::npos || n.find("utils::") != std::string::npos || n.find("parse::") != std::string::npos || n.find("refiners::") != std::string::npos || n.find("refiner") != std::string::npos; }
std::string shorten(std::string s) {
    static const char *const cut[][2] = {{"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "std::string"}, {"[abi:cxx11]", ""}};
    for(auto &c : cut) { size_t at; while((at = s.find(c[0])) != std::string::npos) s.replace(at, strlen(c[0]), c[1]); }
    if(s.size() > 160) s = s.substr(0, 157) + "...";
    return s;
}
// the standard streams may be used by several threads at once
bool ignored(uintptr_t a) {
    auto in = [a](const void *p, size_t n) { return a - (uintptr_t)p < n; };
    return in(&std::cout, sizeof std::cout) || in(&std::cerr, sizeof std::cerr) || in(&std::clog, sizeof std::clog) || in(&std::cin, sizeof std::cin);
}
__attribute__((noinline)) void race(uintptr_t a, uint64_t old, bool write, uint32_t pc, const char *what) {
    bool in = rt.in_sut; rt.in_sut = false; on = false;
    if(ignored(a)) { rt.in_sut = in; refresh(); return; }
    std::string where;
    if(what) where = what;
    else if(a - (uintptr_t)HEAP0 < HEAPN) where = "memory on the heap";
    else { where = name_of(a, false); if(where.empty()) where = "static memory"; }
    std::string f1 = name_of(pc, true), f2 = name_of(w_pc(old), true), by;
    if(!of_repo(f1)) for(int i = std::min<int>(th[cur].depth, STACK) - 1; i >= 0 && by.empty(); i--) {
        std::string n = name_of(th[cur].stack[i], true);
        if(of_repo(n)) by = " (called from " + shorten(n) + ")";
    }
    std::string m = "thread " + std::to_string(cur) + (write ? " writes " : " reads ") + shorten(where) + " in " + shorten(f1) + by + " while thread " +
        std::to_string(w_t(old)) + (w_write(old) ? " wrote" : " read") + " it in " + shorten(f2) + ", nothing orders the two";
    finish_stats();
    conf->race(m.c_str());
}
inline bool access(Cell *c, uintptr_t a, uint32_t mask, bool write, uint32_t pc, const char *what = nullptr) {
    checks++;
    uint32_t *vc = th[cur].vc;
    uint64_t me = word(vc[cur], cur, mask, write, pc);
    int place = -1; bool others = false;
    for(int i = 0; i < 4; i++) {
        uint64_t w = c->w[i];
        if(!w) { if(place < 0) place = i; break; }
        if(w_t(w) == cur) {
            if(w_mask(w) == mask && w_write(w) == write) { place = i; if(!others && i == 0 && w_clk(w) == vc[cur]) return false; }
            continue;
        }
        others = true;
        if((w_mask(w) & mask) && (write || w_write(w)) && w_clk(w) > vc[w_t(w)]) race(a, w, write, pc, what);
    }
    if(place < 0) {
        // an older access that this one replaces, else any
        for(int i = 0; i < 4 && place < 0; i++) { uint64_t w = c->w[i]; if(w_t(w) == cur && !(w_mask(w) & ~mask) && (write || !w_write(w))) place = i; }
        for(int i = 0; i < 4 && place < 0; i++) { uint64_t w = c->w[i]; if(w_t(w) != cur && w_clk(w) <= vc[w_t(w)]) place = i; }
        if(place < 0) place = (int)(steps & 3);
    }
    c->w[place] = me;
    return others;
}
__attribute__((noinline)) void wrote(uintptr_t a, uint32_t pc) {
    if(a - (uintptr_t)conf->own < conf->own_n || ignored(a)) return;
    Thread &t = th[cur]; uint64_t h = pc;
    for(int i = std::min<int>(t.depth, STACK) - 1, n = 0; i >= 0 && n < 3; i--, n++) h = h * 1099511628211ull ^ t.stack[i];
    hint(1, h, 0);
}
inline void touch(const void *p, unsigned n, bool write, uint32_t pc) {
    uintptr_t a = (uintptr_t)p;
    Cell *c = cell_of(a);
    step();
    if(!c) return;
    unsigned off = a & 7;
    bool data = c - data_shadow >= 0 && (size_t)(c - data_shadow) < (data_n >> 3) + 1;
    bool others = false;
    if(off + n <= 8) others = access(c, a, ((1u << n) - 1) << off, write, pc);
    else {
        others = access(c, a, (0xff << off) & 0xff, write, pc);
        unsigned left = n - (8 - off);
        uintptr_t b = (a & ~(uintptr_t)7) + 8;
        while(left) { Cell *d = cell_of(b); unsigned k = left < 8 ? left : 8; if(d) others |= access(d, b, (1u << k) - 1, write, pc); left -= k; b += 8; }
    }
    if(write && (data || is_older(a)) && !th[cur].in_guard) wrote(a, pc);
    if(others || (data && write)) hot();
}
void range(const void *p, size_t n, bool write, uint32_t pc) {
    if(!on) return;
    if(!n) return;
    step();
    uintptr_t a = (uintptr_t)p, e = a + n; bool others = false;
    if(!cell_of(a)) return;
    if(write && (is_older(a) || a - (uintptr_t)HEAP0 >= HEAPN) && !th[cur].in_guard) wrote(a, pc);
    while(a < e) {
        uintptr_t b = std::min<uintptr_t>(e, (a & ~(uintptr_t)7) + 8);
        Cell *c = cell_of(a);
        if(c) others |= access(c, a, ((1u << (b - a)) - 1) << (a & 7), write, pc);
        a = b;
    }
    if(others) hot();
}
void virt(int i, const char *name, uint32_t pc) {
    if(!on) return;
    step();
    uintptr_t a = (uintptr_t)virt_mem + i * 8;
    access(cell_of(a), a, 0xff, true, pc, name);
    hot();
}
void on_free(void *p, size_t n) {
    if(!conf) return;
    uintptr_t a = (uintptr_t)p;
    if(on) range(p, n, true, PC);
    for(uintptr_t b = a & ~(uintptr_t)7; b < a + n; b += 8) { Cell *c = cell_of(b); if(c && c->w[0]) memset(c, 0, sizeof *c); if(is_older(b)) { uintptr_t h = b - (uintptr_t)HEAP0; older[h >> 6] &= ~(1 << ((h >> 3) & 7)); } }
}
// before and after locks and other synchronisation: the places where what belongs together can be torn apart
__attribute__((noinline)) void sync_step() {
    if(on) chance(conf->mode == 2 ? 0 : conf->mode == 4 ? 2 : 8);
}

// ------------------------------------------------------------------ locks
void hint(int kind, uint64_t a, uint64_t b) {
    int n = *conf->nhints;
    for(int i = 0; i < n; i++) if(conf->hints[i].kind == kind && conf->hints[i].a == a && conf->hints[i].b == b) return;
    if(n < conf->maxhints) { conf->hints[n] = Hint{kind, a, b, th[cur].req}; *conf->nhints = n + 1; }
}
void took(const void *p) {
    if(!conf) return;
    Thread &t = th[cur];
    for(int i = 0; i < t.nheld; i++) if(t.held[i] != p) hint(0, (uint64_t)(uintptr_t)t.held[i], (uint64_t)(uintptr_t)p);
    if(t.nheld < 16) t.held[t.nheld++] = p;
    if(!on) return;
    t.back = conf->mode == 5 && below(4);
    chance(t.back);
    t.back = false;
}
void gave(const void *p) {
    if(!conf) return;
    Thread &t = th[cur];
    for(int i = t.nheld - 1; i >= 0; i--) if(t.held[i] == p) { for(t.nheld--; i < t.nheld; i++) t.held[i] = t.held[i + 1]; return; }
}
struct Lock { int owner = -1, count = 0, readers[MAXT] = {0, 0, 0, 0}; };
std::map<const void *, Lock> *locks;
Lock &lock_of(const void *p) { bool in = rt.in_sut; rt.in_sut = false; if(!locks) locks = new std::map<const void *, Lock>; Lock &l = (*locks)[p]; rt.in_sut = in; return l; }
void forget_lock(const void *p) { bool in = rt.in_sut; rt.in_sut = false; if(locks) locks->erase(p); rt.in_sut = in; }
int reading(Lock &l, int except = -1) { int n = 0; for(int i = 0; i < MAXT; i++) if(i != except) n += l.readers[i]; return n; }
int lock_write(void *p, bool wait, bool recursive, const char *name) {
    sync_step();
    for(;;) {
        Lock &l = lock_of(p);
        if(l.owner == cur && l.count) {
            if(recursive) { l.count++; return 0; }
            if(!wait) return EBUSY;
        }
        if(!l.count && !reading(l)) { l.owner = cur; l.count = 1; if(conf) acquire(p); took(p); return 0; }
        if(!wait) return EBUSY;
        if(!conf) { fprintf(stderr, "deadlock without threads\n"); _exit(96); }
        block(p, name);
    }
}
int lock_read(void *p, bool wait) {
    sync_step();
    for(;;) {
        Lock &l = lock_of(p);
        if(!l.count) { l.readers[cur]++; if(conf) acquire(p); took(p); return 0; }
        if(!wait) return EBUSY;
        if(!conf) { fprintf(stderr, "deadlock without threads\n"); _exit(96); }
        block(p, "a shared lock");
    }
}
int unlock(void *p) {
    sync_step();
    Lock &l = lock_of(p);
    if(l.count && l.owner == cur) { if(--l.count == 0) { l.owner = -1; gave(p); } }
    else if(l.readers[cur]) { l.readers[cur]--; gave(p); }
    if(conf) { release(p); wake(p); sync_step(); }
    return 0;
}
bool is_recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

void *thread_start(void *arg) {
    int t = (int)(intptr_t)arg;
    while(sem_wait(&th[t].sem) && errno == EINTR) { }
    entry(t);
    th[t].paused = false; refresh();
    // thread-local objects end while this thread has the baton
    while(!th[t].at_end.empty()) { auto f = th[t].at_end.back(); th[t].at_end.pop_back(); rt.in_sut = true; f.first(f.second); rt.in_sut = false; }
    th[t].paused = true; refresh();
    th[t].state = DONE;
    steps++;
    int to = forced();
    if(to >= 0) { pass_to(to); return nullptr; }
    for(int i = 0; i < conf->threads; i++) if(th[i].state == BLOCKED) { finish_stats(); conf->stuck(("thread " + std::to_string(i) + " waits forever").c_str()); }
    sem_post(&all_done);
    return nullptr;
}
} // namespace

bool sched_available() { return true; }
void sched_request(int thread, int req) { th[thread].req = req; sched_resume(); }
int sched_current_request() { return conf ? th[cur].req : -1; }
void sched_pause() { if(conf) { th[cur].paused = true; refresh(); } }
void sched_resume() { if(conf) { th[cur].paused = false; refresh(); } }

static void *shadow(size_t n) {
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(p == MAP_FAILED) { perror("shadow"); _exit(95); }
    return p;
}
void sched_threads(SchedConf &c, void (*fn)(int)) {
    // threads on one processor: the baton passes faster
    cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(sched_getcpu(), &cs); sched_setaffinity(0, sizeof cs, &cs);
    heap_shadow = (Cell *)shadow(HEAPN / 8 * sizeof(Cell));
    data_n = (size_t)(_end - __data_start) + 16;
    data_shadow = (Cell *)shadow((data_n / 8 + 2) * sizeof(Cell));
    syncs = (Sync *)shadow(sizeof(Sync) * NSYNC);
    rt_on_free = on_free;
    older = (unsigned char *)shadow(HEAPN / 64);
    rt_each_block([](void *p, size_t n) { for(uintptr_t h = (uintptr_t)p - (uintptr_t)HEAP0, e = h + n; h < e && h < HEAPN; h += 8) older[h >> 6] |= 1 << ((h >> 3) & 7); });
    *c.nhints = 0;
    rnd_state = c.seed * 2 + 1;
    entry = fn; steps = 0; last_switch = 0; checks = 0; fixed_pos = 0; burst = 0;
    *c.nout = 0; c.hash = 0; c.blocked = 0;
    changes_left = c.mode == 2 ? 1 + (int)below(5) : 0; lowest = 0;
    sem_init(&all_done, 0, 0);
    for(int t = 0; t < c.threads; t++) {
        sem_init(&th[t].sem, 0, 0);
        th[t].vc[t] = 1; th[t].prio = (int)below(1000) + 1; th[t].paused = true;
        sim_save(th[t]);
    }
    conf = &c; on = false;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, size_t(64) << 20);
    for(int t = 0; t < c.threads; t++) if(pthread_create(&th[t].id, &at, thread_start, (void *)(intptr_t)t)) { perror("thread"); _exit(95); }
    // the first one to run
    int f = c.fixed ? (c.nsched && c.sched[0].step == 0 ? c.sched[0].to : 0) : (int)below(c.threads);
    if(f < 0 || f >= c.threads) f = 0;
    if(c.fixed && c.nsched && c.sched[0].step == 0) fixed_pos = 1;
    c.out[0] = Switch{0, f}; *c.nout = 1;
    steps = 1;
    cur = f; sim_load(th[f]); plan();
    sem_post(&th[f].sem);
    while(sem_wait(&all_done) && errno == EINTR) { }
    for(int t = 0; t < c.threads; t++) pthread_join(th[t].id, nullptr);
    finish_stats();
    conf = nullptr; on = false; rt_on_free = nullptr;
}

// ------------------------------------------------------------------ calls of the instrumented code
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *pc) {
    if(!on) return;
    Thread &t = th[cur];
    if(t.depth < STACK) t.stack[t.depth] = (uint32_t)(uintptr_t)pc;
    t.depth++;
    step();
}
void __tsan_func_exit() { if(on) { Thread &t = th[cur]; if(t.depth > 0) t.depth--; } }
#define RW(n) void __tsan_read##n(void *p) { if(on) touch(p, n, false, PC); } void __tsan_write##n(void *p) { if(on) touch(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void *p) { if(on) touch(p, n, false, PC); } void __tsan_unaligned_write##n(void *p) { if(on) touch(p, n, true, PC); } \
    void __tsan_read##n##_pc(void *p, void *) { if(on) touch(p, n, false, PC); } void __tsan_write##n##_pc(void *p, void *) { if(on) touch(p, n, true, PC); } \
    void __tsan_volatile_read##n(void *p) { if(on) touch(p, n, false, PC); } void __tsan_volatile_write##n(void *p) { if(on) touch(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { range(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { range(p, n, true, PC); }
// storing the same table again is no write; what the stack held before must not count as a step
void __tsan_vptr_update(void **p, void *v) { if(on) { if(cell_of((uintptr_t)p) && *p != v) touch(p, 8, true, PC); else step(); } }
void __tsan_vptr_read(void **p) { if(on) touch(p, 8, false, PC); }

static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
#define PRE(p) sync_step()
#define ACQ(p, mo) do { if(on && acq(mo)) acquire((const void *)p); } while(0)
#define REL(p, mo) do { if(on && rel(mo)) release((const void *)p); } while(0)
#define RMW(n, T, name, op) T __tsan_atomic##n##_##name(volatile T *p, T v, int mo) { PRE(p); ACQ(p, mo); REL(p, mo); return op(p, v, __ATOMIC_SEQ_CST); }
#define ATOMIC(n, T) \
    T __tsan_atomic##n##_load(const volatile T *p, int mo) { PRE(p); ACQ(p, mo); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##n##_store(volatile T *p, T v, int mo) { PRE(p); REL(p, mo); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    RMW(n, T, exchange, __atomic_exchange_n) RMW(n, T, fetch_add, __atomic_fetch_add) RMW(n, T, fetch_sub, __atomic_fetch_sub) RMW(n, T, fetch_and, __atomic_fetch_and) \
    RMW(n, T, fetch_or, __atomic_fetch_or) RMW(n, T, fetch_xor, __atomic_fetch_xor) RMW(n, T, fetch_nand, __atomic_fetch_nand) \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) { \
        PRE(p); T x = *e; bool ok = __atomic_compare_exchange_n(p, &x, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); *e = x; \
        ACQ(p, ok ? mo : fmo); if(ok) REL(p, mo); return ok; } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, mo, fmo); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { T x = e; __tsan_atomic##n##_compare_exchange_strong(p, &x, v, mo, fmo); return x; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
static char fence_key[8];
void __tsan_atomic_thread_fence(int mo) { PRE(0); if(on) { acquire(fence_key); release(fence_key); } }
void __tsan_atomic_signal_fence(int) {}

// ---- function-local statics
static std::map<uint64_t *, int> *guards;    // being initialised, by which thread
int sched_guard_acquire(uint64_t *g) {
    sync_step();
    for(;;) {
        if(*(volatile char *)g) { if(conf) acquire(g); return 0; }
        bool in = rt.in_sut; rt.in_sut = false;
        if(!guards) guards = new std::map<uint64_t *, int>;
        auto it = guards->find(g);
        if(it == guards->end()) { (*guards)[g] = conf ? cur : -1; rt.in_sut = in; if(conf) { acquire(g); th[cur].in_guard++; took(g); } return 1; }
        int who = it->second;
        rt.in_sut = in;
        if(!conf) { fprintf(stderr, "a static needs itself\n"); _exit(96); }
        if(who == cur) { rt.in_sut = false; finish_stats(); conf->stuck("the initialisation of a static object needs the object itself"); }
        block(g, "the initialisation of a static object by another thread");
    }
}
static void guard_end(uint64_t *g) { bool in = rt.in_sut; rt.in_sut = false; if(guards) guards->erase(g); rt.in_sut = in; if(conf) { th[cur].in_guard--; gave(g); release(g); wake(g); } sync_step(); }
void sched_guard_release(uint64_t *g) { *(volatile char *)g = 1; guard_end(g); }
void sched_guard_abort(uint64_t *g) { guard_end(g); }

// ---- thread-local objects
int __cxa_thread_atexit(void (*)(void *), void *, void *) noexcept;
int sched_thread_atexit(void (*f)(void *), void *o, void *d) {
    if(!conf) return __cxa_thread_atexit(f, o, d);
    bool in = rt.in_sut; rt.in_sut = false; th[cur].at_end.push_back({f, o}); rt.in_sut = in;
    return 0;
}

// ---- locks
int sched_mutex_lock(pthread_mutex_t *m) { return lock_write(m, true, is_recursive(m), "a mutex"); }
int sched_mutex_trylock(pthread_mutex_t *m) { return lock_write(m, false, is_recursive(m), "a mutex"); }
int sched_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { int r = lock_write(m, false, is_recursive(m), "a mutex"); if(r && conf) { yield_now(); return ETIMEDOUT; } return r; }
int sched_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *t) { return sched_mutex_timedlock(m, t); }
int sched_mutex_unlock(pthread_mutex_t *m) { return unlock(m); }
int sched_mutex_destroy(pthread_mutex_t *m) { forget_lock(m); return 0; }
int sched_rwlock_rdlock(pthread_rwlock_t *m) { return lock_read(m, true); }
int sched_rwlock_tryrdlock(pthread_rwlock_t *m) { return lock_read(m, false); }
int sched_rwlock_wrlock(pthread_rwlock_t *m) { return lock_write(m, true, false, "an exclusive lock"); }
int sched_rwlock_trywrlock(pthread_rwlock_t *m) { return lock_write(m, false, false, "an exclusive lock"); }
int sched_rwlock_unlock(pthread_rwlock_t *m) { return unlock(m); }
int sched_rwlock_destroy(pthread_rwlock_t *m) { forget_lock(m); return 0; }
int sched_spin_lock(pthread_spinlock_t *m) { return lock_write((void *)m, true, false, "a spin lock"); }
int sched_spin_trylock(pthread_spinlock_t *m) { return lock_write((void *)m, false, false, "a spin lock"); }
int sched_spin_unlock(pthread_spinlock_t *m) { return unlock((void *)m); }
void sched_cv_wait(void *cv, std::unique_lock<std::mutex> &l) {
    pthread_mutex_t *m = l.mutex()->native_handle();
    sync_step();
    if(!conf) { fprintf(stderr, "waits without threads\n"); _exit(96); }
    unlock(m); block(cv, "a condition variable"); acquire(cv); sched_mutex_lock(m);
}
void sched_cv_notify(void *cv) { sync_step(); if(conf) { release(cv); wake(cv); } }
int sched_cond_wait(pthread_cond_t *cv, pthread_mutex_t *m) {
    if(!conf) { fprintf(stderr, "waits without threads\n"); _exit(96); }
    unlock(m); block(cv, "a condition variable"); acquire(cv); return sched_mutex_lock(m);
}
int sched_cond_timedwait(pthread_cond_t *, pthread_mutex_t *m, const struct timespec *) { unlock(m); if(conf) yield_now(); sched_mutex_lock(m); return ETIMEDOUT; }
int sched_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t) { return sched_cond_timedwait(c, m, t); }
int sched_cond_notify(pthread_cond_t *cv) { sched_cv_notify(cv); return 0; }
int sched_once(pthread_once_t *o, void (*f)(void)) {
    sync_step();
    for(;;) {
        if(*(volatile int *)o == 2) { if(conf) acquire(o); return 0; }
        if(*(volatile int *)o == 0) {
            *(volatile int *)o = 1;
            try { f(); } catch(...) { *(volatile int *)o = 0; if(conf) { release(o); wake(o); } throw; }
            *(volatile int *)o = 2;
            if(conf) { release(o); wake(o); }
            return 0;
        }
        if(!conf) { fprintf(stderr, "once needs itself\n"); _exit(96); }
        block(o, "a call_once");
    }
}
int sched_sched_yield() { if(on) yield_now(); return 0; }
int sched_nanosleep(const struct timespec *, struct timespec *) { if(on) yield_now(); return 0; }
int sched_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { if(on) yield_now(); return 0; }
int sched_usleep(unsigned) { if(on) yield_now(); return 0; }

// ---- memory and strings of the C library
void *sched_memcpy(void *d, const void *s, size_t n) { range(s, n, false, PC); range(d, n, true, PC); return memcpy(d, s, n); }
void *sched_memmove(void *d, const void *s, size_t n) { range(s, n, false, PC); range(d, n, true, PC); return memmove(d, s, n); }
void *sched_memset(void *d, int v, size_t n) { range(d, n, true, PC); return memset(d, v, n); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { range(s, n, false, PC); range(d, n, true, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { range(s, n, false, PC); range(d, n, true, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n) { range(d, n, true, PC); return memset(d, v, n); }
int sched_memcmp(const void *a, const void *b, size_t n) { range(a, n, false, PC); range(b, n, false, PC); return memcmp(a, b, n); }
void *sched_memchr(const void *a, int c, size_t n) { range(a, n, false, PC); return (void *)memchr(a, c, n); }
size_t sched_strlen(const char *s) { range(s, strlen(s) + 1, false, PC); return strlen(s); }
int sched_strcmp(const char *a, const char *b) { range(a, strlen(a) + 1, false, PC); range(b, strlen(b) + 1, false, PC); return strcmp(a, b); }
int sched_strncmp(const char *a, const char *b, size_t n) { range(a, strnlen(a, n), false, PC); range(b, strnlen(b, n), false, PC); return strncmp(a, b, n); }
char *sched_strchr(const char *a, int c) { range(a, strlen(a) + 1, false, PC); return (char *)strchr(a, c); }
char *sched_strstr(const char *a, const char *b) { range(a, strlen(a) + 1, false, PC); return (char *)strstr(a, b); }
char *sched_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; range(s, n, false, PC); range(d, n, true, PC); return strcpy(d, s); }
char *sched_strcat(char *d, const char *s) { size_t n = strlen(s) + 1, k = strlen(d); range(s, n, false, PC); range(d, k + n, true, PC); return strcat(d, s); }
char *sched_strncpy(char *d, const char *s, size_t n) { range(s, strnlen(s, n), false, PC); range(d, n, true, PC); return strncpy(d, s, n); }
long sched_strtol(const char *s, char **e, int b) { range(s, strlen(s) + 1, false, PC); return strtol(s, e, b); }
float sched_strtof(const char *s, char **e) { range(s, strlen(s) + 1, false, PC); return strtof(s, e); }
double sched_strtod(const char *s, char **e) { range(s, strlen(s) + 1, false, PC); return strtod(s, e); }
int sched_vsnprintf(char *d, size_t n, const char *f, va_list v) { int r = vsnprintf(d, n, f, v); if(r >= 0 && n) range(d, std::min<size_t>((size_t)r + 1, n), true, PC); return r; }
int sched_snprintf(char *d, size_t n, const char *f, ...) { va_list v; va_start(v, f); int r = vsnprintf(d, n, f, v); va_end(v); if(r >= 0 && n) range(d, std::min<size_t>((size_t)r + 1, n), true, PC); return r; }
int sched_sprintf(char *d, const char *f, ...) { va_list v; va_start(v, f); int r = vsprintf(d, f, v); va_end(v); if(r >= 0) range(d, (size_t)r + 1, true, PC); return r; }
int sched_sprintf_chk(char *d, int, size_t, const char *f, ...) { va_list v; va_start(v, f); int r = vsprintf(d, f, v); va_end(v); if(r >= 0) range(d, (size_t)r + 1, true, PC); return r; }
int sched_snprintf_chk(char *d, size_t n, int, size_t, const char *f, ...) { va_list v; va_start(v, f); int r = vsnprintf(d, n, f, v); va_end(v); if(r >= 0 && n) range(d, std::min<size_t>((size_t)r + 1, n), true, PC); return r; }
size_t sched_strftime(char *d, size_t n, const char *f, const struct tm *t) { range(t, sizeof *t, false, PC); size_t r = strftime(d, n, f, t); range(d, r + 1, true, PC); return r; }

// ---- what the C library keeps for the whole process
struct tm *sched_localtime(const time_t *t) { virt(0, "the C library's broken-down time", PC); return localtime(t); }
struct tm *sched_gmtime(const time_t *t) { virt(0, "the C library's broken-down time", PC); return gmtime(t); }
char *sched_asctime(const struct tm *t) { virt(1, "the buffer of asctime()", PC); return asctime(t); }
char *sched_ctime(const time_t *t) { virt(0, "the C library's broken-down time", PC); virt(1, "the buffer of asctime()", PC); return ctime(t); }
char *sched_strtok(char *s, const char *d) { virt(2, "the state of strtok()", PC); return strtok(s, d); }
char *sched_setlocale(int c, const char *l) { if(l) virt(3, "the process's locale", PC); return setlocale(c, l); }
int sched_rand() { virt(4, "the state of rand()", PC); return 4; }
void sched_srand(unsigned) { virt(4, "the state of rand()", PC); }
int sched_setenv(const char *n, const char *v, int o) { virt(5, "the environment", PC); return setenv(n, v, o); }
int sched_putenv(char *s) { virt(5, "the environment", PC); return putenv(s); }
int sched_unsetenv(const char *n) { virt(5, "the environment", PC); return unsetenv(n); }

// ---- trees and lists of the C++ library
struct TreeNode { int color; TreeNode *up, *left, *right; };
TreeNode *_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(TreeNode *);
TreeNode *_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(TreeNode *);
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, TreeNode *, TreeNode *, TreeNode *);
TreeNode *_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(TreeNode *, TreeNode *);
TreeNode *sched_tree_next(TreeNode *n) { range(n, sizeof *n, false, PC); return _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(n); }
TreeNode *sched_tree_prev(TreeNode *n) { range(n, sizeof *n, false, PC); return _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(n); }
void sched_tree_insert(bool l, TreeNode *x, TreeNode *p, TreeNode *h) {
    range(x, sizeof *x, true, PC); range(p, sizeof *p, true, PC); range(h, sizeof *h, true, PC);
    _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h);
}
TreeNode *sched_tree_erase(TreeNode *z, TreeNode *h) { range(z, sizeof *z, true, PC); range(h, sizeof *h, true, PC); return _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(z, h); }
struct ListNode { ListNode *next, *prev; };
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(ListNode *, ListNode *);
void _ZNSt8__detail15_List_node_base9_M_unhookEv(ListNode *);
void _ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(ListNode *, ListNode *, ListNode *);
void sched_list_hook(ListNode *n, ListNode *at) { range(n, sizeof *n, true, PC); range(at, sizeof *at, true, PC); range(at->prev, sizeof *at, true, PC); _ZNSt8__detail15_List_node_base7_M_hookEPS0_(n, at); }
void sched_list_unhook(ListNode *n) { range(n, sizeof *n, false, PC); range(n->next, sizeof *n, true, PC); range(n->prev, sizeof *n, true, PC); _ZNSt8__detail15_List_node_base9_M_unhookEv(n); }
void sched_list_transfer(ListNode *p, ListNode *a, ListNode *b) { range(p, sizeof *p, true, PC); range(a, sizeof *a, true, PC); _ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(p, a, b); }
// second names: each may replace one symbol only
int sched_cond_notify2(pthread_cond_t *) __attribute__((alias("sched_cond_notify")));
void sched_cv_notify2(void *) __attribute__((alias("sched_cv_notify")));
int sched_memcmp2(const void *, const void *, size_t) __attribute__((alias("sched_memcmp")));
long sched_strtol2(const char *, char **, int) __attribute__((alias("sched_strtol")));
TreeNode *sched_tree_next2(TreeNode *) __attribute__((alias("sched_tree_next")));
TreeNode *sched_tree_prev2(TreeNode *) __attribute__((alias("sched_tree_prev")));
}
