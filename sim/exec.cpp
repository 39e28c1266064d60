// Executes worlds: every process of a world is a forked child of the simulator that has never run
// the code under test; answers are judged in the child (oracles) and in the parent (crash, hang).
#include "world.hpp"
#include "rt.hpp"
#include "sched.hpp"
#include <cstring>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <exception>
#include <cfenv>
#include <clocale>
#include <iomanip>
#include <cerrno>
#include <locale>
#include <sys/stat.h>

const char *const oracle_names[5] = {"none", "expect", "diff", "total", "instant"};

// ------------------------------------------------------------------ shared with the child
struct Shm {
    volatile int cur;                  // request being served
    volatile int phase;                // 1 while in the code under test
    volatile int done;
    volatile int budget;
    uint64_t digest;
    long ambs[4]; long oom_fired, fills, stacks, clockreads;
    int vset, vreq; char vkind[24]; char vmsg[6000];
    int nreads; int64_t reads[8]; int64_t end_s;
    int outlen; char out[60000];       // canonical answer of the last request (solo runs, program runs)
    long nallocs;
    volatile int nsched; Switch sched[20010];  // switches taken by the seeded scheduler
    long steps, switches, race_checks, blocked;
    uint64_t inter;
    int nhints; Hint hints[256];
    int loglen; char log[1 << 20];     // all answers (only to compare builds)
};
static Shm *shm;
std::string answer_log; bool want_log = false;

static void init_shm() {
    if(shm) return;
    shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if(shm == MAP_FAILED) { perror("shm"); exit(2); }
    rt_init();
}

static void fnv(uint64_t &h, const void *p, size_t n) { const unsigned char *q = (const unsigned char *)p; for(size_t i = 0; i < n; i++) { h ^= q[i]; h *= 1099511628211ull; } }
static void fnv(uint64_t &h, const std::string &s) { fnv(h, s.data(), s.size()); fnv(h, "\n", 1); }

void rt_budget_exceeded() { shm->budget = 1; _exit(97); }

static void violate(int req, const char *kind, const std::string &msg) {
    if(shm->vset) return;
    shm->vset = 1; shm->vreq = req;
    snprintf(shm->vkind, sizeof shm->vkind, "%s", kind);
    snprintf(shm->vmsg, sizeof shm->vmsg, "%s", msg.c_str());
}

// ------------------------------------------------------------------ answers as text
static std::string printable(const std::string &s) {
    std::string r; char b[8];
    for(unsigned char c : s) if(c >= 32 && c < 127) r += (char)c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    return r;
}
static std::string canon(const CallOut &o) {
    std::ostringstream s;
    if(o.status != ST_OK) { s << "throws " << (o.status == ST_NOMEM ? "bad_alloc" : o.status == ST_EXC ? printable(o.what) : "unknown"); return s.str(); }
    s << o.count << " result(s)";
    for(int i = 0; i < o.count && i < MAXRES; i++) {
        const OneResult &r = o.r[i];
        s << "; " << r.date << " @" << r.index << "+" << r.len << " [";
        for(int k = 0; k < 8; k++) s << (k ? " " : "") << r.start[k];
        if(r.has_end) { s << " / "; for(int k = 0; k < 8; k++) s << (k ? " " : "") << r.end[k]; }
        s << "] c" << r.certain << " t" << r.tags;
    }
    return s.str();
}
static std::string dates(const CallOut &o) {
    if(o.status != ST_OK) return canon(o);
    if(o.count == 0) return "none";
    std::string s;
    for(int i = 0; i < o.count && i < MAXRES; i++) { if(i) s += "; "; s += o.r[i].date; }
    return s;
}

// ------------------------------------------------------------------ oracles
static bool valid_date(const char *s, int &used) {
    int y, d, h, m, sec; char mon[4] = ""; used = 0;
    static const char *const names = "JanFebMarAprMayJunJulAugSepOctNovDec";
    if(sscanf(s, "%4d-%3[A-Za-z]-%2d %2d:%2d:%2d%n", &y, mon, &d, &h, &m, &sec, &used) != 6 || used != 20) return false;
    const char *p = strstr(names, mon);
    if(!p || (p - names) % 3) return false;
    int mo = (int)(p - names) / 3 + 1;
    return y >= 1400 && y <= 9999 && d >= 1 && d <= mdays(y, mo) && h >= 0 && h < 24 && m >= 0 && m < 60 && sec >= 0 && sec < 60;
}
static bool valid_answer(const std::string &s) {
    int used;
    if(!valid_date(s.c_str(), used)) return false;
    if((int)s.size() == used) return true;
    if(s.compare(used, 3, " - ")) return false;
    int u2;
    return valid_date(s.c_str() + used + 3, u2) && (int)s.size() == used + 3 + u2;
}
// a range that ends before it starts
static bool backwards(const std::string &s) {
    static const char *const names = "JanFebMarAprMayJunJulAugSepOctNovDec";
    int64_t at[2]; size_t off = 0;
    for(int k = 0; k < 2; k++) {
        int y, d, h, m, sec; char mon[4] = "";
        if(off >= s.size() || sscanf(s.c_str() + off, "%4d-%3[A-Za-z]-%2d %2d:%2d:%2d", &y, mon, &d, &h, &m, &sec) != 6) return false;
        const char *p = strstr(names, mon);
        if(!p) return false;
        at[k] = (((((int64_t)y * 12 + (p - names) / 3) * 31 + d) * 24 + h) * 60 + m) * 60 + sec;
        off = 23;
    }
    return at[1] < at[0];
}
static std::string join(const std::vector<std::string> &v) { std::string s; for(auto &x : v) { if(!s.empty()) s += " or "; s += x; } return s; }
static std::string expected(const Req &r) {
    std::string s; for(auto &i : r.items) { if(!s.empty()) s += "; "; s += join(i.alts); if(i.pos >= 0) s += " @" + num(i.pos); }
    return s.empty() ? "none" : s;
}
static std::string about(const Req &r) {
    std::string s = r.prog ? "program" : r.kind == K_CHAIN ? "chain" : r.kind == K_SHORT ? "short-chain" : parser_names[r.kind];
    s += " \"" + printable(r.text) + "\" at " + show(r.ref);
    if(r.nargs >= 0) s += ", " + num(r.nargs) + " argument(s), the second \"" + printable(r.refarg) + "\"";
    if(r.clock) s += std::string(" (clock, zone ") + zones()[r.zone].posix + ")";
    return s;
}
static void judge_expect(int i, const Req &r, const CallOut &o) {
    std::string got = dates(o);
    bool none = r.items.size() == 1 && r.items[0].alts.size() == 1 && r.items[0].alts[0] == "none";
    bool ok = o.status == ST_OK;
    if(ok && none) ok = o.count == 0;
    else if(ok) {
        ok = o.count == (int)r.items.size() && o.count <= MAXRES;
        for(int k = 0; ok && k < o.count; k++) {
            const Item &it = r.items[k];
            if(std::find(it.alts.begin(), it.alts.end(), o.r[k].date) == it.alts.end()) ok = false;
            if(it.pos >= 0 && (o.r[k].index > it.pos || o.r[k].index < it.pos - 3)) ok = false;
        }
        if(!ok && r.items.size() > 1 && o.count <= MAXRES)
            for(int k = 0; k < o.count; k++) got += " @" + num(o.r[k].index);
    }
    if(!ok) violate(i, "wrong-answer", about(r) + ": answered " + got + ", should be " + expected(r));
}
static void judge_total(int i, const Req &r, const CallOut &o) {
    std::string bad;
    if(o.status != ST_OK) bad = canon(o);
    else if(o.date_status != ST_OK) bad = "toDate() throws";
    else if(o.text_len != (int)r.text.size()) bad = "the text changed its length";
    for(int k = 0; bad.empty() && k < o.count && k < MAXRES; k++) {
        if(!valid_answer(o.r[k].date)) bad = std::string("answered ") + printable(o.r[k].date);
        else if(backwards(o.r[k].date)) bad = std::string("answered ") + o.r[k].date + ", which ends before it starts";
        else if(o.r[k].index < 0 || o.r[k].index > (int)r.text.size()) bad = "position " + num(o.r[k].index) + " outside of the text";
    }
    if(!bad.empty()) violate(i, "not-total", about(r) + ": " + bad);
}

// ------------------------------------------------------------------ one request
static void prepare(const Req &r) {
    if(r.clock) {
        const Zone &z = zones()[r.zone];
        setenv("TZ", z.posix, 1); tzset();
        rt_set_clock(r.epoch, r.frac, r.ticks.data(), (int)r.ticks.size());
    } else rt.clock_on = true;          // a reading that nobody expects shows as a difference
    rt_request_begin();
    rt.oom_at = r.oom; rt.oom_forever = r.forever;
    rt.fill_on = r.fill_a >= 0;
    if(r.fill_a >= 0) { rt.fill_alloc = r.fill_a; rt.fill_free = r.fill_f; shm->fills++; }
    if(r.stack >= 0) { rt_poison_stack(r.stack, 200000); shm->stacks++; }
}

// ------------------------------------------------------------------ the state of the host program
enum { LOC_GROUP = 1, LOC_EUROPE, LOC_UTF8, IO_BAD = 1, IO_FAILING, IO_FLAGS, IO_CLOSED, IO_FULL };
struct Punct : std::numpunct<char> {
    const char *g; char s;
    Punct(const char *g, char s) : g(g), s(s) {}
    char do_thousands_sep() const override { return s; }
    char do_decimal_point() const override { return s == ',' ? '.' : ','; }
    std::string do_grouping() const override { return g; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
static std::streambuf *host_err0() { static std::streambuf *b = std::cerr.rdbuf(); return b; }
struct Full : std::streambuf { int overflow(int) override { return traits_type::eof(); } int sync() override { return -1; } };
struct Noted : std::streambuf { long n = 0; int overflow(int c) override { n++; return c == EOF ? 0 : c; } };
extern char **environ;
struct Host {
    bool on = false;
    std::locale loc; int round = 0; std::ios cout_f{nullptr}; uint64_t env = 0; std::string cwd, cloc; int fds = 0; mode_t mask = 0; sigset_t sigs; std::streambuf *err = nullptr, *log = nullptr; std::ios::fmtflags ef, of; int saved2 = -1;
    std::ios::iostate es;
    struct sigaction act[4];
};
static Host host;
static Noted noted; static Full full_buf;
static const int host_sigs[4] = {SIGINT, SIGTERM, SIGPIPE, SIGCHLD};
static uint64_t env_hash() { uint64_t h = 1469598103934665603ull; for(char **e = environ; *e; e++) fnv(h, std::string(*e)); return h; }
static char rand_state[128], rand_copy[128];
static int fd_count() { int n = 0; for(int f = 0; f < 64; f++) if(fcntl(f, F_GETFD) >= 0) n++; return n; }
static void host_before(const Req &r) {
    host.on = r.amb[0] || r.amb[1] || r.amb[2] || r.amb[3];
    if(!host.on) return;
    for(int k = 0; k < 4; k++) if(r.amb[k]) shm->ambs[k]++;
    static const std::locale group(std::locale::classic(), new Punct("\3\2", ',')), europe(std::locale::classic(), new Punct("\3", '.'));
    switch(r.amb[0]) {
    case LOC_GROUP: std::locale::global(group); break;
    case LOC_EUROPE: std::locale::global(europe); break;
    case LOC_UTF8: try { std::locale::global(std::locale("C.utf8")); } catch(std::exception &) { } break;
    }
    static const int rounds[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
    if(r.amb[2]) fesetround(rounds[r.amb[2] & 3]);
    if(r.prog) setenv("LC_ALL", r.amb[0] == LOC_UTF8 ? "C.utf8" : r.amb[0] ? "de_DE.UTF-8" : "C", 1);
    switch(r.amb[3]) {
    case IO_BAD: std::cerr.setstate(std::ios::badbit); std::clog.setstate(std::ios::failbit); break;
    case IO_FAILING: std::cerr.rdbuf(&full_buf); break;
    case IO_FLAGS: std::cerr << std::hex << std::showbase << std::showpos; if(!r.prog) std::cout << std::oct << std::showpos << std::setfill('*'); break;
    case IO_CLOSED: host.saved2 = dup(2); close(2); break;
    case IO_FULL: host.saved2 = dup(2); { int f = open("/dev/full", O_WRONLY); if(f >= 0) { dup2(f, 2); close(f); } } break;
    }
    host.loc = std::locale(); host.round = fegetround(); host.env = env_hash(); host.fds = fd_count();
    { char b[4096]; host.cwd = getcwd(b, sizeof b) ? b : ""; }
    host.cloc = setlocale(LC_ALL, nullptr);
    initstate(7, rand_state, sizeof rand_state); memcpy(rand_copy, rand_state, sizeof rand_state);
    host.mask = umask(022); umask(host.mask);
    sigprocmask(SIG_BLOCK, nullptr, &host.sigs);
    for(int k = 0; k < 4; k++) sigaction(host_sigs[k], nullptr, &host.act[k]);
    host.err = std::cerr.rdbuf(); host.log = std::cout.rdbuf(); host.ef = std::cerr.flags(); host.of = std::cout.flags(); host.es = std::cerr.exceptions();
    if(!r.prog) { noted.n = 0; std::cout.flush(); host.log = std::cout.rdbuf(&noted); }
    static const int errs[] = {0, ERANGE, EINTR, ENOMEM, EDOM};
    errno = errs[r.amb[1] % 5];
}
static void host_after(int i, const Req &r) {
    if(!host.on) return;
    std::string bad; char b[4096]; sigset_t s; mode_t m;
    if(!(std::locale() == host.loc)) bad = "the global locale";
    else if(host.cloc != setlocale(LC_ALL, nullptr)) bad = "the C library's locale";
    else if(memcmp(rand_copy, rand_state, sizeof rand_state)) bad = "the state of rand()";
    else if(fegetround() != host.round) bad = "the rounding mode";
    else if(env_hash() != host.env) bad = "the environment";
    else if(fd_count() != host.fds) bad = "the number of open files";
    else if(host.cwd != (getcwd(b, sizeof b) ? b : "")) bad = "the working directory";
    else if((m = umask(022), umask(m), m) != host.mask) bad = "the umask";
    else if(sigprocmask(SIG_BLOCK, nullptr, &s), memcmp(&s, &host.sigs, 8)) bad = "the signal mask";
    else if(std::cerr.rdbuf() != host.err || std::cerr.flags() != host.ef || std::cerr.exceptions() != host.es) bad = "the state of std::cerr";
    else if(!r.prog && (std::cout.rdbuf() != &noted || std::cout.flags() != host.of)) bad = "the state of std::cout";
    else if(!r.prog && noted.n) bad = "the standard output (wrote to it)";
    else for(int k = 0; k < 4; k++) { struct sigaction a; sigaction(host_sigs[k], nullptr, &a); if(a.sa_handler != host.act[k].sa_handler) bad = "the handler of a signal"; }
    if(!r.prog) std::cout.rdbuf(host.log);
    std::locale::global(std::locale::classic()); fesetround(FE_TONEAREST);
    std::cerr.rdbuf(host_err0()); std::cerr.clear(); std::clog.clear(); std::cerr.flags(std::ios::dec | std::ios::skipws | std::ios::unitbuf); std::cout.flags(std::ios::dec | std::ios::skipws); std::cout.fill(' ');
    if(host.saved2 >= 0) { dup2(host.saved2, 2); close(host.saved2); host.saved2 = -1; }
    host.on = false;
    if(!bad.empty()) violate(i, "host-changed", about(r) + ": the request changed " + bad + " of the host program");
}

static long last_live = -1;

static void serve_lib(int i, Req &r, CallOut &o) {
    RefTime ref{};
    { Date d = r.ref.date(); ref = RefTime{d.y, d.m, d.d, r.ref.h(), r.ref.mi(), r.ref.s()}; }
    prepare(r);
    host_before(r);
    shm->phase = 1;
    sut_call(r.kind, r.fresh, r.slot, r.text.data(), r.text.size(), r.clock ? nullptr : &ref, &o);
    shm->phase = 0;
    host_after(i, r);
    shm->oom_fired += rt.oom_fired;
    shm->clockreads += rt.reads;
    shm->nallocs = rt.seq;
}

static void lower(std::string &s) { for(auto &c : s) if(c >= 'A' && c <= 'Z') c = (char)(c + 32); }

static void judge_lib(int i, Req &r, CallOut &o, bool alone) {
    int fired = rt.oom_fired;
    if(r.clock && !fired) {
        Date d = r.ref.date();
        if(!o.ref_ok || o.ref.y != d.y || o.ref.mo != d.m || o.ref.d != d.d || o.ref.h != r.ref.h() || o.ref.mi != r.ref.mi() || o.ref.s != r.ref.s())
            violate(i, "internal", "the simulated clock does not give the local time of the model: " + about(r));
    }
    std::string c = canon(o);
    fnv(shm->digest, c); fnv(shm->digest, &fired, sizeof fired);
    if(fired) {
        // either the failure or the whole right answer
        if(o.status == ST_NOMEM) { }
        else if(r.oracle == O_DIFF && o.date_status == ST_NOMEM) {
            std::string b = r.base;      // parsing is complete, printing failed
            for(int k = 0; k < o.count && k < MAXRES; k++)
                if(!strcmp(o.r[k].date, "!bad_alloc")) {
                    // compare with the date of the base replaced
                    size_t at = 0; for(int n = 0; n <= k && at != std::string::npos; n++) at = b.find("; ", at ? at + 2 : 0);
                    if(at != std::string::npos) { size_t e = b.find(" @", at); if(e != std::string::npos) b.replace(at + 2, e - at - 2, "!bad_alloc"); }
                }
            if(c != b) violate(i, "partial-answer", about(r) + " with allocation " + num(r.oom) + (r.forever ? " and all later ones" : "") + " failing: " + c + ", alone: " + r.base);
        }
        else if(r.oracle == O_DIFF && c != r.base)
            violate(i, "partial-answer", about(r) + " with allocation " + num(r.oom) + (r.forever ? " and all later ones" : "") + " failing: " + c + ", alone: " + r.base);
    } else if(!alone) switch(r.oracle) {
    case O_EXPECT: judge_expect(i, r, o); break;
    case O_TOTAL: judge_total(i, r, o); break;
    case O_DIFF: if(c != r.base) violate(i, "differs", about(r) + ": " + c + ", alone in a new process: " + r.base); break;
    default: break;
    }
    if(r.oracle == O_DIFF && !alone && o.status != ST_NOMEM) {
        if(o.ref_changed) violate(i, "ref-changed", about(r) + ": the caller's reference instant was changed");
        std::string a = r.text; lower(a);
        std::string b(o.text, std::min<size_t>(o.text_len, sizeof o.text)); lower(b);
        if(o.text_len != (int)r.text.size() || (r.text.size() <= sizeof o.text && a != b))
            violate(i, "text-changed", about(r) + ": the caller's text became \"" + printable(b) + "\"");
    }
    if(r.leak && !alone) {
        if(last_live >= 0 && rt.live != last_live)
            violate(i, "leak", about(r) + ": " + num(rt.live - last_live) + " block(s) more in use after the failed request than before it");
        last_live = rt.live;
    }
    if(rt.corrupt) violate(i, "heap-damage", about(r) + ": " + num(rt.corrupt) + " block(s) freed twice or written past their end");
}

// ------------------------------------------------------------------ the program
static std::string run_program(int i, const Req &r) {
    int fd = (int)syscall(SYS_memfd_create, "out", 0);
    fflush(stdout);
    dup2(fd, 1);
    char name[] = "time";
    std::string ref = "";
    if(!r.clock) {
        Date d = r.ref.date(); char b[40];
        snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", d.y, d.m, d.d, r.ref.h(), r.ref.mi(), r.ref.s());
        ref = b;
    }
    std::vector<char> t(r.text.begin(), r.text.end()), f(ref.begin(), ref.end());
    t.push_back(0); f.push_back(0);
    char *argv[8] = {name, t.data(), r.clock ? nullptr : f.data(), nullptr};
    int argc = r.clock ? 2 : 3;
    std::vector<char> raw(r.refarg.begin(), r.refarg.end()); raw.push_back(0);
    if(r.nargs >= 0) {
        argc = std::min(r.nargs, 5) + 1;
        for(int k = 1; k < 8; k++) argv[k] = k >= argc ? nullptr : k == 1 ? t.data() : raw.data();
    }
    prepare(r);
    std::string res;
    int rc = 0;
    host_before(r);
    shm->phase = 1;
    sim_enter_sut();
    try { rc = sut_program(argc, argv); sim_leave_sut(); }
    catch(std::bad_alloc &) { sim_leave_sut(); res = "aborts: bad_alloc"; }
    catch(std::exception &e) { sim_leave_sut(); res = std::string("aborts: ") + printable(e.what()); }
    catch(...) { sim_leave_sut(); res = "aborts"; }
    shm->phase = 0;
    host_after(i, r);
    shm->oom_fired += rt.oom_fired;
    shm->clockreads += rt.reads;
    shm->nallocs = rt.seq;
    shm->nreads = std::min(rt.reads, 8);
    for(int i = 0; i < shm->nreads; i++) shm->reads[i] = rt.read_s[i];
    shm->end_s = rt.now_s;
    if(res.empty()) {
        std::cout.flush(); fflush(stdout);
        if(rc) res = "exit " + num(rc) + " ";
        char buf[4096]; ssize_t n; off_t at = 0;
        while((n = pread(fd, buf, sizeof buf, at)) > 0 && res.size() < 20000) { res.append(buf, n); at += n; }
    }
    close(fd);
    return res;
}
static void judge_prog(int i, Req &r, const std::string &out, bool alone) {
    int fired = rt.oom_fired;
    fnv(shm->digest, out); fnv(shm->digest, &fired, sizeof fired);
    if(alone) return;
    if(fired) {
        if(out == "aborts: bad_alloc") return;
        if(r.oracle == O_DIFF && out != r.base)
            violate(i, "partial-answer", about(r) + " with allocation " + num(r.oom) + (r.forever ? " and all later ones" : "") + " failing: prints \"" + printable(out) + "\", else \"" + printable(r.base) + "\"");
        return;
    }
    switch(r.oracle) {
    case O_EXPECT: {
        bool ok = false;
        for(auto &a : r.items[0].alts) if(out == (a == "none" ? std::string("[???] -- Invalid date\n") : "Date:\t" + a + "\n")) ok = true;
        if(!ok) violate(i, "wrong-answer", about(r) + ": printed \"" + printable(out) + "\", should be " + expected(r));
        break; }
    case O_TOTAL: {
        if(r.nargs >= 0) { // a command line that may be no request at all
            std::string s = out; bool failed = !s.compare(0, 5, "exit ");
            if(failed) s = s.substr(s.find(' ', 5) + 1);
            if(!s.compare(0, 6, "Usage:")) break;
            if(failed && s.compare(0, 7, "aborts:")) break;
        }
        bool ok = out == "[???] -- Invalid date\n" ||
            (out.size() > 7 && !out.compare(0, 6, "Date:\t") && out.back() == '\n' && valid_answer(out.substr(6, out.size() - 7)));
        if(!ok) violate(i, "not-total", about(r) + ": printed \"" + printable(out) + "\"");
        break; }
    case O_DIFF: if(out != r.base) violate(i, "differs", about(r) + ": printed \"" + printable(out) + "\", else \"" + printable(r.base) + "\""); break;
    default: break;
    }
}

// ------------------------------------------------------------------ threads
static Proc *th_proc; static std::vector<int> th_reqs[8]; 
static CallOut th_out[8];
static void thread_main(int t) {
    for(int i : th_reqs[t]) {
        Req &r = th_proc->reqs[i];
        RefTime ref; Date d = r.ref.date(); ref = RefTime{d.y, d.m, d.d, r.ref.h(), r.ref.mi(), r.ref.s()};
        rt_request_begin(); rt.oom_at = r.oom; rt.oom_forever = r.forever;
        sched_request(t, i);
        sut_call(r.kind, r.fresh, r.slot, r.text.data(), r.text.size(), &ref, &th_out[t]);
        sched_pause();
        std::string c = canon(th_out[t]);
        int fired = rt.oom_fired;
        shm->oom_fired += fired;
        fnv(shm->digest, c); fnv(shm->digest, &fired, sizeof fired);
        if(fired && (th_out[t].status == ST_NOMEM || th_out[t].date_status == ST_NOMEM)) { }
        else if(c != r.base) violate(i, "differs", about(r) + " in thread " + num(t) + ": " + c + ", alone in a new process: " + r.base);
        if(th_out[t].ref_changed) violate(i, "ref-changed", about(r) + ": the caller's reference instant was changed");
        sched_resume();
    }
}
static SchedConf th_conf;
static void thread_stats() {
    SchedConf &c = th_conf;
    shm->steps = (long)c.steps; shm->switches = shm->nsched; shm->race_checks = (long)c.checks; shm->blocked = c.blocked;
    shm->inter = c.hash;
    fnv(shm->digest, &c.hash, sizeof c.hash); fnv(shm->digest, &c.steps, sizeof c.steps);
}
static void report(const char *kind, const char *msg) {
    int i = sched_current_request();
    violate(i, kind, (i >= 0 ? about(th_proc->reqs[i]) + ": " : std::string()) + msg);
    thread_stats(); shm->done = 1; _exit(0);
}
static void report_race(const char *msg) { report("data-race", msg); }
static void report_stuck(const char *msg) { report("stuck", msg); }

static void serve_threads(Proc &p) {
    th_proc = &p;
    for(auto &v : th_reqs) v.clear();
    for(int i = 0; i < (int)p.reqs.size(); i++) {
        Req &r = p.reqs[i];
        if(r.th < 0) { // before the threads start
            CallOut *o = &th_out[0];
            shm->cur = i; serve_lib(i, r, *o); judge_lib(i, r, *o, false);
        } else th_reqs[r.th].push_back(i);
    }
    // objects that threads share are made before the threads start
    for(auto &r : p.reqs) if(!r.fresh) sut_fill_slot(r.slot, r.kind);
    rt_request_begin(); rt.oom_at = -1; rt.fill_on = false; rt.budget = 0; rt.clock_on = true;
    SchedConf &c = th_conf;
    c = SchedConf();
    c.threads = p.threads; c.seed = p.schedseed; c.mean = p.mean; c.mode = p.mode; c.fixed = p.fixed;
    c.sched = p.sched.data(); c.nsched = (int)p.sched.size();
    c.out = shm->sched; c.maxout = 20000; c.nout = (int *)&shm->nsched;
    c.own = th_out; c.own_n = sizeof th_out; c.hints = shm->hints; c.maxhints = 256; c.nhints = &shm->nhints;
    c.race = report_race; c.stuck = report_stuck;
    c.max_steps = 1000000000ull;
    sched_threads(c, thread_main);
    thread_stats();
}

// ------------------------------------------------------------------ a process
static void child_setup() {
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 2); close(null);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    setenv("TZ", "UTC0", 1); tzset();
}
static void arm_timer(int sec) { struct itimerval it = {{0, 0}, {sec, 0}}; setitimer(ITIMER_PROF, &it, nullptr); }

static CallOut big;
static void log_answer(int i, const std::string &a) {
    std::string l = num(i) + " " + printable(a) + "\n";
    if(shm->loglen + l.size() > sizeof shm->log) return;
    memcpy(shm->log + shm->loglen, l.data(), l.size()); shm->loglen += (int)l.size();
}

static void child_proc(Proc &p, bool alone) {
    child_setup();
    rt.budget = 4000000; rt.layout = p.layout;
    if(p.threads) { arm_timer(60); serve_threads(p); shm->done = 1; _exit(0); }
    for(int i = 0; i < (int)p.reqs.size(); i++) {
        Req &r = p.reqs[i];
        shm->cur = i;
        arm_timer(10);
        host_err0();
        if(r.prog) {
            std::string out = run_program(i, r);
            judge_prog(i, r, out, alone);
            if(want_log && !alone) log_answer(i, out);
            if(alone || i + 1 == (int)p.reqs.size()) { shm->outlen = (int)std::min(out.size(), sizeof shm->out); memcpy(shm->out, out.data(), shm->outlen); }
        } else {
            serve_lib(i, r, big);
            judge_lib(i, r, big, alone);
            if(want_log && !alone) log_answer(i, canon(big));
            if(alone) { std::string c = canon(big); shm->outlen = (int)std::min(c.size(), sizeof shm->out); memcpy(shm->out, c.data(), shm->outlen); }
        }
        if(shm->vset) break;
    }
    shm->done = 1;
    _exit(0);
}

// returns false and fills v when the process ended badly
static bool spawn(Proc &p, bool alone, Violation &v, int pi) {
    init_shm();
    shm->cur = -1; shm->phase = 0; shm->done = 0; shm->budget = 0; shm->digest = 1469598103934665603ull;
    for(long &x : shm->ambs) x = 0;
    shm->oom_fired = shm->fills = shm->stacks = shm->clockreads = 0;
    shm->vset = 0; shm->nreads = 0; shm->outlen = 0; shm->nsched = 0; shm->steps = shm->switches = shm->race_checks = shm->blocked = 0; shm->inter = 0; shm->nhints = 0; shm->loglen = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if(pid < 0) { perror("fork"); exit(2); }
    if(pid == 0) child_proc(p, alone);
    int status = 0;
    while(waitpid(pid, &status, 0) < 0) { }
    if(shm->vset) {
        v.kind = shm->vkind; v.msg = shm->vmsg; v.proc = pi; v.req = shm->vreq;
        return false;
    }
    if(shm->done && WIFEXITED(status) && WEXITSTATUS(status) == 0) return true;
    v.proc = pi; v.req = shm->cur;
    std::string a = v.req >= 0 && v.req < (int)p.reqs.size() ? about(p.reqs[v.req]) : "process";
    if(shm->budget) { v.kind = "hang"; v.msg = a + ": more than 4000000 allocations without an end"; }
    else if(WIFSIGNALED(status) && (WTERMSIG(status) == SIGPROF || WTERMSIG(status) == SIGKILL)) {
        v.kind = WTERMSIG(status) == SIGPROF ? "hang" : "internal";
        v.msg = a + (WTERMSIG(status) == SIGPROF ? ": no end within the limit of processor time" : ": the process was killed from outside");
    }
    else if(WIFSIGNALED(status)) { v.kind = "crash"; v.msg = a + ": the process died of signal " + num(WTERMSIG(status)); }
    else { v.kind = "crash"; v.msg = a + ": the process ended with exit code " + num(WIFEXITED(status) ? WEXITSTATUS(status) : -1); }
    return false;
}

// ------------------------------------------------------------------ a world
static std::string solo_key(const Req &r) {
    std::string k = (r.prog ? "p" : "l") + num(r.kind) + (r.clock ? "c" : "e") + num(r.ref.abs()) + ":" + (r.clock ? num(r.epoch) + "/" + num(r.zone) : "") + "|" + r.text;
    return k;
}
// the request alone, in a new process, without faults; explicit: with the reference given instead of read
static bool solo(const Req &r0, std::string &out, long *nallocs, Violation &v) {
    Proc p; p.reqs.push_back(r0);
    Req &r = p.reqs[0];
    r.fresh = true; r.oom = -1; r.forever = false; r.ticks.clear(); r.fill_a = r.fill_f = r.stack = -1; r.leak = false; for(int &x : r.amb) x = 0; r.th = 0;
    if(!r.prog) r.clock = false;
    Violation u;
    bool ok = spawn(p, true, u, 0);
    if(!ok) { v = u; v.msg = "(alone) " + v.msg; out = "ends: " + u.kind; return false; }
    out.assign(shm->out, shm->outlen);
    if(nallocs) *nallocs = shm->nallocs;
    return true;
}

static uint64_t h64(const std::string &s) { uint64_t h = 1469598103934665603ull; fnv(h, s); return h; }

bool run_world(World &w, Violation &v, RunStats &st) {
    init_shm();
    std::map<std::string, std::pair<std::string, long>> base;
    for(auto &p : w.procs) for(auto &r : p.reqs) {
        if(r.oracle != O_DIFF) continue;
        std::string k = solo_key(r);
        auto it = base.find(k);
        if(it == base.end()) {
            std::string out; long n = 0; Violation u;
            st.solo++;
            if(!solo(r, out, &n, u)) out = "ends: " + u.kind;
            it = base.emplace(k, std::make_pair(out, n)).first;
        }
        r.base = it->second.first; r.nallocs = it->second.second;
    }
    // a place for the failing allocation, now that their number is known
    for(int pi = 0; pi < (int)w.procs.size(); pi++) for(int i = 0; i < (int)w.procs[pi].reqs.size(); i++) {
        Req &r = w.procs[pi].reqs[i];
        if(r.oom != -2) continue;
        Rng g(w.seed * 7919 + (uint64_t)w.run * 104729 + (uint64_t)pi * 1299709 + i);
        r.oom = r.nallocs > 0 ? g.below((int)std::min<long>(r.nallocs, 1 << 30)) : 0;
    }
    int64_t prev = 0, prevc = 0; bool have = false, havec = false;
    bool bad = false;
    for(int pi = 0; pi < (int)w.procs.size() && !bad; pi++) {
        Proc &p = w.procs[pi];
        if(p.reqs.empty()) continue;
        st.procs++;
        if(pi) st.f_restart++;
        for(auto &r : p.reqs) {
            st.requests++;
            st.families[(r.oracle == O_NONE ? "noise:" : "") + r.family]++;
            if(r.oracle != O_NONE) st.asserted++;
            int64_t t = r.ref.abs();
            if(have) {
                double d = (double)(t - prev); st.reftime += d < 0 ? -d : d;
            }
            if(r.clock) {
                if(havec) {
                    double d = (double)(r.epoch - prevc); st.simtime += d < 0 ? -d : d;
                    if(d < 0) st.f_jump_back++; else if(d > 86400) st.f_jump++;
                }
                prevc = r.epoch; havec = true;
                int64_t e = 0; for(auto k : r.ticks) e += k < 0 ? -k : k;
                st.simtime += e * 1e-9;
            }
            prev = t; have = true;
            for(auto k : r.ticks) if(k) st.f_tick++;
            Date d = r.ref.date();
            char b[160];
            int dc = d.d == 1 ? 0 : d.d == mdays(d.y, d.m) ? 2 : d.m == 2 && d.d == 28 ? 3 : 1;
            snprintf(b, sizeof b, "%s/%d/%d/%d/%d/%d/%d", r.family.c_str(), r.prog ? -1 : r.kind, d.m, dc, wday_of(r.ref.day), (int)leap(d.y), r.ref.h() == 0 ? 0 : r.ref.h() < 7 ? 1 : r.ref.h() == 23 ? 3 : 2);
            st.situations.push_back(h64(b));
            if(r.oracle != O_NONE && r.text.find_first_not_of(" \t\n") != std::string::npos) st.requests_h.push_back(h64(solo_key(r) + (r.oom >= 0 ? "!" + num(r.oom) : "")));
        }
        bool ok = spawn(p, false, v, pi);
        if(want_log) { std::istringstream l(std::string(shm->log, shm->loglen)); std::string x; while(std::getline(l, x)) answer_log += num(pi) + " " + x + "\n"; }
        st.f_oom += shm->oom_fired; st.f_fill += shm->fills; st.f_stack += shm->stacks; if(p.layout) st.f_layout++; for(int k = 0; k < 4; k++) st.f_amb[k] += shm->ambs[k]; st.clockreads += shm->clockreads;
        st.steps += shm->steps; st.switches += shm->switches; st.race_checks += shm->race_checks; st.blocked += shm->blocked;
        if(shm->inter) st.inter.push_back(shm->inter);
        if(p.threads) for(int k = 0; k < shm->nhints; k++) st.hints.push_back({shm->hints[k].kind, shm->hints[k].a, shm->hints[k].b, pi, shm->hints[k].req});
        fnv(st.digest, &shm->digest, 8);
        if(!ok) {
            bad = true;
            if(p.threads && !p.fixed) { p.fixed = true; p.sched.assign(shm->sched, shm->sched + shm->nsched); }
            break;
        }
        // the program without a reference: compare with every instant that its clock showed
        Req &r = p.reqs.back();
        if(r.prog && r.oracle == O_INSTANT) {
            std::string got(shm->out, shm->outlen), tried;
            std::vector<int64_t> c(shm->reads, shm->reads + shm->nreads);
            c.push_back(r.epoch); c.push_back(shm->end_s);
            std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end());
            int nreads = shm->nreads;
            bool match = false;
            for(int64_t e : c) {
                Req q = r; q.clock = false; q.ref = local_of(zones()[r.zone], e); q.ticks.clear();
                std::string o; Violation u; st.solo++;
                if(!solo(q, o, nullptr, u)) o = "ends: " + u.kind;
                if(o == got) { match = true; break; }
                tried += "\n  given " + show(q.ref) + ": \"" + printable(o) + "\"";
            }
            if(!match) {
                v.kind = "not-one-instant"; v.proc = pi; v.req = (int)p.reqs.size() - 1;
                v.msg = about(r) + ", clock read " + num(nreads) + " time(s): printed \"" + printable(got) + "\", but" + tried;
                bad = true;
            }
        }
    }
    if(bad) { fnv(st.digest, v.kind); fnv(st.digest, v.msg); }
    return bad;
}
