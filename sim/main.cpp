// The simulator's command line: explore, replay, minimise, serve, one.
#include "world.hpp"
#include "sched.hpp"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <set>
#include <unordered_set>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
#include <sys/syscall.h>

static double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string slurp(const std::string &f) { std::ifstream i(f); std::ostringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const std::string &f, const std::string &t) { std::ofstream o(f); o << t; if(!o) { fprintf(stderr, "cannot write %s\n", f.c_str()); exit(2); } }

// ------------------------------------------------------------------ other builds of the same code
struct Peer { std::string bin; FILE *in = nullptr, *out = nullptr; pid_t pid = 0; };
static std::vector<Peer> peers;
extern std::string answer_log;          // exec.cpp
extern bool want_log;

static void start_peer(Peer &p) {
    int a[2], b[2];
    if(pipe(a) || pipe(b)) { perror("pipe"); exit(2); }
    p.pid = fork();
    if(p.pid == 0) {
        dup2(a[0], 0); dup2(b[1], 1);
        for(int f : {a[0], a[1], b[0], b[1]}) close(f);
        execl(p.bin.c_str(), p.bin.c_str(), "serve", (char *)nullptr);
        _exit(127);
    }
    close(a[0]); close(b[1]);
    p.in = fdopen(a[1], "w"); p.out = fdopen(b[0], "r");
}
static std::string ask_peer(Peer &p, const std::string &trace) {
    if(!p.pid) start_peer(p);
    fprintf(p.in, "%zu\n", trace.size()); fwrite(trace.data(), 1, trace.size(), p.in); fflush(p.in);
    size_t n;
    if(fscanf(p.out, "%zu", &n) != 1) { fprintf(stderr, "peer %s does not answer\n", p.bin.c_str()); exit(2); }
    fgetc(p.out);
    std::string s(n, 0);
    if(fread(&s[0], 1, n, p.out) != n) { fprintf(stderr, "peer %s does not answer\n", p.bin.c_str()); exit(2); }
    return s;
}
static int serve() {
    want_log = true;
    size_t n;
    while(scanf("%zu", &n) == 1) {
        getchar();
        std::string t(n, 0);
        if(fread(&t[0], 1, n, stdin) != n) return 2;
        World w; std::string err;
        if(!load(t, w, err)) { fprintf(stderr, "%s\n", err.c_str()); return 2; }
        Violation v; RunStats st;
        answer_log.clear();
        bool bad = run_world(w, v, st);
        std::string a = answer_log;
        if(bad) a += num(v.proc) + " " + num(v.req) + " violation " + v.kind + ": " + v.msg + "\n";
        printf("%zu\n", a.size()); fwrite(a.data(), 1, a.size(), stdout); fflush(stdout);
    }
    return 0;
}

static bool evaluate(World &w, Violation &v, RunStats &st) {
    want_log = !peers.empty();
    answer_log.clear();
    if(run_world(w, v, st)) return true;
    if(peers.empty()) return false;
    std::string mine = answer_log, trace = save(w);
    for(auto &p : peers) {
        std::string other = ask_peer(p, trace);
        st.f_kill += 1;                       // worlds compared with another build
        if(other == mine) continue;
        std::istringstream a(mine), b(other); std::string x, y;
        for(;;) {
            bool ha = (bool)std::getline(a, x), hb = (bool)std::getline(b, y);
            if(!ha) x = ""; if(!hb) y = "";
            if(x != y || (!ha && !hb)) break;
        }
        std::istringstream s(x.empty() ? y : x); s >> v.proc >> v.req;
        v.kind = "depends-on-leftovers";
        std::string name = p.bin.substr(p.bin.rfind('/') + 1);
        std::string at = v.proc >= 0 && v.proc < (int)w.procs.size() && v.req >= 0 && v.req < (int)w.procs[v.proc].reqs.size() ? w.procs[v.proc].reqs[v.req].text : "";
        v.msg = "text \"" + at + "\": " + x + " -- but with automatic variables filled otherwise (" + name + "): " + y;
        return true;
    }
    return false;
}

// ------------------------------------------------------------------ minimise
static double deadline = 0;
static long tries = 0;
static bool still(World w, const std::string &kind, World &best, Violation &bv) {
    if(wall() > deadline) return false;
    tries++;
    Violation v; RunStats st;
    if(!evaluate(w, v, st) || v.kind != kind) return false;
    best = w; bv = v;
    return true;
}
template<class T, class F> static void ddmin(std::vector<T> items, F ok) {
    // ok(list) keeps the list when the violation is still there
    size_t chunk = std::max<size_t>(1, items.size() / 2);
    while(!items.empty()) {
        bool any = false;
        for(size_t at = 0; at < items.size();) {
            std::vector<T> less(items.begin(), items.begin() + at);
            size_t e = std::min(items.size(), at + chunk);
            less.insert(less.end(), items.begin() + e, items.end());
            if(ok(less)) { items = less; any = true; } else at = e;
            if(wall() > deadline) return;
        }
        if(chunk == 1 && !any) break;
        if(!any || chunk > items.size()) chunk = std::max<size_t>(1, chunk / 2);
    }
}
static void minimise(World &w, Violation &v) {
    const std::string kind = v.kind;
    World best = w; Violation bv = v;
    // processes other than the failing one, and requests after the failing one
    { World t = best; if(bv.proc >= 0) { t.procs = {best.procs[bv.proc]}; still(t, kind, best, bv); } }
    for(int k = 0; k < 3; k++) {
        if(bv.proc >= 0 && bv.req >= 0 && !best.procs[bv.proc].threads) { World t = best; auto &q = t.procs[bv.proc].reqs; if(bv.req + 1 < (int)q.size()) { q.resize(bv.req + 1); if(!still(t, kind, best, bv)) break; } else break; }
    }
    if(bv.proc >= 0 && bv.req >= 0 && !best.procs[bv.proc].threads) { World t = best; Req r = t.procs[bv.proc].reqs[bv.req]; t.procs[bv.proc].reqs = {r}; still(t, kind, best, bv); }
    ddmin(best.procs, [&](const std::vector<Proc> &l) { World t = best; t.procs = l; return still(t, kind, best, bv); });
    for(int p = 0; p < (int)best.procs.size(); p++)
        ddmin(best.procs[p].reqs, [&](const std::vector<Req> &l) { World t = best; t.procs[p].reqs = l; return still(t, kind, best, bv); });
    for(int p = 0; p < (int)best.procs.size(); p++) {
        if(best.procs[p].layout) { World t = best; t.procs[p].layout = 0; still(t, kind, best, bv); }
        if(best.procs[p].layout > 1) { World t = best; t.procs[p].layout = 1; still(t, kind, best, bv); }
        if(best.procs[p].threads) {
            ddmin(best.procs[p].sched, [&](const std::vector<Switch> &l) { World t = best; t.procs[p].sched = l; t.procs[p].fixed = true; return still(t, kind, best, bv); });
        }
        for(int i = 0; i < (int)best.procs[p].reqs.size(); i++) {
            auto attempt = [&](void (*f)(Req &)) { World t = best; std::string before = save(t); f(t.procs[p].reqs[i]); if(save(t) != before) still(t, kind, best, bv); };
            attempt([](Req &r) { r.fill_a = r.fill_f = r.stack = -1; });
            attempt([](Req &r) { r.stack = -1; });
            attempt([](Req &r) { r.amb[0] = 0; });
            attempt([](Req &r) { r.amb[1] = 0; });
            attempt([](Req &r) { r.amb[2] = 0; });
            attempt([](Req &r) { r.amb[3] = 0; });
            attempt([](Req &r) { r.oom = -1; r.forever = false; });
            attempt([](Req &r) { r.forever = false; });
            attempt([](Req &r) { r.ticks.clear(); }); attempt([](Req &r) { r.frac = 0; });
            attempt([](Req &r) { if(!r.prog) r.clock = false; });
            attempt([](Req &r) { r.leak = false; });
            attempt([](Req &r) { if(!r.prog) { r.fresh = true; r.slot = 0; } });
            int o = best.procs[p].reqs[i].oracle;
            if(o == O_DIFF || o == O_TOTAL || o == O_INSTANT || o == O_NONE) {
                std::vector<std::string> words; { std::istringstream s(best.procs[p].reqs[i].text); std::string x; while(s >> x) words.push_back(x); }
                ddmin(words, [&](const std::vector<std::string> &l) {
                    World t = best; std::string s; for(auto &x : l) s += (s.empty() ? "" : " ") + x;
                    t.procs[p].reqs[i].text = s; return still(t, kind, best, bv); });
                std::string text = best.procs[p].reqs[i].text;
                if(text.size() <= 200) {
                    std::vector<char> cs(text.begin(), text.end());
                    ddmin(cs, [&](const std::vector<char> &l) { World t = best; t.procs[p].reqs[i].text = std::string(l.begin(), l.end()); return still(t, kind, best, bv); });
                }
            }
        }
    }
    w = best; v = bv;
}

// ------------------------------------------------------------------ requests that belong together
// What a request of one run does (locks taken in some order, writes to memory that was there before the
// threads) is remembered, and later runs let it meet the requests of other runs that could clash with it.
struct Director {
    std::map<std::pair<uint64_t, uint64_t>, Req> order;      // lock b taken while lock a is held
    std::set<std::vector<uint64_t>> cycles; std::map<int, int> per_kind;
    struct Writer { Req r; std::set<std::string> met; };
    std::map<std::pair<uint64_t, int>, Writer> writers;      // by place in the code and parser
    std::map<std::string, Req> corpus;                       // one request per parser and family
    std::vector<World> todo;
    long made = 0;
    static Req lone(Req r, int th) { r.th = th; r.fresh = false; r.slot = 0; r.oom = -1; r.forever = false; r.base.clear(); return r; }
    static World blank(const World &w, int threads, uint64_t seed, int mode, int mean) {
        World n; n.prop = w.prop; n.seed = w.seed; n.run = w.run;
        Proc p; p.threads = threads; p.schedseed = seed; p.mode = mode; p.mean = mean; n.procs.push_back(p);
        return n;
    }
    void learn(const World &w, const RunStats &st) {
        for(auto &p : w.procs) for(auto &r : p.reqs) corpus.emplace(num(r.kind) + "/" + r.family, r);
        for(auto &h : st.hints) {
            if(h.proc < 0 || h.req < 0 || h.req >= (int)w.procs[h.proc].reqs.size()) continue;
            const Req &r = w.procs[h.proc].reqs[h.req];
            if(h.kind == 0) {
                if(!order.emplace(std::make_pair(h.a, h.b), r).second) continue;
                // a way back from b to a
                std::vector<uint64_t> way; find(h.b, h.a, way, w);
            } else if(per_kind[r.kind] < 40 && !writers.count({h.a, r.kind})) { per_kind[r.kind]++; writers[{h.a, r.kind}].r = r; }
        }
    }
    // a writer meets requests that it has not met, those to the same parser first
    bool next(World &n, const World &w) {
        if(!todo.empty()) { n = todo.front(); todo.erase(todo.begin()); return true; }
        for(auto &x : writers) {
            Writer &e = x.second;
            if(e.met.size() >= 60) continue;
            std::vector<const std::pair<const std::string, Req> *> q;
            for(int other = 0; other < 2; other++) for(auto &c : corpus)
                if((c.second.kind != e.r.kind) == other && (!other || c.second.kind < K_CHAIN) && !e.met.count(c.first) && q.size() < 9) q.push_back(&c);
            if(q.size() < 6 && e.met.size() > 6) continue;
            if(q.empty()) continue;
            n = blank(w, 4, (made * 7919 + 17) * 104729 + w.run, (int)(made % 5), 2000); made++;
            for(int k = 0; k < 2; k++) n.procs[0].reqs.push_back(lone(e.r, (int)(k & 1)));
            for(size_t k = 0; k < q.size(); k++) { n.procs[0].reqs.push_back(lone(q[k]->second, 1 + (int)(k % 3))); e.met.insert(q[k]->first); }
            return true;
        }
        return false;
    }
    void find(uint64_t at, uint64_t to, std::vector<uint64_t> &way, const World &w) {
        way.push_back(at);
        if(at == to) {
            std::vector<uint64_t> key = way; std::sort(key.begin(), key.end());
            if(cycles.insert(key).second) for(int k = 0; k < 24; k++) {
                World n = blank(w, (int)way.size(), (made * 7919 + 31) * 104729 + w.run, 5, k % 2 ? 100000 : 500); made++;
                n.procs[0].reqs.push_back(lone(order.at({to, way[0]}), 0));
                for(size_t i = 0; i + 1 < way.size(); i++) n.procs[0].reqs.push_back(lone(order.at({way[i], way[i + 1]}), (int)i + 1));
                todo.push_back(n);
            }
        } else if(way.size() < 4) for(auto &e : order) if(e.first.first == at && std::find(way.begin(), way.end(), e.first.second) == way.end()) find(e.first.second, to, way, w);
        way.pop_back();
    }
};

// ------------------------------------------------------------------ explore
static std::string js(const std::string &s) {
    std::string r = "\""; char b[8];
    for(unsigned char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if(c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c; }
    return r + "\"";
}
static void dump(const std::string &f, const std::unordered_set<uint64_t> &s) { std::ofstream o(f, std::ios::binary); for(uint64_t x : s) o.write((const char *)&x, 8); }

int main(int argc, char **argv) {
    std::map<std::string, std::string> opt; std::vector<std::string> args;
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if(a == "--peer" && i + 1 < argc) { Peer p; p.bin = argv[++i]; peers.push_back(p); }
        else if(!a.compare(0, 2, "--") && i + 1 < argc) { opt[a.substr(2)] = argv[++i]; }
        else args.push_back(a);
    }
    std::string mode = args.empty() ? "" : args[0];
    auto geti = [&](const char *k, long d) { return opt.count(k) ? atol(opt[k].c_str()) : d; };
    signal(SIGPIPE, SIG_IGN);
    if(mode == "serve") return serve();
    if(mode == "world" && opt.count("prop")) { World w = make_world(opt["prop"], strtoull(opt["seed"].c_str(), nullptr, 10), geti("run", 0)); std::cout << save(w); return 0; }
    if(mode == "replay" && args.size() == 2) {
        World w; std::string err;
        if(!load(slurp(args[1]), w, err)) { fprintf(stderr, "%s: %s\n", args[1].c_str(), err.c_str()); return 2; }
        Violation v; RunStats st;
        bool bad = evaluate(w, v, st);
        printf("digest %016llx\n", (unsigned long long)st.digest);
        if(opt.count("verbose")) for(auto &p : w.procs) for(auto &r : p.reqs) printf("base %s\n", r.base.c_str());
        if(bad) { printf("kind %s\nat process %d request %d\nmessage %s\n", v.kind.c_str(), v.proc, v.req, v.msg.c_str()); return v.kind == "internal" ? 2 : 1; }
        printf("no violation\n");
        return 0;
    }
    if(mode == "minimise" && args.size() == 3) {
        World w; std::string err;
        if(!load(slurp(args[1]), w, err)) { fprintf(stderr, "%s\n", err.c_str()); return 2; }
        deadline = wall() + geti("seconds", 60);
        Violation v; RunStats st;
        if(!evaluate(w, v, st)) { printf("no violation\n"); return 3; }
        minimise(w, v);
        World again = w; Violation v2; RunStats s1, s2;
        if(!evaluate(w, v, s1) || !evaluate(again, v2, s2) || s1.digest != s2.digest) { printf("not deterministic\n"); return 2; }
        spit(args[2], save(w));
        printf("kind %s\ntries %ld\nmessage %s\n", v.kind.c_str(), tries, v.msg.c_str());
        return 1;
    }
    if(mode != "explore" || !known_prop(opt["prop"])) { fprintf(stderr, "usage: sim explore --prop P --seed S --first F --stride K --last L --seconds T --out PREFIX | replay FILE | minimise FILE OUT | serve | world\n"); return 2; }

    std::string prop = opt["prop"], out = opt["out"];
    uint64_t seed = strtoull(opt["seed"].c_str(), nullptr, 10);
    long first = geti("first", 0), stride = geti("stride", 1), last = geti("last", 1000000000), twice = geti("twice", 50);
    double t0 = wall(), limit = geti("seconds", 60);
    RunStats st; long runs = 0, rerun = 0, faulty = 0, clean = 0;
    std::unordered_set<uint64_t> sit, req, inter;
    std::vector<std::string> samples;
    Violation v; bool bad = false; World w; long badrun = -1;
    uint64_t digest = 0;
    Director dir; long directed = 0; double directed_time = 0;
    for(long i = first; i < last && wall() - t0 < limit; i += stride) {
        // at most half of the time for worlds that were put together from earlier ones
        double began = wall();
        bool put = prop == "C02" && directed <= runs - directed && dir.next(w, w);
        if(put) { directed++; i -= stride; }
        else w = make_world(prop, seed, i);
        World copy = w;
        RunStats one;
        bad = evaluate(w, v, one);
        runs++;
        digest = digest * 1099511628211ull + one.digest;
        if(!bad && twice && runs % twice == 0) {
            // the same seed must give the same execution
            RunStats two; Violation u;
            bool b2 = evaluate(copy, u, two);
            rerun++;
            if(b2 || two.digest != one.digest) { fprintf(stderr, "run %ld of seed %llu is not deterministic\n", i, (unsigned long long)seed); spit(out + ".nondet", save(w)); return 2; }
        }
        if(!bad && prop == "C02") dir.learn(w, one);
        if(put) directed_time += wall() - began;
        st.requests += one.requests; st.asserted += one.asserted; st.procs += one.procs; st.solo += one.solo;
        st.f_oom += one.f_oom; st.f_tick += one.f_tick; st.f_jump_back += one.f_jump_back; st.f_jump += one.f_jump; st.f_restart += one.f_restart;
        st.f_fill += one.f_fill; st.f_stack += one.f_stack; st.f_layout += one.f_layout; for(int k = 0; k < 4; k++) st.f_amb[k] += one.f_amb[k]; st.f_kill += one.f_kill; st.steps += one.steps; st.switches += one.switches;
        st.clockreads += one.clockreads; st.race_checks += one.race_checks; st.blocked += one.blocked; st.simtime += one.simtime; st.reftime += one.reftime;
        if(one.f_oom || one.f_tick || one.f_jump_back || one.f_restart || one.f_fill || one.f_layout || one.f_amb[0] || one.f_amb[1] || one.f_amb[2] || one.f_amb[3] || one.switches) faulty++; else clean++;
        for(auto &f : one.families) st.families[f.first] += f.second;
        sit.insert(one.situations.begin(), one.situations.end());
        if(req.size() < 3000000) req.insert(one.requests_h.begin(), one.requests_h.end());
        inter.insert(one.inter.begin(), one.inter.end());
        if(samples.size() < 4 && !w.procs.empty() && !w.procs[0].reqs.empty()) {
            std::istringstream s(save(w)); std::string l; int n = 0; while(std::getline(s, l)) if(n++ == 4) samples.push_back(l);
        }
        if(bad) {
            badrun = i;
            if(v.kind == "internal") { fprintf(stderr, "%s\n", v.msg.c_str()); return 2; }
            spit(out + ".trace", save(w));
            break;
        }
    }
    double t1 = wall();
    dump(out + ".sit", sit); dump(out + ".req", req); dump(out + ".int", inter);
    std::ostringstream o;
    o << "{\"runs\":" << runs << ",\"reruns\":" << rerun << ",\"requests\":" << st.requests << ",\"asserted\":" << st.asserted << ",\"processes\":" << st.procs << ",\"solo\":" << st.solo
      << ",\"oom\":" << st.f_oom << ",\"ticks\":" << st.f_tick << ",\"jump_back\":" << st.f_jump_back << ",\"jump\":" << st.f_jump << ",\"restarts\":" << st.f_restart
      << ",\"fills\":" << st.f_fill << ",\"stacks\":" << st.f_stack << ",\"layouts\":" << st.f_layout << ",\"host_locale\":" << st.f_amb[0] << ",\"host_errno\":" << st.f_amb[1] << ",\"host_rounding\":" << st.f_amb[2] << ",\"host_streams\":" << st.f_amb[3] << ",\"peer\":" << st.f_kill << ",\"steps\":" << st.steps << ",\"switches\":" << st.switches
      << ",\"clockreads\":" << st.clockreads << ",\"race_checks\":" << st.race_checks << ",\"blocked\":" << st.blocked << ",\"faulty\":" << faulty << ",\"clean\":" << clean << ",\"simtime\":" << (long long)st.simtime << ",\"reftime\":" << (long long)st.reftime << ",\"directed\":" << directed << ",\"directed_time\":" << directed_time << ",\"cycles\":" << dir.cycles.size() << ",\"writers\":" << dir.writers.size() << ",\"wall\":" << (t1 - t0)
      << ",\"digest\":" << js(num((int64_t)(digest >> 1))) << ",\"violation\":" << (bad ? js(v.kind + ": " + v.msg) : "null") << ",\"badrun\":" << badrun << ",\"families\":{";
    bool c = false; for(auto &f : st.families) { o << (c ? "," : "") << js(f.first) << ":" << f.second; c = true; }
    o << "},\"samples\":["; c = false; for(auto &s : samples) { o << (c ? "," : "") << js(s); c = true; }
    o << "]}\n";
    spit(out + ".json", o.str());
    for(auto &p : peers) if(p.in) fclose(p.in);
    return bad ? 1 : 0;
}
