// Worlds for each property: what is asked, when, in which order and with which faults.
#include "world.hpp"
#include <cstring>
#include <algorithm>

typedef Phrase (*Gen)(Rng &, const Instant &);

struct Ctx {
    Rng g; int zone = 0; int64_t epoch = 0; bool faulty = false, clocked = true, jumps = true;   // jumps: the clock may be set to anything
    explicit Ctx(uint64_t s) : g(s) {}
};

static bool good_year(const Instant &i) { int y = i.date().y; return y >= 1403 && y <= 9990; }

// the C library applies daylight-saving rules only from 1970 on
static bool good_clock(const Zone &z, const Instant &i) { return good_year(i) && (!z.dst || i.date().y >= 1971); }

static int64_t epoch_at(const Zone &z, const Instant &local) {
    int64_t e = local.abs() - z.off;
    if(z.dst && local_of(z, e).abs() != local.abs()) { int64_t e2 = local.abs() - z.dst_off; if(local_of(z, e2).abs() == local.abs()) return e2; }
    return e;
}
// an instant just around a change of the zone's offset
static int64_t near_change(Rng &g, const Zone &z) {
    int y = g.range(1971, 2099);
    if(!z.dst) { Instant m = inst(y, g.range(1, 12), 1); return epoch_at(z, m) + g.range(-3, 3); }
    int64_t t = g.chance(50) ? dst_begin(z, y) : dst_end(z, y);
    return t + (g.chance(50) ? g.range(-3, 3) : g.range(-4000, 4000));
}

static void next_ref(Ctx &c, Req &r) {
    Rng &g = c.g;
    if(!c.clocked || g.chance(35)) { r.clock = false; r.ref = some_instant(g); return; }
    r.clock = true;
    if(g.chance(5)) c.zone = g.below((int)zones().size());
    const Zone &z = zones()[c.zone];
    int64_t e = c.epoch;
    int k = c.jumps ? g.below(100) : g.range(58, 99);
    if(k < 50) e = epoch_at(z, some_instant(g));
    else if(k < 58) e = near_change(g, z);
    else if(k < 75) { // to the second around the next local midnight
        Instant l = local_of(z, e);
        e += 86400 - l.sec + g.range(-2, 1);
    } else {
        static const int64_t d[] = {0, 1, 2, 59, 60, 61, 3599, 3600, 86399, 86400, 86401, 604800, 2592000, 31536000, 31622400};
        int64_t s = g.chance(60) ? d[g.below(15)] : g.below(400 * 86400);
        e += c.jumps && g.chance(20) ? -s : s;
    }
    Instant l = local_of(z, e);
    if(!good_clock(z, l)) { e = epoch_at(z, inst(g.range(1971, 2090), 12, 31, 23, 59, 58)); l = local_of(z, e); }
    c.epoch = e; r.epoch = e; r.zone = c.zone; r.ref = l;
}

static void fills(Rng &g, Req &r) {
    static const int pats[] = {0, 255, 1, 0x41, 0x70, 0x30, 0x7f, 0x80, 0xfe, 300, 301};
    r.fill_a = pats[g.below(11)]; r.fill_f = pats[g.below(11)]; r.stack = g.chance(70) ? pats[g.below(11)] : -1;
}
static void oom(Rng &g, Req &r, long n) {
    r.oom = n > 0 && g.chance(85) ? g.below((int)n) : g.below(40);
    r.forever = g.chance(25);
}

// ------------------------------------------------------------------ texts of every kind
static Phrase g_datepart_any(Rng &g, const Instant &r) { return g_datepart(g, r, false); }
static const Gen all_gens[] = {g_casual, g_durations, g_units, g_weekday, g_holiday, g_months, g_times, g_absolute, g_combo, g_datepart_any, g_zoned};

static Phrase any_phrase(Rng &g, const Instant &r) { return all_gens[g.below(11)](g, r); }

static const Strs &vocab() {
    static const Strs v = {"last", "next", "this", "past", "week", "weeks", "month", "months", "year", "years", "day", "days", "hour", "hours", "hrs", "min", "mins",
        "minutes", "second", "seconds", "sec", "half", "half a", "half an", "a few", "a", "an", "in", "within", "ago", "before", "earlier", "later", "after", "from now",
        "out", "at", "from", "to", "through", "and", "-", "of", "on", ",", "monday", "tue", "wednesday", "thurs", "friday", "sat", "sunday", "january", "feb", "feb.", "march",
        "apr", "may", "june", "jul.", "august", "sept", "oct", "november", "dec.", "first", "second", "third", "twenty first", "thirty-first", "twenty-ninth", "thirtieth",
        "noon", "midnight", "morning", "afternoon", "evening", "night", "tonight", "today", "tomorrow", "yesterday", "now", "last night", "tmr", "christmas", "christmas eve",
        "thanksgiving", "labor day", "mlk", "new year's eve", "black friday", "veterans day", "easter", "early", "earlier", "late", "few", "one", "two", "seven", "twelve",
        "thirteen", "am", "pm", "a.m.", "p.m.", "o'clock", "est", "utc", "(pst)", "be", "ad", "bc", "t", "z", ":", ".", "/", "\xef\xbc\x9a", "\xe2\x80\x93", "~", "?"};
    return v;
}
static std::string some_number(Rng &g) {
    static const Strs n = {"0", "00", "000", "0000", "1", "2", "5", "7", "11", "12", "13", "23", "24", "25", "29", "30", "31", "32", "59", "60", "61", "99", "100", "101", "999", "1000",
        "1300", "1399", "1400", "1730", "2018", "2359", "2360", "2400", "2401", "9999", "10000", "32767", "32768", "65535", "65536", "65537", "99999", "100000", "1000000",
        "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "99999999999999999999", "2932896", "213503", "106751991167"};
    switch(g.below(6)) {
    case 0: return num(g.below(32));
    case 1: return num(g.range(1300, 2200));
    case 2: { char b[32]; snprintf(b, sizeof b, "%02d:%02d", g.below(30), g.below(70)); return b; }
    case 3: { char b[64]; snprintf(b, sizeof b, g.chance(50) ? "%04d-%02d-%02d" : "%04d-%d-%dT%02d:%02d:%02d", g.below(10000), g.below(15), g.below(34), g.below(30), g.below(70), g.below(70)); return b; }
    default: return g.pick(n);
    }
}
static std::string soup(Rng &g, int n) {
    std::string s;
    for(int i = 0; i < n; i++) {
        if(i) s += g.chance(88) ? " " : g.chance(50) ? "" : "  ";
        s += g.chance(28) ? some_number(g) : g.chance(92) ? g.pick(vocab()) : g.pick(noise_words());
    }
    return s;
}
// a few words, then the same kind of thing many times over, then perhaps a few words: what makes a pattern try again and again
static std::string stress(Rng &g) {
    std::string s = soup(g, g.range(0, 2));
    if(!s.empty()) s += " ";
    int k = g.below(6), n = g.chance(50) ? g.range(12, 40) : g.range(40, 400);
    static const Strs sep = {" ", "", "  ", "-", ", ", "."};
    std::string se = g.pick(sep), unit;
    if(k <= 1) { unit = g.chance(50) ? std::string(1, (char)g.range('a', 'z')) : std::string(); for(int i = 0; i < n; i++) s += unit.empty() ? std::string(1, (char)g.range('a', 'z')) : unit; }
    else if(k == 2) for(int i = 0; i < n; i++) s += (char)g.range('0', '9');
    else if(k == 3) { unit = g.pick(vocab()); for(int i = 0; i < n; i++) s += unit + se; }
    else if(k == 4) { unit = some_number(g) + (g.chance(50) ? " " : "") + g.pick(vocab()); for(int i = 0; i < n; i++) s += unit + se; }
    else { int a = g.below((int)vocab().size()), b = g.below((int)vocab().size()); for(int i = 0; i < n; i++) s += (g.chance(50) ? vocab()[a] : vocab()[b]) + se; }
    if(s.size() > 470) s.resize(470);
    if(g.chance(60)) s += (g.chance(70) ? " " : "") + soup(g, g.range(1, 3));
    return s;
}
static std::string mutate(Rng &g, std::string s) {
    int n = g.range(1, 4);
    for(int i = 0; i < n && !s.empty(); i++) {
        int at = g.below((int)s.size());
        switch(g.below(7)) {
        case 0: s.erase(at, g.range(1, 3)); break;
        case 1: s.insert(at, 1, s[g.below((int)s.size())]); break;
        case 2: s[at] = (char)g.range(32, 126); break;
        case 3: { int b = g.below((int)s.size()); std::swap(s[at], s[b]); break; }
        case 4: s.insert(at, some_number(g)); break;
        case 5: s.insert(at, " " + g.pick(vocab()) + " "); break;
        default: s.insert(at, g.chance(50) ? " " : "\t");
        }
    }
    return s;
}
static std::string any_text(Rng &g, const Instant &r) {
    int k = g.below(100), pos;
    std::string s;
    if(k < 45) s = decorate(g, any_phrase(g, r), pos);
    else if(k < 60) s = mutate(g, decorate(g, any_phrase(g, r), pos));
    else if(k < 85) s = soup(g, g.range(1, 8));
    else if(k < 90) s = decorate(g, any_phrase(g, r), pos) + " " + decorate(g, any_phrase(g, r), pos);
    else if(k < 95) s = noise(g, g.range(0, 6));
    else { int n = g.below(60); for(int i = 0; i < n; i++) s += (char)g.range(32, 126); }
    if(s.size() > 500) s.resize(500);
    return s;
}
static int any_kind(Rng &g, int chain_percent) { return g.chance(chain_percent) ? K_CHAIN : g.below(P_COUNT); }
// kinds weighted to where the text means something
static int kind_for(Rng &g, const Phrase &p, int chain_percent) {
    if(p.parser < 0 && (p.family == "zoned" || g.chance(40))) return g.chance(80) ? K_SHORT : K_CHAIN;
    if(p.parser < 0 || g.chance(chain_percent)) return K_CHAIN;
    return p.parser;
}

// ------------------------------------------------------------------ phrases with known answers
static Req ask(Ctx &c, Gen gen, bool in_prog) {
    Rng &g = c.g;
    Req r;
    next_ref(c, r);
    Phrase p = gen(g, r.ref);
    for(int i = 0; in_prog && !p.chain_ok && i < 50; i++) p = gen(g, r.ref);
    r.prog = in_prog && p.chain_ok;
    r.kind = p.parser < 0 ? K_CHAIN : p.chain_ok && g.chance(6) ? K_CHAIN : p.parser;
    if(in_prog && !r.prog && r.kind == K_CHAIN) r.kind = p.parser;
    r.fresh = g.chance(40); r.slot = g.below(3);
    int pos;
    r.text = decorate(g, p, pos);
    r.family = p.family;
    r.oracle = O_EXPECT;
    Item it; it.alts = p.alts; r.items.push_back(it);
    return r;
}
static Req disturb(Ctx &c) {
    Rng &g = c.g;
    Req r; next_ref(c, r);
    Phrase p = any_phrase(g, r.ref);
    int pos;
    r.kind = kind_for(g, p, 3);
    r.text = g.chance(70) ? decorate(g, p, pos) : any_text(g, r.ref);
    r.fresh = g.chance(40); r.slot = g.below(3);
    r.family = p.family; r.oracle = O_NONE;
    if(g.chance(50)) oom(g, r, g.chance(50) ? 60 : 2000);
    return r;
}
static World semantic(World w, Gen gen, int n_one) {
    Ctx c(w.seed * 1000003ull + (uint64_t)w.run * 2654435761ull + 17 * (w.prop[1] * 10 + w.prop[2]));
    Rng &g = c.g;
    c.faulty = c.jumps = g.chance(50);
    c.zone = g.below((int)zones().size());
    c.epoch = epoch_at(zones()[c.zone], inst(g.range(1971, 2090), g.range(1, 12), g.range(1, 28), g.below(24)));
    int procs = c.faulty ? g.range(1, 3) : 1;
    bool fill = c.faulty && g.chance(25);
    for(int k = 0; k < procs; k++) {
        Proc p;
        int n = g.range(n_one / 2, n_one);
        for(int i = 0; i < n; i++) {
            if(c.faulty && g.chance(8)) { p.reqs.push_back(disturb(c)); continue; }
            Req r = ask(c, gen, false);
            if(fill) fills(g, r);
            if(c.faulty && g.chance(2)) oom(g, r, 40);
            p.reqs.push_back(r);
        }
        w.procs.push_back(p);
        int np = g.range(0, 2);
        for(int i = 0; i < np; i++) {
            Proc q; Req r = ask(c, gen, true);
            if(!r.prog) { q.reqs.push_back(r); w.procs.push_back(q); continue; }
            q.reqs.push_back(r); w.procs.push_back(q);
        }
    }
    return w;
}

// ------------------------------------------------------------------ C01
static World history(World w) {
    Ctx c(w.seed * 1000003ull + (uint64_t)w.run * 2654435761ull + 101);
    Rng &g = c.g;
    c.zone = g.below((int)zones().size());
    c.epoch = epoch_at(zones()[c.zone], inst(g.range(1971, 2090), g.range(1, 12), g.range(1, 28), g.below(24)));
    // a pool of requests that have much in common: texts at several instants, instants with several texts
    int shape = g.below(4);                       // 0 one parser long, 1 few parsers, 2 all, 3 with the chain
    bool wide = shape < 3 && g.chance(45);        // more different texts than what is kept in a small cache
    std::vector<Req> pool;
    int ntext = wide ? g.range(10, 70) : g.range(2, 7), nref = wide ? g.range(1, 2) : g.range(2, 5);
    std::vector<int> kinds;
    int nk = shape == 0 ? 1 : shape == 1 ? g.range(2, 3) : 6;
    for(int i = 0; i < nk; i++) kinds.push_back(g.below(P_COUNT));
    std::vector<Req> refs;
    for(int i = 0; i < nref; i++) { Req r; next_ref(c, r); refs.push_back(r); }
    std::vector<Phrase> texts;
    for(int i = 0; i < ntext; i++) {
        const Instant &r = refs[g.below(nref)].ref;
        Phrase p;
        if(shape <= 1 && g.chance(80)) {
            int want = kinds[g.below(nk)];
            for(int t = 0; t < 200; t++) { p = any_phrase(g, r); if(p.parser == want) break; }
        } else p = any_phrase(g, r);
        int pos;
        int k = g.below(10);
        if(k < 6) p.text = g.chance(50) ? p.text : decorate(g, p, pos);
        else if(k < 8) p.text = mutate(g, p.text);
        else { p.text = any_text(g, r); p.parser = any_kind(g, 10); if(p.parser == K_CHAIN) p.parser = -1; }
        texts.push_back(p);
        if(g.chance(25)) { Phrase q = p; q.text = vary_case(g, p.text); texts.push_back(q); }
        if(g.chance(25)) { Phrase q = p; q.text = p.text + g.pick(Strs{" ", ".", " please", "s", "!"}); texts.push_back(q); }
    }
    for(auto &p : texts) for(auto &rr : refs) {
        if(g.chance(25)) continue;
        Req r = rr;
        r.kind = shape == 3 && g.chance(30) ? K_CHAIN : p.parser < 0 ? (shape == 3 ? K_CHAIN : g.chance(50) ? K_SHORT : g.below(P_COUNT)) : p.parser;
        if(g.chance(10)) r.kind = kinds[g.below(nk)];
        r.text = p.text; r.family = p.family.empty() ? "text" : p.family; r.oracle = O_DIFF;
        pool.push_back(r);
    }
    if(pool.empty()) return w;
    if(pool.size() > 40 && !wide) pool.resize(40);
    bool faulty = g.chance(60);
    int procs = faulty ? g.range(1, 3) : 1;
    int total = shape == 3 ? g.range(10, 40) : g.chance(12) ? g.range(1000, 4000) : wide ? g.range(100, 500) : g.range(30, 300);
    for(int k = 0; k < procs; k++) {
        Proc p;
        bool manyobj = g.chance(30);
        for(int i = 0; i < total / procs; i++) {
            Req r = g.pick(pool);
            if(!p.reqs.empty() && g.chance(20)) { r = p.reqs[p.reqs.size() - 1 - g.below(std::min<int>(3, (int)p.reqs.size()))]; r.oom = -1; r.forever = false; r.fill_a = r.fill_f = r.stack = -1; }
            r.fresh = g.chance(manyobj ? 60 : 10); r.slot = manyobj ? g.below(3) : 0;
            if(faulty && g.chance(4)) { oom(g, r, r.kind >= K_CHAIN ? 20000 : 60); }
            if(faulty && g.chance(3)) fills(g, r);
            p.reqs.push_back(r);
        }
        w.procs.push_back(p);
    }
    return w;
}

// ------------------------------------------------------------------ C03
static World memory(World w) {
    Ctx c(w.seed * 1000003ull + (uint64_t)w.run * 2654435761ull + 303);
    Rng &g = c.g;
    c.clocked = false;
    auto mk = [&](int chain) {
        Req r; next_ref(c, r);
        Phrase p = any_phrase(g, r.ref); int pos;
        r.kind = kind_for(g, p, chain);
        if(r.kind >= K_CHAIN && !g.chance(chain * 3)) { while(p.parser < 0) p = any_phrase(g, r.ref); r.kind = p.parser; }
        r.text = g.chance(85) ? decorate(g, p, pos) : any_text(g, r.ref);
        r.family = p.family; r.oracle = O_DIFF; r.fresh = g.chance(50); r.slot = g.below(2);
        return r;
    };
    int n = g.range(1, 4);
    for(int k = 0; k < n; k++) {
        Proc p;
        bool prog = g.chance(10);
        Req a = mk(12);
        if(prog) { a.prog = true; a.kind = K_CHAIN; }
        if(prog) {
            // the program is started again for each failing allocation
            int m = g.range(1, 3);
            for(int i = 0; i < m; i++) { Proc q; Req r = a; r.oom = -2; r.forever = g.chance(25); q.reqs.push_back(r); w.procs.push_back(q); }
            continue;
        }
        bool cold = g.chance(60);
        if(!cold) { p.reqs.push_back(a); Req b = mk(5); p.reqs.push_back(b); }
        int tries = a.kind >= K_CHAIN ? g.range(2, 5) : g.range(4, 30);
        for(int i = 0; i < tries; i++) {
            Req r = a; r.oom = -2; r.forever = g.chance(25);       // -2: a place chosen when the number of allocations is known
            r.fresh = g.chance(50);
            if(cold && i == 0) { p.reqs.push_back(r); }
            else p.reqs.push_back(r);
            if(g.chance(40)) { Req q = a; q.fresh = g.chance(50); p.reqs.push_back(q); }
            if(g.chance(30)) { Req q = mk(5); p.reqs.push_back(q); }
        }
        Req q = a; p.reqs.push_back(q);
        // leaks: warm, then failing requests must leave what they found
        if(g.chance(60)) {
            Req z = a; z.fresh = false; z.slot = 2;
            p.reqs.push_back(z); p.reqs.push_back(z);
            for(int i = 0; i < 6; i++) { Req y = z; y.oom = i ? -2 : -1; y.leak = true; p.reqs.push_back(y); }
        }
        w.procs.push_back(p);
    }
    return w;
}

// ------------------------------------------------------------------ C04
static World clockrun(World w) {
    Ctx c(w.seed * 1000003ull + (uint64_t)w.run * 2654435761ull + 404);
    Rng &g = c.g;
    int n = g.range(1, 3);
    c.zone = g.below((int)zones().size());
    for(int i = 0; i < n; i++) {
        Proc p; Req r;
        r.prog = true; r.clock = true; r.zone = c.zone;
        if(g.chance(40)) r.zone = g.below((int)zones().size());
        const Zone &z = zones()[r.zone];
        int k = g.below(10);
        Instant l;
        if(k < 3) r.epoch = near_change(g, z);
        else if(k < 7) { // the last second before a midnight, or near it
            l = some_instant(g).at(23, 59, 59);
            r.epoch = epoch_at(z, l) + (g.chance(60) ? 0 : g.range(-1, 2));
        } else r.epoch = epoch_at(z, some_instant(g));
        l = local_of(z, r.epoch);
        if(!good_clock(z, l)) { r.epoch = epoch_at(z, inst(2019, 12, 31, 23, 59, 59)); l = local_of(z, r.epoch); }
        r.ref = l;
        if(g.chance(50)) r.frac = g.pick(std::vector<int64_t>{1, 1000, 499999999, 500000000, 500001000, 999999000, 999999999, (int64_t)g.below(1000000000)});
        int nt = g.below(4);
        for(int t = 0; t < nt; t++) {
            static const int64_t d[] = {0, 1, 500000000, 999999999, 1000000000, 1000000001, 60000000000ll, 3600000000000ll, 86400000000000ll, -1000000000ll, -3600000000000ll, -86400000000000ll, 31536000000000000ll};
            r.ticks.push_back(d[g.below(13)]);
        }
        int kind = g.below(10), pos;
        Phrase ph;
        if(kind < 2) { ph.text = "now"; ph.family = "now"; r.text = decorate(g, ph, pos); }
        else if(kind < 9) { ph = any_phrase(g, l); r.text = decorate(g, ph, pos); }
        else { ph.family = "text"; r.text = any_text(g, l); }
        for(auto &ch : r.text) if(!ch) ch = ' ';
        r.family = ph.family; r.oracle = O_INSTANT;
        p.reqs.push_back(r);
        w.procs.push_back(p);
    }
    return w;
}

// ------------------------------------------------------------------ C05
static World leftovers(World w) {
    Ctx c(w.seed * 1000003ull + (uint64_t)w.run * 2654435761ull + 505);
    Rng &g = c.g;
    c.clocked = g.chance(20);
    int n = g.range(1, 2);
    for(int k = 0; k < n; k++) {
        Proc p;
        int m = g.range(10, 60);
        for(int i = 0; i < m; i++) {
            Req r; next_ref(c, r);
            Phrase ph = any_phrase(g, r.ref); int pos;
            r.kind = kind_for(g, ph, 4);
            r.text = g.chance(60) ? decorate(g, ph, pos) : g.chance(50) ? mutate(g, ph.text) : any_text(g, r.ref);
            r.fresh = g.chance(50); r.slot = g.below(2); r.family = ph.family; r.oracle = O_DIFF;
            fills(g, r);
            p.reqs.push_back(r);
        }
        p.layout = g.chance(25) ? 0 : g.chance(35) ? 1 : g.range(2, 1 << 30);
        w.procs.push_back(p);
        if(g.chance(40)) {
            Proc q; q.layout = p.layout; Req r = p.reqs[0]; r.prog = true; r.kind = K_CHAIN; for(auto &ch : r.text) if(!ch) ch = ' ';
            r.ticks.clear(); q.reqs.push_back(r); w.procs.push_back(q);
        }
    }
    return w;
}

// ------------------------------------------------------------------ C17
static World host_state(World w) {
    Ctx c(w.seed * 1000003ull + (uint64_t)w.run * 2654435761ull + 1717);
    Rng &g = c.g;
    c.clocked = g.chance(15);
    auto amb = [&](Req &r) {
        bool one = g.chance(40); int which = g.below(4);
        for(int k = 0; k < 4; k++) if(one ? k == which : g.chance(50)) r.amb[k] = k == 0 ? g.range(1, 3) : k == 1 ? g.range(1, 4) : k == 2 ? g.range(1, 3) : g.range(1, 5);
    };
    int n = g.range(1, 2);
    for(int k = 0; k < n; k++) {
        Proc p;
        int m = g.range(6, 40);
        for(int i = 0; i < m; i++) {
            Req r; next_ref(c, r);
            Phrase ph = any_phrase(g, r.ref); int pos;
            r.kind = kind_for(g, ph, 4);
            r.text = g.chance(60) ? decorate(g, ph, pos) : g.chance(40) ? mutate(g, ph.text) : g.chance(50) ? ph.text : any_text(g, r.ref);
            r.fresh = g.chance(60); r.slot = g.below(2); r.family = ph.family; r.oracle = O_DIFF;
            if(!g.chance(10)) amb(r);
            p.reqs.push_back(r);
        }
        w.procs.push_back(p);
        if(g.chance(30)) {
            Proc q; Req r = p.reqs[0]; r.prog = true; r.kind = K_CHAIN; for(auto &ch : r.text) if(!ch) ch = ' ';
            r.ticks.clear(); q.reqs.push_back(r); w.procs.push_back(q);
        }
    }
    return w;
}

// ------------------------------------------------------------------ C15
// a number of arguments, and a reference date that may be malformed
static void command_line(Rng &g, Req &r) {
    r.nargs = g.chance(85) ? 2 : g.pick(std::vector<int>{0, 3, 4});
    Date d = r.ref.date(); char b[80];
    snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", d.y, d.m, d.d, r.ref.h(), r.ref.mi(), r.ref.s());
    std::string s = b;
    static const Strs odd = {"", " ", "today", "now", "not-a-date-time", "+infinity", "-infinity", "2016", "2016-08", "2016-08-10", "2016-08-10T12:00:00", "08/10/2016 12:00", "2016-Aug-10 12:00:00",
        "2016-13-01 00:00:00", "2016-00-10 00:00:00", "2016-02-30 12:00:00", "2015-02-29 00:00:00", "1399-12-31 23:59:59", "10000-01-01 00:00:00", "0000-00-00 00:00:00", "2016-08-10 25:00:00", "2016-08-10 12:61:00",
        "2016-08-10 -1:00:00", "2016-08-10 12", "2016-08-10 12:00", "2016-08-10 12:00:00.123456789", "9999-12-31 24:00:00", "9999-12-31 99:99:99", "99999999999-1-1 0:0:0", "-1-1-1", "2016-08-10 12:00:00 PST", "2016-08-10 99999999999:00:00", "2016-8-1 1:2:3"};
    int k = g.below(10);
    if(k < 4) s = g.pick(odd);
    else if(k < 8) { for(int j = g.range(1, 3); j > 0; j--) { int at = g.below((int)s.size() + 1), q = g.below(3); if(q == 0 && at < (int)s.size()) s.erase(at, 1); else { char ch = g.chance(60) ? "0123456789-: .T"[g.below(15)] : (char)g.range(1, 255); if(q == 1 && at < (int)s.size()) s[at] = ch; else s.insert(at, 1, ch); } } }
    else if(k == 8) { s.clear(); for(int j = g.below(40); j > 0; j--) s += (char)g.range(1, 255); }
    r.refarg = s; r.clock = false; r.ticks.clear(); r.family = "command-line";
}
static World total(World w) {
    Ctx c(w.seed * 1000003ull + (uint64_t)w.run * 2654435761ull + 1515);
    Rng &g = c.g;
    int n = g.range(1, 2);
    for(int k = 0; k < n; k++) {
        Proc p;
        int m = g.range(20, 60);
        for(int i = 0; i < m; i++) {
            Req r;
            if(g.chance(45)) {
                Instant e = g.chance(50) ? inst(1400, 1, 1) : inst(9999, 12, 31, 23, 59, 59);
                if(g.chance(60)) { e.day += (e.day < 0 ? 1 : -1) * (g.chance(50) ? g.below(10) : g.below(800)); e.sec = g.below(86400); }
                r.ref = e;
            } else if(g.chance(20)) next_ref(c, r);
            else r.ref = some_instant(g);
            int q = g.below(100), pos;
            // phrases of an ordinary day, asked at every instant
            Phrase ph = any_phrase(g, r.ref.date().y < 1405 || r.ref.date().y > 9985 ? inst(2019, 6, 15, 12) : r.ref);
            r.kind = any_kind(g, 8);
            if(q < 25) { r.text = decorate(g, ph, pos); r.kind = kind_for(g, ph, 10); r.family = ph.family; }
            else if(q < 50) { r.text = mutate(g, decorate(g, ph, pos)); r.kind = kind_for(g, ph, 10); r.family = "mutated"; }
            else if(q < 60) { r.text = stress(g); r.family = "stress"; }
            else if(q < 68) { // several phrases for the refiners to join, with and without zones
                static const Strs join = {" to ", " and ", " - ", " at ", ", ", " ", " through ", "-", " on ", "T"};
                static const Strs zone = {"pst", "jst", "wat", "est", "utc", "gmt", "nzdt", "hst", "chast", "line"};
                Gen gs[] = {g_casual, g_times, g_times, g_months, g_absolute, g_zoned, g_combo, g_weekday, g_durations};
                for(int j = g.range(2, 3); j > 0; j--) {
                    r.text += gs[g.below(9)](g, g.chance(50) ? r.ref : inst(2019, 6, 15, 12)).text;
                    if(g.chance(30)) r.text += " " + g.pick(zone);
                    if(j > 1) r.text += g.pick(join);
                }
                r.kind = g.chance(70) ? K_SHORT : K_CHAIN; r.family = "joined";
            }
            else if(q < 80) { r.text = soup(g, g.chance(85) ? g.range(1, 10) : g.range(20, 80)); r.family = "soup"; }
            else if(q < 84) { std::string u = soup(g, g.range(1, 3)) + (g.chance(50) ? " " : ""); while(r.text.size() < 490) r.text += u; r.family = "repeated"; }
            else if(q < 88) { r.text = std::string(g.below(500), g.pick(std::vector<char>{' ', '1', 'a', '-', '\t', '.'})) + ph.text; r.family = "run"; }
            else if(q < 92) { for(int j = g.below(500); j > 0; j--) r.text += (char)g.below(256); r.family = "bytes"; }
            else if(q < 96) { r.text = ph.text; for(int j = g.range(1, 4); j > 0 && !r.text.empty(); j--) r.text[g.below((int)r.text.size())] = (char)g.below(256); r.family = "bytes"; }
            else { // numbers too large for the phrase
                static const Strs f = {"in %s days", "%s weeks ago", "next %s weeks", "last %s years", "%s months from now", "in %s hours", "%s seconds ago", "next %s minutes", "july %s", "may %s, %s",
                    "9999-12-31 at %s", "9999-12-31 %s pm to 1am", "tomorrow at %s pst", "%s pm jst", "1400-01-01 at %s am", "today at %s - 2am", "december 31 9999 %s:00 to 24:00", "last night at %s", "yesterday 24:%s",
                    "at %s", "%s pm", "%s:%s", "%s-%s-%s", "from %s to %s", "%s days %s hours ago", "in %s years", "%s years later", "past %s days"};
                std::string t = g.pick(f); size_t at;
                while((at = t.find("%s")) != std::string::npos) t.replace(at, 2, some_number(g));
                r.text = t; r.family = "numbers"; if(g.chance(70)) { static const int ks[] = {P_DL, P_TA, P_WX, P_RD, P_TL, P_MME, P_TX, P_ISO}; r.kind = ks[g.below(8)]; }
            }
            if(r.text.size() > 500) r.text.resize(500);
            r.fresh = g.chance(40); r.slot = g.below(2); r.oracle = O_TOTAL;
            p.reqs.push_back(r);
        }
        w.procs.push_back(p);
        int np = g.range(0, 2);
        for(int i = 0; i < np; i++) {
            Proc q; Req r = g.pick(p.reqs); r.prog = true; r.kind = K_CHAIN;
            for(auto &ch : r.text) if(!ch) ch = ' ';
            if(g.chance(30)) command_line(g, r);
            q.reqs.push_back(r); w.procs.push_back(q);
        }
    }
    return w;
}

// ------------------------------------------------------------------ C16
static World several(World w) {
    Ctx c(w.seed * 1000003ull + (uint64_t)w.run * 2654435761ull + 1616);
    Rng &g = c.g;
    c.zone = g.below((int)zones().size());
    c.epoch = epoch_at(zones()[c.zone], inst(g.range(1971, 2090), g.range(1, 12), g.range(1, 28), g.below(24)));
    static const Gen gens[] = {g_casual, g_durations, g_units, g_weekday, g_holiday, g_months, g_times, g_absolute};
    Proc p;
    int m = g.range(20, 80);
    for(int i = 0; i < m; i++) {
        Req r; next_ref(c, r);
        Gen gen = gens[g.below(8)];
        Phrase first = gen(g, r.ref);
        int n = g.chance(10) ? 0 : g.range(1, 8);
        std::string s;
        if(n == 0 || g.chance(60)) s = noise(g, g.range(1, 4));
        for(int j = 0; j < n; j++) {
            Phrase q = first;
            if(j) do q = gen(g, r.ref); while(q.parser != first.parser || (q.alts.size() == 1 && q.alts[0] == "none" && g.chance(80)));
            if(!s.empty()) s += " ";
            Item it; it.pos = (int)s.size(); it.alts = q.alts;
            s += q.nocase ? vary_case(g, q.text) : q.text;
            if(!(q.alts.size() == 1 && q.alts[0] == "none")) r.items.push_back(it);
            if(j + 1 < n || g.chance(50)) { if(g.chance(25)) s += g.pick(Strs{",", ".", ";", "!"}); s += " " + noise(g, g.range(1, 4)); }
        }
        if(r.items.empty()) { Item it; it.alts = {"none"}; r.items.push_back(it); }
        if(s.size() > 600) continue;
        r.text = s; r.kind = first.parser; r.fresh = g.chance(40); r.slot = g.below(3);
        r.family = "several-" + std::string(parser_names[first.parser]); r.oracle = O_EXPECT;
        p.reqs.push_back(r);
    }
    w.procs.push_back(p);
    return w;
}

// ------------------------------------------------------------------ C02
static World threads(World w) {
    Ctx c(w.seed * 1000003ull + (uint64_t)w.run * 2654435761ull + 202);
    Rng &g = c.g;
    c.clocked = false;
    Proc p;
    p.threads = g.chance(60) ? 2 : g.range(3, 4);
    p.schedseed = g.next() >> 1;
    static const int means[] = {3, 20, 100, 500, 2000, 10000, 50000, 300000};
    p.mode = g.below(6);                    // 4: at synchronisation, 5: lock holders wait
    p.mean = p.mode == 3 ? means[g.below(4)] : means[g.range(2, 7)];
    // a small pool of texts and of instants: threads take the same paths, or hit what others remembered
    int chain = g.chance(4) ? K_CHAIN : g.chance(12) ? K_SHORT : 0;         // chains of parsers and refiners
    bool same = g.chance(60);               // all threads use the same parser
    int objects = g.below(3);               // 0 one shared by all, 1 each request its own, 2 each thread its own
    int warm = g.chance(45) ? g.range(1, 2) : 0;
    int ntext = g.chance(50) ? 1 : g.range(2, 3), nref = g.chance(30) ? 1 : g.range(2, 3);
    std::vector<Instant> refs;
    for(int i = 0; i < nref; i++) { Req r; next_ref(c, r); refs.push_back(r.ref); }
    std::vector<Phrase> texts;
    int want = same ? g.below(P_COUNT) : -1;
    for(int i = 0; i < ntext; i++) {
        Phrase ph; int pos;
        if(chain && g.chance(60)) { ph = g.chance(60) ? g_zoned(g, g.pick(refs)) : g_combo(g, g.pick(refs)); want = -2; }
        else for(int k = 0; k < 300; k++) { ph = any_phrase(g, g.pick(refs)); if(ph.parser >= 0 && (want < 0 || ph.parser == want)) break; }
        if(ph.parser < 0) ph.parser = P_TX;
        int q = g.below(100);
        if(q < 60) { }
        else if(q < 75) ph.text = decorate(g, ph, pos);
        else if(q < 85) { ph.text = mutate(g, ph.text); ph.family = "mutated"; }
        else if(q < 90) { ph.text = any_text(g, g.pick(refs)); ph.family = "text"; }
        else if(q < 95) { ph.text = ph.text + " " + noise(g, 1) + " " + decorate(g, any_phrase(g, g.pick(refs)), pos); ph.family = "two"; }
        else { ph.text = "in " + some_number(g) + " days, " + some_number(g) + " weeks ago, " + g.pick(vocab()) + " " + some_number(g); ph.family = "numbers"; }
        if(ph.text.size() > 200) ph.text.resize(200);
        texts.push_back(ph);
    }
    bool fails = g.chance(15);
    auto mk = [&](int th) {
        Req r; const Phrase &ph = g.pick(texts);
        r.ref = g.pick(refs);
        r.kind = chain && (th < 2 || g.chance(30)) ? chain : ph.parser; r.text = ph.text; r.family = ph.family;
        if(g.chance(6)) r.kind = g.below(P_COUNT);
        r.oracle = O_DIFF; r.fresh = objects == 1; r.slot = objects == 0 ? 0 : 1 + th; r.th = th;
        if(th >= 0 && fails && g.chance(40)) oom(g, r, g.chance(50) ? 60 : g.chance(50) ? 3000 : 100000);
        return r;
    };
    for(int i = 0; i < warm; i++) { Req r = mk(0); r.th = -1; p.reqs.push_back(r); }
    for(int t = 0; t < p.threads; t++) { int n = chain == K_CHAIN ? g.range(1, 2) : g.range(1, 4); for(int i = 0; i < n; i++) p.reqs.push_back(mk(t)); }
    w.procs.push_back(p);
    return w;
}

struct PropDef { const char *id; World (*make)(World); Gen gen; int n; };
static World mk_semantic(World w, const PropDef &d) { return semantic(w, d.gen, d.n); }
static const PropDef defs[] = {
    {"C01", history, nullptr, 0}, {"C02", threads, nullptr, 0}, {"C03", memory, nullptr, 0}, {"C04", clockrun, nullptr, 0}, {"C05", leftovers, nullptr, 0},
    {"C06", nullptr, g_casual, 150}, {"C07", nullptr, g_durations, 150}, {"C08", nullptr, g_units, 150}, {"C09", nullptr, g_weekday, 150},
    {"C10", nullptr, g_holiday, 150}, {"C11", nullptr, g_months, 40}, {"C12", nullptr, g_times, 120}, {"C13", nullptr, g_absolute, 80},
    {"C14", nullptr, g_combo, 12}, {"C15", total, nullptr, 0}, {"C16", several, nullptr, 0}, {"C17", host_state, nullptr, 0},
};
bool known_prop(const std::string &p) { for(auto &d : defs) if(p == d.id) return true; return false; }
World make_world(const std::string &prop, uint64_t seed, long run) {
    World w; w.prop = prop; w.seed = seed; w.run = run;
    for(auto &d : defs) if(prop == d.id) return d.make ? d.make(w) : mk_semantic(w, d);
    return w;
}
