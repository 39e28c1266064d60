// Worlds as text: the replay file.
#include "world.hpp"
#include <sstream>
#include <cstring>

static std::string enc(const std::string &s) {
    std::string r; char b[8];
    for(unsigned char c : s) if(isalnum(c) || strchr("-_.:,'()/", c)) r += (char)c; else { snprintf(b, sizeof b, "%%%02x", c); r += b; }
    return r.empty() ? "%" : r;
}
static std::string dec(const std::string &s) {
    std::string r;
    if(s == "%") return r;
    for(size_t i = 0; i < s.size(); i++)
        if(s[i] == '%' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else r += s[i];
    return r;
}
std::string save(const World &w) {
    std::ostringstream o;
    o << "chrono-sim-trace 1\nproperty " << w.prop << "\nseed " << w.seed << " run " << w.run << "\n";
    for(auto &p : w.procs) {
        o << "process";
        if(p.layout) o << " layout=" << p.layout;
        if(p.threads) {
            o << " threads=" << p.threads << " schedseed=" << p.schedseed << " mean=" << p.mean << " mode=" << p.mode << " fixed=" << p.fixed;
            if(p.fixed) { o << " switches="; for(size_t i = 0; i < p.sched.size(); i++) o << (i ? "," : "") << p.sched[i].step << ":" << p.sched[i].to; if(p.sched.empty()) o << "-"; }
        }
        o << "\n";
        for(auto &r : p.reqs) {
            o << "  request by=" << (r.prog ? "program" : r.kind == K_CHAIN ? "chain" : r.kind == K_SHORT ? "short-chain" : parser_names[r.kind]);
            if(r.fresh) o << " objects=new"; else o << " objects=" << r.slot;
            if(r.clock) {
                o << " clock=" << r.epoch << " zone=" << r.zone << " ticks=";
                for(size_t i = 0; i < r.ticks.size(); i++) o << (i ? "," : "") << r.ticks[i];
                if(r.ticks.empty()) o << "-";
                if(r.frac) o << " frac=" << r.frac;
            }
            o << " day=" << r.ref.day << " sec=" << r.ref.sec << " local=" << enc(show(r.ref));
            if(r.oom >= 0) o << " failalloc=" << r.oom << (r.forever ? "+" : "");
            if(r.fill_a >= 0) o << " fill=" << r.fill_a << "," << r.fill_f;
            if(r.stack >= 0) o << " stack=" << r.stack;
            if(r.amb[0] || r.amb[1] || r.amb[2] || r.amb[3]) o << " host=" << r.amb[0] << "," << r.amb[1] << "," << r.amb[2] << "," << r.amb[3];
            if(r.nargs >= 0) o << " args=" << r.nargs << " refarg=" << (r.refarg.empty() ? "-" : "=" + enc(r.refarg));
            if(r.leak) o << " leak=1";
            if(p.threads) o << " thread=" << r.th;
            o << " family=" << r.family << " oracle=" << oracle_names[r.oracle] << " text=" << enc(r.text);
            for(auto &i : r.items) { o << " item=" << i.pos; for(auto &a : i.alts) o << "|" << enc(a); }
            o << "\n";
        }
    }
    return o.str();
}
bool load(const std::string &text, World &w, std::string &err) {
    std::istringstream in(text); std::string line;
    w = World();
    if(!std::getline(in, line) || line != "chrono-sim-trace 1") { err = "not a trace"; return false; }
    while(std::getline(in, line)) {
        std::istringstream l(line); std::string word; l >> word;
        if(word.empty() || word[0] == '#') continue;
        if(word == "property") l >> w.prop;
        else if(word == "seed") { std::string x; l >> w.seed >> x >> w.run; }
        else if(word == "process") {
            w.procs.push_back(Proc()); Proc &p = w.procs.back();
            while(l >> word) {
                size_t e = word.find('='); std::string k = word.substr(0, e), v = word.substr(e + 1);
                if(k == "layout") p.layout = atoi(v.c_str());
                else if(k == "threads") p.threads = atoi(v.c_str());
                else if(k == "schedseed") p.schedseed = strtoull(v.c_str(), nullptr, 10);
                else if(k == "mean") p.mean = atoi(v.c_str());
                else if(k == "mode") p.mode = atoi(v.c_str());
                else if(k == "fixed") p.fixed = v == "1";
                else if(k == "switches" && v != "-") {
                    std::istringstream s(v); std::string x;
                    while(std::getline(s, x, ',')) { Switch q; q.step = strtoull(x.c_str(), nullptr, 10); q.to = atoi(x.substr(x.find(':') + 1).c_str()); p.sched.push_back(q); }
                }
            }
        }
        else if(word == "request") {
            if(w.procs.empty()) { err = "request outside of a process"; return false; }
            Req r;
            while(l >> word) {
                size_t e = word.find('='); if(e == std::string::npos) { err = "bad word " + word; return false; }
                std::string k = word.substr(0, e), v = word.substr(e + 1);
                if(k == "by") { r.prog = v == "program"; r.kind = v == "short-chain" ? K_SHORT : K_CHAIN; for(int i = 0; i < P_COUNT; i++) if(v == parser_names[i]) r.kind = i; }
                else if(k == "objects") { r.fresh = v == "new"; if(!r.fresh) r.slot = atoi(v.c_str()); }
                else if(k == "clock") { r.clock = true; r.epoch = atoll(v.c_str()); }
                else if(k == "zone") r.zone = atoi(v.c_str());
                else if(k == "frac") r.frac = atoll(v.c_str());
                else if(k == "ticks") { if(v != "-") { std::istringstream s(v); std::string x; while(std::getline(s, x, ',')) r.ticks.push_back(atoll(x.c_str())); } }
                else if(k == "day") r.ref.day = atoll(v.c_str());
                else if(k == "sec") r.ref.sec = atoi(v.c_str());
                else if(k == "failalloc") { r.oom = atol(v.c_str()); r.forever = v.back() == '+'; }
                else if(k == "fill") { r.fill_a = atoi(v.c_str()); r.fill_f = atoi(v.substr(v.find(',') + 1).c_str()); }
                else if(k == "stack") r.stack = atoi(v.c_str());
                else if(k == "host") sscanf(v.c_str(), "%d,%d,%d,%d", &r.amb[0], &r.amb[1], &r.amb[2], &r.amb[3]);
                else if(k == "args") r.nargs = atoi(v.c_str());
                else if(k == "refarg") r.refarg = v[0] == '=' ? dec(v.substr(1)) : "";
                else if(k == "leak") r.leak = true;
                else if(k == "thread") r.th = atoi(v.c_str());
                else if(k == "family") r.family = v;
                else if(k == "oracle") { for(int i = 0; i < 5; i++) if(v == oracle_names[i]) r.oracle = i; }
                else if(k == "text") r.text = dec(v);
                else if(k == "item") {
                    Item it; std::istringstream s(v); std::string x; bool first = true;
                    while(std::getline(s, x, '|')) { if(first) it.pos = atoi(x.c_str()); else it.alts.push_back(dec(x)); first = false; }
                    r.items.push_back(it);
                }
            }
            w.procs.back().reqs.push_back(r);
        }
        else { err = "bad line " + line; return false; }
    }
    return true;
}
