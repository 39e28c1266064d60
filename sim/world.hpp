// A run of the simulator: processes that serve requests under a simulated clock, heap and scheduler.
#pragma once
#include "gen.hpp"
#include <map>

enum Oracle { O_NONE, O_EXPECT, O_DIFF, O_TOTAL, O_INSTANT };
extern const char *const oracle_names[5];
enum { K_CHAIN = 100, K_SHORT = 101 };     // the chain of the program; a short one: casual dates, clock times and the refiners

struct Item { int pos = -1; std::vector<std::string> alts; };   // one expected result; pos -1: anywhere

struct Req {
    bool prog = false;                 // the program, else the library
    int kind = K_CHAIN;                // a parser or the chain
    bool fresh = true; int slot = 0;
    bool clock = false;                // the reference is read from the simulated clock
    Instant ref;                       // explicit reference, or the local time of the clock
    int zone = 0; int64_t epoch = 0, frac = 0; std::vector<int64_t> ticks;
    long oom = -1; bool forever = false;
    int fill_a = -1, fill_f = -1, stack = -1;
    int amb[4] = {0, 0, 0, 0};         // state of the host program: locale, errno, rounding, standard streams
    int nargs = -1; std::string refarg;   // the program: number of arguments, and the text of the second
    bool leak = false;                 // live memory must be what it was after the previous such request
    int oracle = O_NONE;
    std::vector<Item> items;           // O_EXPECT
    std::string family = "-";
    std::string text;
    int th = 0;                        // thread
    std::string base;                  // O_DIFF: answer of the request alone (computed, not in the trace)
    long nallocs = 0;                  // allocations of the request alone (computed)
};

struct Switch { uint64_t step; int to; };
struct Proc {
    std::vector<Req> reqs;
    int layout = 0;                    // where the heap places its blocks
    int threads = 0;                   // 0: no scheduler
    uint64_t schedseed = 0; int mean = 0, mode = 0;
    bool fixed = false;                // follow sched instead of the seeded scheduler
    std::vector<Switch> sched;
};
struct World {
    std::string prop = "C00"; uint64_t seed = 0; long run = 0;
    std::vector<Proc> procs;
};

struct Violation { std::string kind, msg; int proc = -1, req = -1; };
struct RunStats {
    uint64_t digest = 1469598103934665603ull;
    long requests = 0, asserted = 0, procs = 0, solo = 0;
    long f_oom = 0, f_oom_prog = 0, f_tick = 0, f_jump_back = 0, f_jump = 0, f_restart = 0, f_fill = 0, f_stack = 0, f_layout = 0, f_amb[4] = {0, 0, 0, 0}, f_kill = 0;
    long steps = 0, switches = 0, clockreads = 0, race_checks = 0, blocked = 0;
    double simtime = 0, reftime = 0;
    std::map<std::string, long> families;
    struct Hint { int kind; uint64_t a, b; int proc, req; };
    std::vector<Hint> hints;
    std::vector<uint64_t> situations, requests_h, inter;
};

std::string save(const World &w);
bool load(const std::string &text, World &w, std::string &err);
// runs the world; true when a property was violated
bool run_world(World &w, Violation &v, RunStats &st);
World make_world(const std::string &prop, uint64_t seed, long run);
bool known_prop(const std::string &prop);
