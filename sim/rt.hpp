// Simulator runtime: simulated clock, simulated heap with fault injection and fills.
#pragma once
#include <cstdint>
#include <cstddef>

struct RtState {
    // clock
    bool clock_on = false;
    int64_t now_s = 0; int64_t now_ns = 0;
    int nticks = 0; int tick_pos = 0;
    int64_t ticks_ns[8];        // what the clock moves by after reading number i
    int reads = 0;
    int64_t read_s[8];          // what the first readings returned
    // heap
    bool in_sut = false;
    long seq = 0;               // allocations of this request so far
    long oom_at = -1;           // number of the allocation that fails
    bool oom_forever = false;   // and all after it
    bool armed = false;
    int oom_fired = 0;
    long budget = 0;            // allocations allowed per request
    long live = 0;              // live blocks of the simulated heap
    bool fill_on = false;
    uint32_t fill_alloc = 0, fill_free = 0;   // 0..255 a byte, 256.. a seeded pseudo-random stream
    int layout = 0;             // where fresh blocks lie: 0 upwards, 1 downwards, else shuffled by this seed
    long corrupt = 0;           // damaged or doubly freed blocks seen
    uint64_t filled_bytes = 0;
};
extern RtState rt;

void rt_init();                         // reserves the simulated heap
void rt_request_begin();                // resets the counters of one request
void rt_set_clock(int64_t s, int64_t ns, const int64_t *ticks, int n);
void rt_poison_stack(uint32_t pattern, size_t bytes);
[[noreturn]] void rt_budget_exceeded();
void rt_each_block(void (*f)(void *, size_t));   // live blocks (layout 0)
extern void (*rt_on_free)(void *, size_t);   // scheduler: forget what is known of this memory
