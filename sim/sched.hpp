// Deterministic scheduler for the instrumented binary (sched.cpp); sched_none.cpp elsewhere.
#pragma once
#include "world.hpp"
// what one request does to others' memory and in which order it locks: main.cpp puts such requests together
struct Hint { int kind; uint64_t a, b; int req; };    // 0: takes lock b while it has lock a; 1: writes memory that others may use
struct SchedConf {
    int threads = 0; uint64_t seed = 0; int mean = 0, mode = 0; bool fixed = false;
    const Switch *sched = nullptr; int nsched = 0;
    Switch *out = nullptr; int maxout = 0; int *nout = nullptr;
    uint64_t steps = 0, checks = 0, hash = 0, max_steps = 0; long blocked = 0;
    const void *own = nullptr; size_t own_n = 0;   // where the simulator takes the answers
    Hint *hints = nullptr; int maxhints = 0; int *nhints = nullptr;
    void (*race)(const char *) = nullptr;    // does not return
    void (*stuck)(const char *) = nullptr;   // does not return
};
bool sched_available();
void sched_threads(SchedConf &c, void (*fn)(int));
void sched_request(int thread, int req);     // this thread starts to serve a request
int  sched_current_request();
void sched_pause();                          // no switches and no checks in simulator code
void sched_resume();
