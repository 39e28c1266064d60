#include "sched.hpp"
#include <cstdlib>
bool sched_available() { return false; }
void sched_threads(SchedConf &, void (*)(int)) { abort(); }
void sched_request(int, int) {}
int sched_current_request() { return -1; }
void sched_pause() {}
void sched_resume() {}
