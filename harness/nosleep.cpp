// Back-off sleeps of the code under test end at once; they change no outcome.
#include <sched.h>
#include <time.h>
extern "C" {
int nanosleep(const struct timespec*, struct timespec*) { sched_yield(); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { sched_yield(); return 0; }
}
