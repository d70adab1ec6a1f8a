/* a clock and a sleep under the driver's control (linked with --wrap=time,--wrap=usleep) */
#ifndef VERIF_CLOCK_H
#define VERIF_CLOCK_H
#include <time.h>
static long fake_now = -1, fake_sleeps = 0;
time_t __real_time(time_t *t);
int __real_usleep(unsigned us);
time_t __wrap_time(time_t *t) { time_t n = fake_now >= 0 ? (time_t) fake_now : __real_time(NULL); if (t) *t = n; return n; }
int __wrap_usleep(unsigned us) { if (fake_now >= 0) { fake_sleeps++; return 0; } return __real_usleep(us); }
#endif
