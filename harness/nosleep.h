// Sleeping costs nothing in the sequential harnesses: the retry pauses of the library return at once.
#pragma once
#include <ctime>
static int mc_sleeps;
extern "C" int nanosleep(const struct timespec*, struct timespec*) { mc_sleeps++; return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { mc_sleeps++; return 0; }
