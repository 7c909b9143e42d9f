// Search for a concrete failure on the real code against an independent oracle.  prog <seconds> <seed>
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <csignal>
#include <cstdarg>
#include <string>
#include <random>
#include <chrono>
#include <functional>
#include <set>
#include <map>
#include <vector>
#include <algorithm>
#include <unistd.h>
#include <cstring>
static std::mt19937_64 rng;
static std::string cur_case;
[[noreturn]] static void fail(const char *fmt, ...) {
    char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    printf("FAIL %s; case: %s\n", b, cur_case.c_str()); fflush(stdout); _exit(1);
}
static void onsig(int s) { const char *m = s == SIGABRT ? "FAIL aborted (M_insist / terminate); case: " : s == SIGALRM ? "FAIL does not terminate; case: " : s == SIGILL ? "FAIL undefined behaviour trap; case: " : "FAIL fatal signal; case: ";
    (void) !write(1, m, strlen(m)); (void) !write(1, cur_case.data(), cur_case.size()); (void) !write(1, "\n", 1); _exit(1); }
static std::string F(const char *fmt, ...) { char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
static void case_(unsigned seed_budget = 10) { alarm(seed_budget); }
static uint64_t rnd(uint64_t n) { return n ? rng() % n : 0; }
