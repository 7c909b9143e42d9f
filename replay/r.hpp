// Search for a concrete failure on the real code against an independent oracle.  prog <seconds> <seed>
#pragma once
#include "r_.hpp"
void one();        // one test case; uses rng
int main(int argc, char **argv) {
    double secs = argc > 1 ? atof(argv[1]) : 10; rng.seed((argc > 2 ? strtoull(argv[2], nullptr, 10) : 1) * 7919 + 3);
    for (int s : {SIGABRT, SIGILL, SIGSEGV, SIGFPE, SIGBUS, SIGALRM, SIGTRAP}) signal(s, onsig);
    auto t0 = std::chrono::steady_clock::now(); uint64_t n = 0;
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) { alarm(10); try { one(); } catch (const std::exception &e) { fail("unexpected exception: %s", e.what()); } ++n; }
    printf("OK %lu cases\n", (unsigned long) n); return 0;
}
