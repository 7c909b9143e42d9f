// Executable meaning of the specification primitives: a harness root is run against the real code, natively, on the
// inputs of the verifier's counterexample first and then on generated ones.  Exit 1 + "FAIL ..." on a violated
// assertion, M_insist, sanitizer trap, crash or hang; exit 0 otherwise.
//   prog <root|-> <seconds> <seed> [name=value ...]
#include "v.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <string>
#include <map>
#include <vector>
#include <random>
#include <chrono>
#include <unistd.h>
#include <dlfcn.h>

namespace {
struct Reject { };
std::map<std::string, uint64_t> hints;
std::vector<std::pair<std::string, uint64_t>> cur;
std::mt19937_64 rng;
int mode = 0;
uint64_t ntried = 0, naccepted = 0;
const char *root = "";
uint64_t pick(unsigned bits) {
    uint64_t m = bits == 64 ? ~0UL : (1UL << bits) - 1, r = rng();
    switch (r % 16) {
        case 0: return 0;
        case 1: return 1;
        case 2: return m;
        case 3: return (rng() % 8) & m;
        case 4: return (rng() % 64) & m;
        case 5: return (rng() & rng() & rng()) & m;
        case 6: return (rng() | rng() | rng()) & m;
        case 7: return (1UL << (rng() % bits)) & m;
        case 8: return ((1UL << (rng() % bits)) - 1) & m;
        case 9: return (0UL - (1 + rng() % 4)) & m;
        case 10: return (rng() >> (rng() % 64)) & m;
        case 11: return (rng() & 0xff) & m;
        case 12: return ((1UL << (bits - 1)) + rng() % 3 - 1) & m;
        case 13: case 14: if (not cur.empty()) { // related to an earlier input
            uint64_t p = cur[rng() % cur.size()].second;
            switch (rng() % 8) { case 0: return p & m; case 1: return (p & rng()) & m; case 2: return (p | rng()) & m; case 3: return ~p & m;
                case 4: return (p + 1) & m; case 5: return (p - 1) & m; case 6: return (p & -p) & m; default: return (~p & rng()) & m; }
        } [[fallthrough]];
        default: return rng() & m;
    }
}
uint64_t input(const char *n, unsigned bits) {
    uint64_t m = bits == 64 ? ~0UL : (1UL << bits) - 1, v;
    if (*n != '*') for (auto &p : cur) if (p.first == n) return p.second & m;
    auto it = hints.find(n);
    if (mode == 0 and it != hints.end()) v = it->second & m;
    else if (mode == 1 and it != hints.end() and rng() % 4) v = it->second & m;
    else v = pick(bits);
    cur.emplace_back(n, v); return v;
}
std::map<std::string, int> names;
const char * keep(const std::string &s) { return names.emplace(s, 0).first->first.c_str(); }
void report(const char *what) {
    char buf[8192]; int k = snprintf(buf, sizeof buf, "FAIL root=%s: %s; inputs:", root, what);
    for (auto &p : cur) if (k < 8000) k += snprintf(buf + k, sizeof buf - k, " %s=%lu", p.first.c_str(), (unsigned long) p.second);
    k += snprintf(buf + k, sizeof buf - k, "\n");
    (void) !write(1, buf, k); _exit(1);
}
void onsig(int s) { report(s == SIGABRT ? "aborted (M_insist / terminate)" : s == SIGALRM ? "does not terminate" : s == SIGILL ? "undefined behaviour trap" : s == SIGSEGV ? "segmentation fault" : "fatal signal"); }
}
extern "C" {
void __v_assume(bool c) { if (not c) throw Reject(); }
void __v_require(bool c, const char *m) { if (not c) report(m); }
void __v_assert(bool c, const char *m) { if (not c) report(m); }
void __v_cover(const char *) { }
uint64_t __v_input_u64(const char *n) { return input(n, 64); }
uint32_t __v_input_u32(const char *n) { return input(n, 32); }
uint16_t __v_input_u16(const char *n) { return input(n, 16); }
uint8_t __v_input_u8(const char *n) { return input(n, 8); }
bool __v_input_bool(const char *n) { return input(n, 1); }
uint64_t __v_nondet_u64() { return input("*", 64); }
uint32_t __v_nondet_u32() { return input("*", 32); }
uint8_t __v_nondet_u8() { return input("*", 8); }
bool __v_nondet_bool() { return input("*", 1); }
void __v_name(uint64_t, const char *) { }
void __v_input_array(void *p, uint64_t n, uint64_t es, const char *nm) {
    bool sparse = rng() & 1; uint64_t prev = 0;
    for (uint64_t i = 0; i != n; ++i) {
        std::string k = std::string(nm) + "[" + std::to_string(i) + "]"; auto it = hints.find(k);
        uint64_t v = mode == 0 and it != hints.end() ? it->second : sparse ? pick(es * 8) & rng() : pick(es * 8); (void) prev;
        memcpy((char*) p + i * es, &v, es); if (n <= 16) cur.emplace_back(keep(k), v);
    }
}
void *__v_heap(uint64_t n, uint64_t) { auto p = (uint8_t*) malloc(n ? n : 1); for (uint64_t i = 0; i != n; ++i) p[i] = rng(); return p; }
void __v_havoc(void *p, uint64_t n, uint64_t) { for (uint64_t i = 0; i != n; ++i) ((uint8_t*) p)[i] = rng(); }
}
int main(int argc, char **argv) {
    if (argc < 4) return 2;
    root = argv[1]; double secs = atof(argv[2]); rng.seed(strtoull(argv[3], nullptr, 10) * 7919 + 17);
    for (int i = 4; i < argc; ++i) { char *e = strchr(argv[i], '='); if (e) hints[std::string(argv[i], e - argv[i])] = strtoull(e + 1, nullptr, 10); }
    auto f = (void(*)()) dlsym(nullptr, root);
    if (not f) { fprintf(stderr, "no root %s\n", root); return 2; }
    for (int s : {SIGABRT, SIGILL, SIGSEGV, SIGFPE, SIGBUS, SIGALRM, SIGTRAP}) signal(s, onsig);
    auto t0 = std::chrono::steady_clock::now();
    while (true) {
        if (ntried % 64 == 0) { alarm(5); if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break; }
        mode = ntried == 0 ? 0 : (not hints.empty() and ntried % 3 == 0) ? 1 : 2; ++ntried; cur.clear();
        try { f(); ++naccepted; } catch (Reject) { } catch (...) { report("unexpected exception"); }
    }
    printf("OK root=%s tried=%lu accepted=%lu\n", root, (unsigned long) ntried, (unsigned long) naccepted); return 0;
}
