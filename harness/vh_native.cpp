// Native side of the contract layer: replays one counterexample (the sequence of arbitrary
// values) on the real code, compiled with sanitizers; or, once the verifier has refused an
// obligation (-DVH_SEARCH), looks for concrete values that show the failure on the real code.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csignal>
#include <csetjmp>
#include <exception>
#include <vector>
#include <time.h>
#include <unistd.h>
static FILE* f;
static uint32_t allowed;
extern "C" void VH_ENTRY(void);
#ifdef VH_SEARCH
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static sigjmp_buf again;
static std::vector<unsigned long long> vals;
static std::vector<void*> blocks;
static const char* outfile;
static uint64_t rs;
static unsigned mode;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull; }
static void report()
{
    FILE* o = fopen(outfile, "w"); if(!o) _exit(79);
    for(auto v : vals) fprintf(o, "%llu\n", v);
    fclose(o); _exit(1);
}
static uint64_t nxt(int bits)
{
    static const unsigned char B[] = { 0, 1, 2, 3, 4, 'a', 'b', 'z', 'A', 'F', '0', '1', '9', '-', ' ', '.', 127, 128, 255, 254 };
    uint64_t r = rnd() >> 8, v;
    unsigned m = mode == 3 ? unsigned(rnd() >> 33) % 3 : mode;
    if(m == 0) v = r % 6;
    else if(m == 1) switch(rnd() >> 40 & 7)
    {
        case 0: v = ~0ull - r % 3; break;
        case 1: v = (1ull << (bits - 1)) - 1 + r % 3; break;
        case 2: v = r; break;
        default: v = B[r % sizeof B]; break;
    }
    else v = bits == 64 ? (r & 1 ? r % 12 : rnd()) : r;
    if(bits < 64) v &= (1ull << bits) - 1;
    vals.push_back(v); return v;
}
static uint64_t nx(const char* w) { return nxt(atoi(w)); }
static void leave(int rc) { if(rc == 1) report(); siglongjmp(again, 1); }
#else
static uint64_t nx(const char*)
{
    unsigned long long v;
    if(!f || fscanf(f, "%llu", &v) != 1) return 0;
    return v;
}
static void leave(int rc) { _exit(rc); }
#endif
extern "C" {
uint8_t __vh_nd8(void) { return (uint8_t)nx("8"); }
uint16_t __vh_nd16(void) { return (uint16_t)nx("16"); }
uint32_t __vh_nd32(void) { return (uint32_t)nx("32"); }
uint64_t __vh_nd64(void) { return nx("64"); }
void __vh_assume(bool b) { if(!b) { if(f) fprintf(stderr, "replay: precondition not met\n"); leave(77); } }
void __vh_assert(bool b, const char* l) { if(!b) { fprintf(stderr, "replay: FAILED %s\n", l); leave(1); } }
void __vh_reach(const char*) {}
void __vh_unroll(void) {}
void __vh_allow(uint32_t m) { allowed = m; }
void* __vh_fresh(uint64_t n)
{
    if(n > (1u << 28)) leave(78);
    void* p = malloc(n ? n : 1);
#ifdef VH_SEARCH
    blocks.push_back(p);
#endif
    return p;
}
void __vh_writable(void*, uint64_t) {}
bool __vh_same(const void*, const void*) { return true; }
int64_t __vh_diff(const void* a, const void* b) { return (const char*)a - (const char*)b; }
void __vh_declare_equal(const void* a, const void* b, uint64_t n) { if(memcmp(a, b, n)) leave(77); }
void __vh_ghost_index(uint64_t) {}
}
static void onabort(int) { if(allowed & 4) leave(0); fprintf(stderr, "replay: FAILED abort\n"); leave(1); }
static void run()
{
    try { VH_ENTRY(); }
    catch(...) { if(allowed & 2) return; fprintf(stderr, "replay: FAILED exception escaped\n"); leave(1); }
}
#ifdef VH_SEARCH
int main(int argc, char** argv)
{
    outfile = argv[1]; const int seconds = atoi(argv[2]);
    signal(SIGABRT, onabort);
    __sanitizer_set_death_callback(report);
    freopen("/dev/null", "w", stdout);
    static volatile uint64_t n; n = 0; const time_t t0 = time(0);
    alarm(seconds + 5);
    while((n & 63) || time(0) - t0 < seconds)
    {
        ++n; rs = 0x9E3779B97F4A7C15ull * n + 88172645463325252ull; mode = n & 3; vals.clear(); allowed = 0;
        for(void* b : blocks) free(b);
        blocks.clear();
        if(sigsetjmp(again, 1) == 0) run();
    }
    fprintf(stderr, "search: %llu executions\n", (unsigned long long)n);
    _exit(0);
}
#else
int main(int argc, char** argv)
{
    f = argc > 1 ? fopen(argv[1], "r") : nullptr;
    signal(SIGABRT, onabort);
    alarm(20);
    run();
    fprintf(stderr, "replay: all contracts held\n");
    _exit(0);
}
#endif
