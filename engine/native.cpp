// Native interpretation of contracts/vc.hpp: replay of a recorded trace, or random search.
// usage: prog UNIT runs seed [tracefile] [outfile]
#include "../contracts/vc.hpp"
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#if defined(__has_feature)
#  if __has_feature(address_sanitizer)
#    include <sanitizer/asan_interface.h>
#    include <sanitizer/common_interface_defs.h>
#  endif
#endif
static jmp_buf  g_jmp;
static u64      g_rng;
static bool     g_replay;
static std::map<std::string, std::deque<u64>>              g_nd;
static std::map<std::pair<std::string, std::vector<u64>>, u64> g_ufrep;
static std::map<std::string, std::deque<std::vector<u8>>>  g_arrrep;
static std::map<std::pair<std::string, std::vector<u64>>, u64> g_uf;
static std::map<std::string, std::vector<u8>>              g_alpha;
static std::map<std::string, std::pair<u64, u64>>          g_range;
static std::string g_trace;
static std::string g_out;
static const char* g_unit;
static std::vector<void*> g_arrays;
static std::map<const void*, u64> g_size;
static u64 g_small;

static u64 rnd()
{
    g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17;
    return g_rng * 0x2545F4914F6CDD1Dull;
}
static void dump(const char* label)
{
    FILE* f = g_out.empty() ? stdout : fopen(g_out.c_str(), "w");
    if (!f) f = stdout;
    fprintf(f, "UNIT %s\nFAIL %s\n%s", g_unit, label, g_trace.c_str());
    if (f != stdout) fclose(f);
    else fflush(f);
}
[[noreturn]] static void fail(const char* label)
{
    dump(label);
    _exit(1);
}
static void on_death() { dump("memory: sanitizer report / crash"); }
static void on_signal(int) { dump("crash: signal"); _exit(1); }
static bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
static u64 pick(const std::string& name, int w)
{
    u64 m = w == 64 ? ~0ull : ((1ull << w) - 1);
    auto r = g_range.find(name);
    if (r != g_range.end() && rnd() % 16)
        return r->second.first + rnd() % (r->second.second - r->second.first + 1);
    auto a = g_alpha.find(name);
    if (a != g_alpha.end() && !a->second.empty() && rnd() % 16)
        return a->second[rnd() % a->second.size()];
    if (w == 1) return rnd() & 1;
    if (starts(name, "len")) return rnd() % (1 + g_small);
    switch (rnd() % 8)
    {
    case 0: return (rnd() % 10) & m;
    case 1: return (m - rnd() % 10) & m;
    case 2: return ((m >> 1) + rnd() % 5 - 2) & m;
    case 3: return (1ull << (rnd() % w)) + rnd() % 5 - 2 & m;
    case 4: case 5: return (0x20 + rnd() % 0x5f) & m;
    case 6: return (rnd() >> (rnd() % 64)) & m;
    default: return rnd() & m;
    }
}
static u64 nd(const char* name, int w)
{
    u64 m = w == 64 ? ~0ull : ((1ull << w) - 1);
    u64 v;
    auto it = g_nd.find(name);
    if (g_replay && it != g_nd.end() && !it->second.empty()) { v = it->second.front(); it->second.pop_front(); }
    else v = pick(name, w);
    v &= m;
    g_trace += "nd " + std::string(name) + " " + std::to_string(v) + "\n";
    return v;
}
static u64 uf(const char* name, int w, std::vector<u64> args)
{
    u64 m = w == 64 ? ~0ull : ((1ull << w) - 1);
    auto key = std::make_pair(std::string(name), args);
    auto it = g_uf.find(key);
    if (it != g_uf.end()) return it->second;
    u64 v;
    auto r = g_ufrep.find(key);
    if (g_replay && r != g_ufrep.end()) v = r->second;
    else v = pick(name, w);
    v &= m;
    g_uf[key] = v;
    g_trace += "uf " + std::string(name) + " " + std::to_string(args.size());
    for (auto a : args) g_trace += " " + std::to_string(a);
    g_trace += " " + std::to_string(v) + "\n";
    return v;
}
extern "C"
{
void vc_assume(bool c) { if (!c) longjmp(g_jmp, 1); }
void vc_assert(bool c, const char* l) { if (!c) fail(l); }
void vc_cover(bool, const char*) {}
bool vc_ndb(const char* n) { return nd(n, 1) & 1; }
u8 vc_nd8(const char* n) { return u8(nd(n, 8)); }
u16 vc_nd16(const char* n) { return u16(nd(n, 16)); }
u32 vc_nd32(const char* n) { return u32(nd(n, 32)); }
u64 vc_nd64(const char* n) { return nd(n, 64); }
bool vc_uf1_1(const char* n, u64 a) { return uf(n, 1, {a}) & 1; }
u8 vc_uf1_8(const char* n, u64 a) { return u8(uf(n, 8, {a})); }
u16 vc_uf1_16(const char* n, u64 a) { return u16(uf(n, 16, {a})); }
u32 vc_uf1_32(const char* n, u64 a) { return u32(uf(n, 32, {a})); }
u64 vc_uf1_64(const char* n, u64 a) { return uf(n, 64, {a}); }
bool vc_uf2_1(const char* n, u64 a, u64 b) { return uf(n, 1, {a, b}) & 1; }
u8 vc_uf2_8(const char* n, u64 a, u64 b) { return u8(uf(n, 8, {a, b})); }
u64 vc_uf2_64(const char* n, u64 a, u64 b) { return uf(n, 64, {a, b}); }
u64 vc_choose(const char* name, u64 n)
{
    u64 v;
    auto it = g_nd.find(name);
    if (g_replay && it != g_nd.end() && !it->second.empty()) { v = it->second.front(); it->second.pop_front(); }
    else v = rnd() % n;
    v %= n;
    g_trace += "nd " + std::string(name) + " " + std::to_string(v) + "\n";
    return v;
}
void* vc_array(const char* name, u64 bytes)
{
    if (bytes > 4096) longjmp(g_jmp, 1);
    u8* p = static_cast<u8*>(malloc(bytes ? bytes : 1));
    std::vector<u8> rep;
    auto it = g_arrrep.find(name);
    bool have = false;
    if (g_replay && it != g_arrrep.end() && !it->second.empty()) { rep = it->second.front(); it->second.pop_front(); have = true; }
    g_trace += "arr " + std::string(name) + " " + std::to_string(bytes);
    for (u64 i = 0; i < bytes; ++i)
    {
        p[i] = have && i < rep.size() ? rep[i] : u8(pick(name, 8));
        g_trace += " " + std::to_string(p[i]);
    }
    g_trace += "\n";
    g_arrays.push_back(p);
    g_size[p] = bytes;
    return p;
}
u64  vc_objsize(const void*) { return ~0ull; }
bool vc_alive(const void*) { return true; }
u64  vc_live_heap() { return 0; }
bool vc_same_object(const void*, const void*) { return true; }
u64  vc_offset(const void*) { return 0; }
void vc_track(u64) {}
void vc_track32(u32) {}
void vc_ghost(const void*) {}
void vc_use_inv0(bool (*)()) {}
void vc_use_case0(bool (*)()) {}
void vc_use_inv1(bool (*)(u64)) {}
void vc_use_const1(u64 (*)(u64)) {}
void vc_use_inv2(bool (*)(u64, u64)) {}
void vc_use_inv32(bool (*)(u64, u32)) {}
void vc_alphabet(const char* name, const char* c, u64 n) { g_alpha[name] = std::vector<u8>((const u8*)c, (const u8*)c + n); }
void vc_range(const char* name, u64 lo, u64 hi) { g_range[name] = {lo, hi}; }
void __assert_fail(const char* e, const char* file, unsigned line, const char*) noexcept
{
    std::string s = std::string("assertion `") + e + "` " + file + ":" + std::to_string(line);
    fail(s.c_str());
}
}
void vc_native_reset_hook() __attribute__((weak));
int main(int argc, char** argv)
{
    g_unit = argv[1];
    u64 runs = strtoull(argv[2], nullptr, 10), seed = strtoull(argv[3], nullptr, 10);
    if (argc > 4 && argv[4][0])
    {
        FILE* f = fopen(argv[4], "r");
        char kind[16], name[256];
        while (f && fscanf(f, "%15s", kind) == 1)
        {
            unsigned long long v, n;
            if (!strcmp(kind, "nd")) { if (fscanf(f, "%255s %llu", name, &v) == 2) g_nd[name].push_back(v); }
            else if (!strcmp(kind, "uf"))
            {
                if (fscanf(f, "%255s %llu", name, &n) != 2) break;
                std::vector<u64> a;
                for (u64 i = 0; i < n; ++i) { if (fscanf(f, "%llu", &v) == 1) a.push_back(v); }
                if (fscanf(f, "%llu", &v) == 1) g_ufrep[{name, a}] = v;
            }
            else if (!strcmp(kind, "arr"))
            {
                if (fscanf(f, "%255s %llu", name, &n) != 2) break;
                std::vector<u8> a;
                for (u64 i = 0; i < n; ++i) { if (fscanf(f, "%llu", &v) == 1) a.push_back(u8(v)); }
                g_arrrep[name].push_back(a);
            }
            else { int c; while ((c = fgetc(f)) != EOF && c != '\n') {} }
        }
        if (f) fclose(f);
        g_replay = true;
    }
    if (argc > 5) g_out = argv[5];
    void (*fn)() = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, argv[1]));
    if (!fn) { fprintf(stderr, "no unit %s\n", argv[1]); return 3; }
#if defined(__has_feature)
#  if __has_feature(address_sanitizer)
    __sanitizer_set_death_callback(on_death);
#  endif
#endif
    signal(SIGSEGV, on_signal); signal(SIGFPE, on_signal); signal(SIGABRT, on_signal); signal(SIGALRM, [](int){ dump("non-termination: run exceeded 5 s"); _exit(1); });
    volatile u64 done = 0;
    auto nd0 = g_nd; auto arr0 = g_arrrep;
    for (volatile u64 i = 0; i < runs; ++i)
    {
        g_rng = (seed + i) * 0x9E3779B97F4A7C15ull + 0x1234567;
        for (int k = 0; k < 4; ++k) rnd();
        g_small = 1 + rnd() % 9;
        g_trace.clear(); g_uf.clear(); g_nd = nd0; g_arrrep = arr0;
        for (auto p : g_arrays) free(p);
        g_arrays.clear();
        alarm(5);
        if (setjmp(g_jmp) == 0) { fn(); done = done + 1; }
        alarm(0);
    }
    printf("RUNS %llu COMPLETED %llu\n", (unsigned long long)runs, (unsigned long long)done);
    return 0;
}
extern "C" u8  vc_rd8(const void* p, u64 o, u64 n) { return o < n ? static_cast<const u8*>(p)[o] : 0; }
extern "C" u16 vc_rd16(const void* p, u64 o, u64 n) { u16 r = 0; if (o + 2 <= n) memcpy(&r, static_cast<const u8*>(p) + o, 2); return r; }
extern "C" u32 vc_rd32(const void* p, u64 o, u64 n) { u32 r = 0; if (o + 4 <= n) memcpy(&r, static_cast<const u8*>(p) + o, 4); return r; }

static std::map<std::string, std::vector<u64>> g_fold;
static std::map<std::string, u64> g_fold0;
extern "C"
{
u64 vc_first(const char*, const void*, u64, u64 start, u64 n, bool (*pred)(u64))
{
    for (u64 i = start; i < n; ++i)
        if (pred(i)) return i;
    return n;
}
void vc_axiom(const void*, u64, u64 n, bool (*pred)(u64))
{
    for (u64 i = 0; i < n; ++i) vc_assume(pred(i));
}
void vc_fold(const char* name, const void*, u64, u64 init, u64 start, u64 end, u64 (*step)(u64, u64))
{
    auto& v = g_fold[name];
    v.assign(1, init);
    g_fold0[name] = start;
    for (u64 i = start; i < end; ++i) v.push_back(step(v.back(), i));
}
u64 vc_fold_at(const char* name, u64 i)
{
    auto& v = g_fold[name];
    u64 k = i - g_fold0[name];
    return k < v.size() ? v[k] : 0;
}
}
