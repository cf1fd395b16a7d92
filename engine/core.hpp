// Shared core of both explorers: engine state at a fixed address, arena, shadow, TLS, reports.
// Included by rt_seq.cpp and rt_conc.cpp, which are compiled *without* instrumentation.
#pragma once
#include "rt.hpp"
#include <atomic>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace mc {

constexpr u64 ENGINE_BASE = 0x0f0000000000ull;
constexpr u64 ARENA_BASE  = 0x100000000000ull;
constexpr u64 ARENA_SIZE  = 256ull << 20;
constexpr u64 SHADOW_BASE = 0x120000000000ull;
constexpr u64 SHADOW_SIZE = ARENA_SIZE / 8;

// shadow values of a granule of 8 bytes: 1..8 = that many leading bytes are accessible
enum : u8 { SH_NONE = 0, SH_USER = 0x10 /* or-ed: given out by a heap under test */, SH_HDR = 0xf0, SH_FHDR = 0xf1, SH_RED = 0xfa, SH_FREED = 0xfe };

struct Hdr
{
    u32 size;  // requested
    u32 total; // including header and red zone, multiple of 16
    u32 tag;
    u32 serial;
};
static_assert(sizeof(Hdr) == 16, "");

constexpr int MAX_TLS = 64;
struct TlsSlot
{
    void* obj;
    int fiber;
    void* mem;
};

// Lives at the start of the arena: part of the snapshot.
struct Control
{
    u64 bump;
    u64 live_blocks, live_bytes;
    u64 n_alloc, b_alloc;
    u64 cached; // blocks kept by the free lists under test
    std::int64_t user; // blocks a heap under test has given out
    counters_t cnt;
    u32 serial;
    int n_tls;
    TlsSlot tls[MAX_TLS];
    void* free_ready[128];   // by total/16
    void* pending;           // freed during the current step
};

struct Engine
{
    bool inited;
    int in_sut; // operator new goes to the arena
    bool reuse;
    u64 ticks, tick_limit;
    // faults
    bool f_armed;
    int f_target, f_count, f_hit;
    // reporting
    void (*report_extra)(FILE*);
    bool (*terminate_hook)(const char* caller); // may not return
    const char* outfile;
    bool in_violation;
    char phase[64];
    int cur_fiber;
    // simulated tracing collector
    int gc;             // 0 off, 1 collect between operations, 2 also at every allocation
    u64 gc_stack_top;   // frames above belong to the explorer
    u64 gc_runs, gc_freed;
    u32* gc_mark;
    u32 gc_stamp;
    u32* depth_mark; // per 16 bytes of the arena: stamp << 8 | depth (0: being visited)
    u32 depth_stamp;
    u64* words;
    Control* ctl;
};

inline Engine& E() { return *reinterpret_cast<Engine*>(ENGINE_BASE); }
inline Control& C() { return *reinterpret_cast<Control*>(ARENA_BASE); }
inline u8* SH(u64 a) { return reinterpret_cast<u8*>(SHADOW_BASE + ((a - ARENA_BASE) >> 3)); }
inline bool inside(u64 a) { return a - ARENA_BASE < ARENA_SIZE; }

void core_init();

} // namespace mc
