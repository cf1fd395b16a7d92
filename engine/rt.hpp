// Runtime interface seen by harnesses (explorer A: histories, explorer B: schedules).
#pragma once
#include <cstddef>
#include <cstdint>
#include <new>

namespace mc {

using u8  = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

// ---- violations -----------------------------------------------------------
enum class vk { model, leak, memory, lifetime, assertion, crash, hang, race, exception, cost, gc };
[[noreturn]] void violation(vk kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

// ---- memory ---------------------------------------------------------------
enum : u32 { tag_none = 0, tag_norefs = 1, tag_engine = 2 };
void* alloc(std::size_t n, u32 tag = tag_none);
void dealloc(void* p, std::size_t n, u32 tag = tag_none, bool check_size = true);
u64 live_blocks();
u64 live_bytes();
u64 alloc_count();  // allocations since start (monotonic, snapshotted)
u64 alloc_bytes();
bool in_arena(const void* p);
void exclusive_begin(); // which of the ranges added, with ids below 32, reach blocks that are reached by one pointer only
void exclusive_add(const void* p, std::size_t n, int id);
bool exclusive(int id);
int graph_depth(const void* p, std::size_t n); // blocks on the longest chain of pointers that starts in [p, p + n)
u64* persistent_words(); // 4096 words that are never rolled back (statistics)
// a heap under test gave [p, p + n) out / took it back: user code must not touch it in between
void user_take(void* p, std::size_t n);
void user_give(void* p, std::size_t n);
void cached_blocks(int delta); // blocks that a free list keeps are no leak
std::int64_t user_blocks();    // given out and not yet taken back by a heap under test

// ---- elements -------------------------------------------------------------
struct counters_t
{
    std::int64_t live_elems;
    u64 copies, moves, assigns, calls;
};
counters_t& counters();

// ---- faults ---------------------------------------------------------------
struct fault
{
    int id;
};
enum class fk { alloc, copy, move, hash, equal, fn, other };
void fault_point(fk k); // throws mc::fault when armed and reached
bool fault_armed();

// ---- op limits ------------------------------------------------------------
void begin_step();

} // namespace mc

// ---- Explorer A -----------------------------------------------------------
namespace mc {

struct Op
{
    u8 kind, d, a, b;
    int x, y;
};

struct Range
{
    void* p;
    std::size_t n;
};

struct Harness
{
    virtual int num_seeds()                              = 0;
    virtual void seed(int i)                             = 0; // builds the world
    virtual void describe_seed(int i, char* buf, int n)  = 0;
    virtual int ops(Op* out, int max, int depth)         = 0; // enabled operations
    virtual void apply(const Op& op)                     = 0; // call + model
    virtual void check()                                 = 0; // after every transition
    virtual void battery()                               = 0; // on every new state
    virtual void teardown()                              = 0; // destroy every variable
    virtual int roots(Range* r, int max)                 = 0;
    virtual void describe(const Op& op, char* buf, int n) = 0;
    // called after `apply` threw because of an injected fault
    virtual void after_fault(const Op&) {}
    // model must be told not to commit: save/restore is done by the explorer
    virtual bool faultable(const Op&) { return true; }
    virtual void done() {} // after everything was explored
    // the state is inside the bound of an exploration to the fixpoint
    virtual bool bounded() { return true; }
    // a listed finding: std::terminate called by `caller` in `op`; returns its tag or nullptr
    virtual const char* known_terminate(const Op&, const char* caller) { return nullptr; }
};

// ---- Explorer B -----------------------------------------------------------
struct ConcHarness
{
    virtual int num_programs()                             = 0;
    virtual void setup(int prog)                           = 0; // one thread; before any other thread runs
    virtual int num_threads()                              = 0; // of the program that was set up
    virtual void thread(int t)                             = 0; // body of thread t
    virtual void finish()                                  = 0; // one thread; after every other thread ended
    virtual void describe(int prog, char* buf, int n)      = 0;
    virtual void warm() {}                                      // makes what is created once, on first use
    // counts blocks in use; must be the same for every program after finish()
    virtual std::int64_t in_use() { return (std::int64_t) live_blocks(); }
    virtual std::int64_t elems_dead() { return 0; } // elements are not destroyed (garbage collection)
};
int conc_main(int argc, char** argv, ConcHarness& h);
// call and return of an operation in a history: ordered against those of the other threads
void op_call();
void op_return();
// position in the total order of calls and returns of this execution
u64 op_clock();
int this_thread(); // 0 = set up and finish, else the number of the thread + 1

void explore_args(int argc, char** argv); // before any opt()
int explore_main(int argc, char** argv, Harness& h);

// options, read from the command line as name=value
long opt(const char* name, long dflt);

} // namespace mc
