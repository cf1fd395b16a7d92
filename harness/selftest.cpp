// Programs with known numbers of schedules and known errors: what the schedule explorer itself is worth.
#include "../engine/rt.hpp"
#include <atomic>
#include <cstdio>
#include <immer/lock/spinlock_policy.hpp>
#include <thread>

static std::atomic<int> A, B, R;
static int plain, other;
static int prog;
static int seen[4];
static immer::spinlock_policy lk, lk2;
static std::atomic<int*> ptr;

struct H : mc::ConcHarness
{
    long only = -1;
    int num_programs() override { return 12; }
    void setup(int p) override
    {
        prog = only >= 0 ? (int) only : p;
        A = B = R = 0;
        plain = other = 0;
        ptr = nullptr;
        for (auto& s : seen)
            s = 0;
    }
    int num_threads() override { return prog == 2 || prog == 5 || prog == 7 ? 3 : 2; }
    void thread(int t) override
    {
        switch (prog) {
        case 0: // C(6, 3) = 20
            for (int i = 0; i < 3; ++i)
                A.fetch_add(1);
            break;
        case 1: // 1
            for (int i = 0; i < 3; ++i)
                (t ? A : B).fetch_add(1);
            break;
        case 2: // 4
            if (t == 0)
                A.store(1);
            else
                seen[t] = A.load();
            break;
        case 3: // lock
            for (int i = 0; i < 2; ++i) {
                lk.lock();
                ++plain;
                lk.unlock();
            }
            break;
        case 4: // message passing, release and acquire: 2 (+ the read of the flag)
            if (t == 0) {
                plain = 1;
                A.store(1, std::memory_order_release);
            } else if (A.load(std::memory_order_acquire))
                seen[t] = plain;
            break;
        case 5: // 3 threads, 2 operations each on the same location: 6! / (2! 2! 2!) = 90
            A.fetch_add(1);
            A.fetch_add(1);
            break;
        case 6: // lock free increments: no lost update
            for (int i = 0; i < 2; ++i) {
                int v = A.load();
                while (!A.compare_exchange_weak(v, v + 1)) {}
            }
            break;
        case 7: // three threads on a lock
            lk.lock();
            ++plain;
            lk.unlock();
            break;
        case 8: // calls and returns: 2 operations each
            for (int i = 0; i < 2; ++i) {
                mc::op_call();
                mc::op_return();
            }
            break;
        case 9: // store buffering under interleaving: 3 outcomes; both zero is impossible
            (t ? A : B).store(1);
            seen[t] = (t ? B : A).load();
            break;
        case 10: // two places: 2 * 2 = 4
            A.fetch_add(1);
            B.fetch_add(1);
            break;
        case 11: // spin until the other thread sets the flag
            if (t == 0)
                A.store(1, std::memory_order_release);
            else {
                while (!A.load(std::memory_order_acquire))
                    std::this_thread::yield();
                ++plain;
            }
            break;
        // ---- errors
        case 100: // relaxed publication
            if (t == 0) {
                plain = 1;
                A.store(1, std::memory_order_relaxed);
            } else if (A.load(std::memory_order_acquire))
                seen[t] = plain;
            break;
        case 101: // deadlock
            (t ? lk : lk2).lock();
            (t ? lk2 : lk).lock();
            (t ? lk2 : lk).unlock();
            (t ? lk : lk2).unlock();
            break;
        case 102: { // lost update
            int v = A.load();
            A.store(v + 1);
            break;
        }
        case 103: // free while the other one reads
            if (t == 0) {
                auto p = ptr.load();
                if (p)
                    seen[0] = *p;
            } else {
                auto p = (int*) mc::alloc(4);
                *p     = 7;
                ptr.store(p);
                ptr.store(nullptr);
                mc::dealloc(p, 4);
            }
            break;
        case 104: // leak in one order only
            if (t == 0)
                A.store(1);
            else if (A.load())
                mc::alloc(8);
            break;
        case 105: // unordered plain accesses without any atomic operation
            ++plain;
            break;
        case 106: // a fence is missing: relaxed read, then plain read
            if (t == 0) {
                plain = 1;
                A.store(1, std::memory_order_release);
            } else if (A.load(std::memory_order_relaxed))
                seen[t] = plain;
            break;
        }
        R.load(std::memory_order_relaxed); // commutes
    }
    void finish() override
    {
        auto fail = [](const char* w) { mc::violation(mc::vk::model, "%s", w); };
        if (prog == 0 && A != 6)
            fail("sum");
        if (prog == 3 && plain != 4)
            fail("lock");
        if (prog == 7 && plain != 3)
            fail("lock");
        if (prog == 6 && A != 4)
            fail("lost update");
        if (prog == 102 && A != 2)
            fail("lost update");
        if (prog == 9 && !seen[0] && !seen[1])
            fail("store buffering");
        if (prog == 4 && seen[1] > 1)
            fail("message");
    }
    void describe(int p, char* b, int n) override { snprintf(b, n, "program %d", only >= 0 ? (int) only : p); }
};

static H h;
int main(int argc, char** argv)
{
    mc::explore_args(argc, argv);
    h.only = mc::opt("only", -1);
    return mc::conc_main(argc, argv, h);
}
