// What operations cost: allocations, copies and moves of elements. Used by seq.cpp and assoc.cpp (C20).
#pragma once

namespace cost {
static u64 a0, c0, m0, k0;
static int depth;  // of what was there before, then of the deeper of that and what is there now, in blocks
static int before; // of what was there before
static int allocs, copies, moves;

static void start(int d)
{
    depth = before = d;
    a0    = mc::alloc_count();
    c0    = mc::counters().copies;
    m0    = mc::counters().moves;
    k0    = mc::counters().calls;
}
static void stop()
{
    allocs = (int) (mc::alloc_count() - a0);
    copies = (int) (mc::counters().copies - c0);
    moves  = (int) (mc::counters().moves - m0);
}
// the bounds of an operation; the greatest of what was seen, for calibration
struct Stat
{
    u64 n, allocs, rel, copies, moves;
};
static void judge(int slot, const char* op, const char* how, int n, int max_allocs, int max_copies)
{
    auto& s = reinterpret_cast<Stat*>(mc::persistent_words())[slot];
    ++s.n;
    if (allocs > (int) s.allocs)
        s.allocs = allocs;
    if (allocs > 2 * depth + (int) s.rel)
        s.rel = allocs - 2 * depth;
    if (copies > (int) s.copies)
        s.copies = copies;
    if (moves > (int) s.moves)
        s.moves = moves;
    if (max_allocs >= 0 && allocs > max_allocs)
        mc::violation(vk::cost, "%s%s on %d elements, %d blocks deep, allocates %d times (at most %d)", op, how, n, depth, allocs, max_allocs);
    if (max_copies >= 0 && copies > max_copies)
        mc::violation(vk::cost, "%s%s on %d elements, %d blocks deep, copies %d elements (at most %d)", op, how, n, depth, copies, max_copies);
}
// elements compared and hashed
static void judge_calls(int slot, const char* what, int n, int most)
{
    int calls = (int) (mc::counters().calls - k0);
    auto& s   = reinterpret_cast<Stat*>(mc::persistent_words())[slot];
    ++s.n;
    if (calls > (int) s.copies)
        s.copies = calls;
    if (calls > most)
        mc::violation(vk::cost, "%s on %d elements compares and hashes %d times (at most %d)", what, n, calls, most);
}
static void dump(const char* const* names, int k)
{
    for (int i = 0; i < k * 8; ++i) {
        auto& s = reinterpret_cast<Stat*>(mc::persistent_words())[i];
        if (s.n)
            fprintf(stderr, "COST %s rv=%d: %d times, at most %d allocations (2 depth + %d), %d copies, %d moves\n", names[i / 8], i % 8, (int) s.n, (int) s.allocs, (int) s.rel, (int) s.copies, (int) s.moves);
    }
}
static void dump_calls(int k)
{
    for (int i = k * 8; i < k * 8 + 8; ++i) {
        auto& s = reinterpret_cast<Stat*>(mc::persistent_words())[i];
        if (s.n)
            fprintf(stderr, "CALLS %d: %d times, at most %d\n", i - k * 8, (int) s.n, (int) s.copies);
    }
}
} // namespace cost
