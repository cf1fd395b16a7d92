// Programs of explorer B: every multiset of `threads` scripts, a script being a word of bounded length.
#pragma once
#include "../engine/rt.hpp"
#include <cstdio>
#include <cstdlib>

struct Script
{
    mc::u8 n, op[7];
};

struct Scripts
{
    Script* list = (Script*) malloc(sizeof(Script) * 65536);
    int count    = 0;
    int threads  = 2;

    void add(const Script& s)
    {
        if (count < 65536)
            list[count++] = s;
    }
    // every word of length 1 .. len over the letters in `mask`
    void words(int len, unsigned mask, Script s = {})
    {
        if (s.n)
            add(s);
        if (s.n == len)
            return;
        for (int op = 0; op < 32; ++op)
            if (mask >> op & 1) {
                auto t      = s;
                t.op[t.n++] = (mc::u8) op;
                words(len, mask, t);
            }
    }
    static long multi(long o, int t) // multisets of size t over o options
    {
        long n = 1;
        for (int i = 0; i < t; ++i)
            n = n * (o + i) / (i + 1);
        return n;
    }
    long programs() const { return multi(count, threads); }
    void decode(long k, int* out) const
    {
        for (int t = threads; t >= 1; --t) {
            long lo = 0, hi = count - 1; // the largest c with multi(c, t) <= k
            while (lo < hi) {
                long m = (lo + hi + 1) / 2;
                if (multi(m, t) <= k)
                    lo = m;
                else
                    hi = m - 1;
            }
            k -= multi(lo, t);
            out[t - 1] = (int) lo;
        }
    }
    int print(char* b, int n, int k, const int* cur, const char* const* names) const
    {
        for (int t = 0; t < threads; ++t) {
            k += snprintf(b + k, n - k, "%sthread %d:", t || k ? "; " : "", t + 1);
            auto& s = list[cur[t]];
            for (int i = 0; i < s.n; ++i)
                k += snprintf(b + k, n - k, " %s", names[s.op[i]]);
        }
        return k;
    }
};
