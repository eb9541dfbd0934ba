// C01: the heap behaves as a priority queue with handles (random operation histories against a reference model).
#include "common.h"
#include "Heap.cpp"
const int quick_cases = 4000, thorough_cases = 60000;
void runcase(int k, Rng& r)
{
    unsigned cap = r.range(1, k % 3 ? 12 : 70);
    int ops = r.range(1, k % 5 ? 60 : 400);
    bool selftest = r.chance(0.3);
    int vals = r.chance(0.5) ? r.range(1, 6) : 1000000;   // few distinct values: many ties
    note(fmt("Heap(%u,%d)", cap, selftest));
    slsm::Heap h(cap, selftest);
    struct E { unsigned addr; double v; bool live; };
    std::vector<E> m; unsigned live = 0; uint64_t sig = cap;
    for (int i = 0; i < ops; i++) {
        CHECK(h.size() == live, "size() is %u, expected %u", h.size(), live);
        CHECK(h.empty() == (live == 0), "empty() is wrong with %u live entries", live);
        double best = 1e300; for (auto& e : m) if (e.live && e.v < best) best = e.v;
        if (live) CHECK(h.peek() == best, "peek() is %g, minimum is %g", h.peek(), best);
        int op = r.below(10);
        if (op < 5) {
            unsigned a = r.below(1000); double v = (double)r.below(vals) - vals / 2;
            note(fmt("push(%u,%g)", a, v)); sig = hashd(sig, v);
            if (live == cap) {
                bool ex = false;
                try { h.push(a, v); } catch (ExitCalled&) { ex = true; }
                CHECK(ex, "push onto a full heap was accepted");
                return;
            }
            unsigned hd = h.push(a, v);
            CHECK(hd == m.size(), "push returned handle %u, expected %zu", hd, m.size());
            m.push_back({a, v, true}); live++;
        } else if (op < 8) {
            if (!live) {
                if (r.chance(0.05)) {
                    bool ex = false; unsigned a; double v;
                    try { h.pop(a, v); } catch (ExitCalled&) { ex = true; }
                    CHECK(ex, "pop of an empty heap was accepted");
                    return;
                }
                continue;
            }
            unsigned a = 0; double v = 0; h.pop(a, v); note(fmt("pop -> %u,%g", a, v)); sig = hashmix(sig, 77);
            CHECK(v == best, "pop returned value %g, minimum is %g", v, best);
            // several entries may share address and value: any of them will do, but the code removes a definite one
            int hit = -1;
            for (size_t j = 0; j < m.size(); j++) if (m[j].live && m[j].v == v && m[j].addr == a) {
                bool in = false; for (unsigned p = 0; p < h.heapLength; p++) if (h.heap[p] == j) in = true;
                if (!in) hit = j;
            }
            CHECK(hit >= 0, "pop returned (%u,%g), not an entry that was removed", a, v);
            m[hit].live = false; live--;
        } else {
            if (!live) continue;
            unsigned j; do j = r.below(m.size()); while (!m[j].live);
            double v = (double)r.below(vals) - vals / 2; note(fmt("set(%u,%g)", j, v)); sig = hashd(sig, v);
            h.set(j, v); m[j].v = v;
        }
    }
    distinct(sig);
    double prev = -1e300;
    while (live) {
        unsigned a = 0; double v = 0; h.pop(a, v); note(fmt("pop -> %u,%g", a, v));
        double best = 1e300; for (auto& e : m) if (e.live && e.v < best) best = e.v;
        CHECK(v == best && v >= prev, "drain: popped %g after %g, minimum is %g", v, prev, best);
        int hit = -1;
        for (size_t j = 0; j < m.size(); j++) if (m[j].live && m[j].v == v && m[j].addr == a) hit = j;
        CHECK(hit >= 0, "drain: popped (%u,%g) which is not in the queue", a, v);
        m[hit].live = false; live--; prev = v;
    }
    CHECK(h.empty(), "not empty after draining");
}
