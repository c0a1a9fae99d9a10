// Histories of allocator calls over any composition of the zoo, with the bookkeeping every oracle needs:
// the live blocks with their expected contents, the order of events, balances of heap and leaves.
#pragma once
#include "zoo.h"
#include <algorithm>
#include <memory>
#include <set>

namespace drv
{
    using pbt::Src;
    inline size_t g_heapBase = 0;

    inline void resetAll()
    {
        leaf::reset(); zoo::resetState(); heap::reset();
        heap::limit = size_t(1) << 28;
        g_heapBase = heap::liveBlocks();
    }

    // sizes: mostly small, biased to the edges that matter to the compositions
    inline size_t drawSize(Src& s, bool zero = true)
    {
        static const size_t edges[] = { 8, 15, 16, 17, 24, 31, 32, 33, 47, 48, 49, 63, 64, 65, 80, 96, 100, 112, 127, 128, 129, 144, 192, 240, 255, 256, 257, 384, 500, 511, 512, 513, 1008, 1024, 1040, 4080, 4096, 4097 };
        static const unsigned w[] = { 6, 5, 4, 1 };
        switch (s.pick(w))
        {
        case 0: return s.range(zero ? 0 : 1, 72);
        case 1: return s.of(edges);
        case 2: return s.range(1, 600);
        default: return s.range(1, 5000);
        }
    }
    // sizes no allocator can serve
    inline size_t drawGiant(Src& s)
    {
        size_t k = s.draw(160);
        switch (s.draw(5))
        {
        case 0: return SIZE_MAX - k;
        case 1: return (SIZE_MAX >> 1) - 80 + k;
        case 2: return (size_t(1) << 62) + k;
        case 3: return SIZE_MAX - (s.draw(1 << 16));
        default: return (size_t(1) << (40 + s.draw(23))) + k;
        }
    }
    inline size_t giantFloor() { return size_t(1) << 39; }

    inline void drawPlans(Src& s, int ids = 5, bool refuse = true)
    {
        for (int i = 0; i < ids; i++)
        {
            leaf::Plan& p = leaf::plan[i];
            static const unsigned w[] = { 3, 3, 2 };
            switch (s.pick(w)) { case 0: break; case 1: p.budget = s.range(16, 700); break; default: p.budget = s.range(0, 4200); }
            switch (s.pick(w)) { case 0: break; case 1: p.maxReq = s.range(16, 700); break; default: p.maxReq = s.range(0, 4200); }
            if (refuse && s.flag(1, 3)) { p.refuse = s.bits(); if (s.flag()) p.refuse &= s.bits(); }
            if (p.budget != SIZE_MAX || p.maxReq != SIZE_MAX / 4 || p.refuse)
                pbt::log("leaf%d{budget=%zd max=%zd refuse=%llx}", i, (ssize_t)p.budget, (ssize_t)p.maxReq, (unsigned long long)p.refuse);
        }
    }

    inline const zoo::Entry& drawEntry(Src& s, bool (*ok)(const zoo::Entry&) = nullptr)
    {
        auto& es = zoo::entries();
        uint64_t sum = 0;
        for (auto& e : es) if (!ok || ok(e)) sum += e.weight;
        uint64_t r = s.draw(sum);
        for (auto& e : es) if (!ok || ok(e)) { if (r < e.weight) return e; r -= e.weight; }
        pbt::fail("harness: no entry");
    }

    struct Live { char* p; size_t n; int inst; uint32_t pat; uint64_t seq; };

    inline uint8_t patByte(uint32_t pat, size_t i) { return uint8_t((pat * 2654435761u >> 8) + i * 37 + (i >> 8) * 11); }
    inline void fill(char* p, size_t n, uint32_t pat) { for (size_t i = 0; i < n; i++) p[i] = char(patByte(pat, i)); }
    inline size_t firstDiff(const char* p, size_t n, uint32_t pat) { for (size_t i = 0; i < n; i++) if (uint8_t(p[i]) != patByte(pat, i)) return i; return SIZE_MAX; }

    class History
    {
    public:
        const zoo::Entry& e;
        std::vector<zoo::Any*> inst;
        std::vector<Live> live;
        uint64_t seq = 0, allocs = 0, refusals = 0, deallocs = 0; uint32_t pats = 0;
        bool contents = true, regions = true, corrupted = false;
        size_t maxLive = 0;
        const char* what = "";

        explicit History(const zoo::Entry& en) : e(en)
        {
            std::string n = e.name;
            regions = n.find("dstack") == n.npos && n.find("dref") == n.npos && n.find("dglobal") == n.npos;
            pbt::log("%s", e.name);
        }
        ~History() { for (auto* a : inst) delete a; }

        int create()
        {
            zoo::Any* a = e.make();
            inst.push_back(a);
            CHECK(a->hasOwns == e.owns, "%s %s owns()", e.name, a->hasOwns ? "unexpectedly offers" : "does not offer");
            CHECK(a->hasMax == e.maxs, "%s %s max_size()", e.name, a->hasMax ? "unexpectedly offers" : "does not offer");
            CHECK(a->hasCons == e.cons, "%s %s construct()", e.name, a->hasCons ? "unexpectedly offers" : "does not offer");
            CHECK(a->hasDest == e.dest, "%s %s destroy()", e.name, a->hasDest ? "unexpectedly offers" : "does not offer");
            return int(inst.size()) - 1;
        }
        void step() { leaf::checkErrors(); }

        // allocation; every check of C01 that concerns a fresh block. Returns index in live or -1.
        int allocate(int i, size_t n)
        {
            char* p = static_cast<char*>(inst[i]->allocate(n));
            pbt::log("#%d.alloc(%zu)=%s", i, n, p ? "ok" : "null");
            step();
            if (!p) { refusals++; return -1; }
            allocs++;
            CHECK((reinterpret_cast<uintptr_t>(p) % alignof(std::max_align_t)) == 0, "block of %zu bytes at %p is not aligned to %zu", n, (void*)p, alignof(std::max_align_t));
            for (auto& l : live)
                if (l.n && n) CHECK(p + n <= l.p || l.p + l.n <= p, "new block [%p,+%zu) overlaps live block [%p,+%zu)", (void*)p, n, (void*)l.p, l.n);
            if (regions && n)
                CHECK(leaf::inBlock(p, n) || (p >= (char*)inst[i]->obj && p + n <= (char*)inst[i]->obj + inst[i]->objSize) || heap::inLiveBlock(p, n),
                      "block of %zu bytes does not lie inside one block of the underlying memory", n);
            uint32_t pat = ++pats;
            fill(p, n, pat);
            live.push_back({p, n, i, pat, ++seq});
            maxLive = std::max(maxLive, live.size());
            verify();
            return int(live.size()) - 1;
        }
        void verify()
        {
            if (contents) for (auto& l : live)
            {
                size_t d = firstDiff(l.p, l.n, l.pat);
                CHECK(d == SIZE_MAX, "content of a live block of %zu bytes (allocated as #%llu) changed at offset %zu", l.n, (unsigned long long)l.seq, d);
            }
        }
        void deallocate(size_t k)
        {
            Live l = live[k];
            size_t d = firstDiff(l.p, l.n, l.pat);
            CHECK(d == SIZE_MAX, "content of a live block of %zu bytes changed at offset %zu", l.n, d);
            live.erase(live.begin() + k);
            pbt::log("#%d.free(%llu:%zu)", l.inst, (unsigned long long)l.seq, l.n);
            inst[l.inst]->deallocate(l.p, l.n);
            deallocs++;
            step(); verify();
        }
        size_t pickLive(Src& s)
        {
            // bias to the newest, the oldest, and anything
            switch (s.draw(3)) { case 0: return live.size() - 1; case 1: return s.draw(live.size()); default: return 0; }
        }
        // construct and destroy an object in a live block that is big enough
        void objectIn(Src& s, size_t k)
        {
            Live& l = live[k];
            if (l.n < sizeof(zoo::Obj)) return;
            auto* o = reinterpret_cast<zoo::Obj*>(l.p);
            int how = int(s.draw(4)); zoo::Obj::Tok t(s.draw(1000)); uint64_t ref = 0;
            pbt::log("#%d.construct/destroy in %llu", l.inst, (unsigned long long)l.seq);
            if (!inst[l.inst]->construct(o, how, 7, &t, &ref)) { ::new (o) zoo::Obj(); }
            if (!inst[l.inst]->destroy(o)) o->~Obj();
            fill(l.p, sizeof(zoo::Obj), l.pat);
            step(); verify();
        }
        void freeAll(Src& s)
        {
            unsigned mode = unsigned(s.draw(3));
            while (!live.empty()) deallocate(mode == 0 ? live.size() - 1 : mode == 1 ? 0 : s.draw(live.size()));
        }
        void destroyAll()
        {
            for (auto& a : inst) { delete a; a = nullptr; step(); }
            inst.clear();
            leaf::runHooks(); step();
        }
        // at the very end of a history in which everything was deallocated
        void balance()
        {
            CHECK(leaf::liveBlocks() == 0, "%zu blocks were never given back to the underlying allocator", leaf::liveBlocks());
            CHECK(heap::liveBlocks() == g_heapBase, "%zd heap blocks leaked", (ssize_t)heap::liveBlocks() - (ssize_t)g_heapBase);
            for (int i = 0; i < leaf::NID; i++)
                CHECK(leaf::stat[i].allocs == leaf::stat[i].deallocs, "leaf %d: %llu allocations but %llu deallocations", i, (unsigned long long)leaf::stat[i].allocs, (unsigned long long)leaf::stat[i].deallocs);
            CHECK(heap::foreignFrees() == 0, "free() of a pointer that is not a live heap block");
            if (!corrupted) CHECK(zoo::sink().text.empty(), "overflow reported on a correct history: %s", zoo::sink().text.c_str());
        }
    };
}
