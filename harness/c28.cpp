// C28: moving an allocator transfers its state and leaves the source inert
#include "driver.h"
using namespace drv;

namespace
{
    struct Foot
    {
        int64_t blocks, heap, inst;
        static Foot now() { return { int64_t(leaf::liveBlocks()), int64_t(heap::liveBlocks()), leaf::ownInstances() }; }
        Foot operator-(const Foot& o) const { return { blocks - o.blocks, heap - o.heap, inst - o.inst }; }
        Foot& operator+=(const Foot& o) { blocks += o.blocks; heap += o.heap; inst += o.inst; return *this; }
        bool operator==(const Foot& o) const { return blocks == o.blocks && heap == o.heap && inst == o.inst; }
    };
}

static void moves(Src& s)
{
    drawPlans(s);
    History h(drawEntry(s, [](const zoo::Entry& e) { return e.movable; }));
    const zoo::Entry& e = h.e;
    bool local = !strstr(e.name, "dref") && !strstr(e.name, "dglobal") && !strstr(e.name, "dstack");   // nothing shared with other instances
    struct St { bool moved = false, freed = false; Foot foot{0, 0, 0}; };
    std::vector<St> st;
    unsigned moves = 0, assigns = 0, carried = 0;
    auto fresh = [&] { Foot b = Foot::now(); h.create(); st.push_back({}); st.back().foot = Foot::now() - b; };
    auto has = [&](int i) { for (auto& l : h.live) if (l.inst == i) return true; return false; };
    auto mayMove = [&](int i)
    {
        if (!h.inst[i] || st[i].moved) return false;
        if (e.bump && has(i)) return false;
        if (e.flnh && st[i].freed) return false;
        return true;
    };
    auto hand = [&](int i, int j)
    {
        for (auto& l : h.live) if (l.inst == i) { l.inst = j; carried++; }
        st[j].freed = st[i].freed; st[i].moved = true; st[j].moved = false;
        h.step(); h.verify();
        for (auto& l : h.live) if (l.inst == j)
            CHECK(!e.owns || h.inst[j]->owns(l.p), "after the move the destination does not own a block allocated before");
    };
    fresh(); fresh();
    s.maxSteps = 20 + 4 * s.sizeHint();
    while (s.more(40))
    {
        pbt::Span sp;
        std::vector<int> usable, movable, assignTo, destroyable;
        for (size_t i = 0; i < h.inst.size(); i++) if (h.inst[i])
        {
            if (!st[i].moved) usable.push_back(int(i));
            if (mayMove(int(i))) movable.push_back(int(i));
            if (!has(int(i))) { assignTo.push_back(int(i)); destroyable.push_back(int(i)); }
        }
        static const unsigned w[] = { 8, 5, 2, 2, 1, 1 };
        switch (s.pick(w))
        {
        case 0: if (!usable.empty()) { int i = usable[s.draw(usable.size())]; Foot b = Foot::now(); h.allocate(i, drawSize(s)); st[i].foot += Foot::now() - b; } break;
        case 1:
            if (!h.live.empty())
            {
                size_t k = h.pickLive(s); int i = h.live[k].inst;
                Foot b = Foot::now(); h.deallocate(k); st[i].foot += Foot::now() - b; st[i].freed = true;
            }
            break;
        case 2:
            if (!movable.empty() && h.inst.size() < 10)
            {
                int i = movable[s.draw(movable.size())];
                pbt::log("#%zu=move #%d", h.inst.size(), i);
                Foot b = Foot::now();
                h.inst.push_back(h.inst[i]->moveOut()); st.push_back({});
                int j = int(h.inst.size()) - 1; moves++;
                Foot d = Foot::now() - b;
                CHECK(d == Foot({0, 0, 0}), "move construction created or released resources (%lld leaf blocks, %lld heap blocks, %lld instances)", (long long)d.blocks, (long long)d.heap, (long long)d.inst);
                st[j].foot = st[i].foot; st[i].foot = {0, 0, 0};
                hand(i, j);
            }
            break;
        case 3:
            if (!movable.empty() && e.massign && s.flag(1, 6))
            {
                // to itself: nothing changes
                int i = movable[s.draw(movable.size())];
                pbt::log("#%d=move-assign #%d", i, i);
                Foot b = Foot::now();
                CHECK(h.inst[i]->moveAssign(*h.inst[i]), "harness: not assignable"); assigns++;
                Foot d = b - Foot::now();
                CHECK(d == Foot({0, 0, 0}), "self-assignment released %lld leaf blocks, %lld heap blocks and %lld instances", (long long)d.blocks, (long long)d.heap, (long long)d.inst);
                h.step(); h.verify();
                for (auto& l : h.live) if (l.inst == i)
                    CHECK(!e.owns || h.inst[i]->owns(l.p), "after the self-assignment the allocator does not own a block allocated before");
            }
            else if (!movable.empty() && !assignTo.empty() && e.massign)
            {
                int i = movable[s.draw(movable.size())], j = assignTo[s.draw(assignTo.size())];
                if (i == j) break;
                pbt::log("#%d=move-assign #%d", j, i);
                Foot b = Foot::now();
                CHECK(h.inst[j]->moveAssign(*h.inst[i]), "harness: not assignable"); assigns++;
                Foot d = b - Foot::now();
                if (local) CHECK(d == st[j].foot, "move assignment released %lld leaf blocks, %lld heap blocks and %lld instances; the destination held %lld, %lld and %lld",
                      (long long)d.blocks, (long long)d.heap, (long long)d.inst, (long long)st[j].foot.blocks, (long long)st[j].foot.heap, (long long)st[j].foot.inst);
                st[j].foot = st[i].foot; st[i].foot = {0, 0, 0};
                hand(i, j);
            }
            break;
        case 4:
            if (destroyable.size() > 0 && h.inst.size() > 2)
            {
                int i = destroyable[s.draw(destroyable.size())];
                pbt::log("destroy #%d%s", i, st[i].moved ? " (moved from)" : "");
                Foot b = Foot::now();
                delete h.inst[i]; h.inst[i] = nullptr;
                Foot d = b - Foot::now();
                if (local) CHECK(d == st[i].foot, "destroying %s allocator released %lld leaf blocks, %lld heap blocks and %lld instances; it held %lld, %lld and %lld", st[i].moved ? "a moved-from" : "an",
                      (long long)d.blocks, (long long)d.heap, (long long)d.inst, (long long)st[i].foot.blocks, (long long)st[i].foot.heap, (long long)st[i].foot.inst);
                h.step(); h.verify();
            }
            break;
        default: if (h.inst.size() < 10) { fresh(); pbt::log("#%zu=new", h.inst.size() - 1); } break;
        }
    }
    if (h.allocs && moves + assigns) pbt::nontrivial();
    if (carried) pbt::label("live blocks carried over");
    if (assigns) pbt::label("move-assigned");
    h.freeAll(s);
    h.destroyAll(); h.balance();
}

// bump allocators: a destination is empty with its full capacity afterwards, whatever it held
namespace
{
    template<size_t Size> void bump(Src& s)
    {
        typedef ktl::linear_allocator<Size> A;
        pbt::log("linear<%zu>", Size);
        auto a = std::make_unique<A>(), b = std::make_unique<A>();
        struct L { char* p; size_t n; };
        std::vector<L> la;
        unsigned used = 0;
        for (int i = 0, n = int(s.draw(6)); i < n; i++)
        {
            size_t sz = s.range(0, Size / 2); char* p = (char*)a->allocate(sz);
            pbt::log("a.alloc(%zu)=%s", sz, p ? "ok" : "null");
            if (p) { la.push_back({p, sz}); used++; }
        }
        // some of them are given back, the rest is abandoned by the assignment
        for (size_t i = 0; i < la.size(); ) { if (s.flag()) { pbt::log("a.free(%zu)", la[i].n); a->deallocate(la[i].p, la[i].n); la.erase(la.begin() + i); } else i++; }
        // the source has been used, but has nothing allocated
        if (s.flag()) { size_t sz = s.range(1, Size / 2); void* p = b->allocate(sz); if (p) b->deallocate(p, sz); pbt::log("b used"); }
        if (s.flag(3, 4)) { *a = std::move(*b); pbt::log("a = move b"); }
        else { auto c = std::make_unique<A>(std::move(*b)); a = std::move(c); pbt::log("a(move b)"); }
        if (used) pbt::nontrivial();
        // full capacity in one piece
        size_t full = Size - Size % alignof(std::max_align_t);
        char* p = (char*)a->allocate(full);
        CHECK(p, "a move-assigned linear_allocator<%zu> cannot give out %zu bytes", Size, full);
        CHECK(a->owns(p) && a->owns(p + full - 1), "it does not own its block");
        memset(p, 1, full); a->deallocate(p, full);
        // and it recovers everything, in any order of deallocation
        std::vector<L> v; size_t each = s.range(1, 16 + s.draw(32));
        while (char* q = (char*)a->allocate(each)) { memset(q, int(v.size()), each); v.push_back({q, each}); }
        size_t unit = (each + alignof(std::max_align_t) - 1) / alignof(std::max_align_t) * alignof(std::max_align_t);
        CHECK(v.size() == (Size >= each ? (Size / unit) : 0), "it gave out %zu blocks of %zu bytes", v.size(), each);
        while (!v.empty()) { size_t k = s.draw(v.size()); for (size_t i = 0; i < each; i++) CHECK(v[k].p[i] == v[k].p[0], "blocks overlap"); a->deallocate(v[k].p, each); v.erase(v.begin() + k); }
        p = (char*)a->allocate(full);
        CHECK(p, "after a move assignment and deallocating every block, linear_allocator<%zu> does not recover its %zu bytes", Size, full);
        a->deallocate(p, full);
        // an empty allocator may be moved again (its assertions agree that it is unused)
        auto d = std::make_unique<A>(std::move(*a));
        CHECK(d->allocate(full), "moved allocator is not empty");
    }
}
static void bumpMove(Src& s)
{
    switch (s.draw(3)) { case 0: bump<64>(s); break; case 1: bump<256>(s); break; default: bump<1000>(s); break; }
}
pbt::Prop pbt::props[] = {
    {"moves", moves, 8, "non-trivial if memory was allocated and at least one move construction or assignment was made"},
    {"bumpMove", bumpMove, 1, "non-trivial if the destination had been used"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { resetAll(); }
