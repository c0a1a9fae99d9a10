// C07: freelist serves only its size range and reuses freed blocks first
#include "driver.h"
#include "scale.h"
using namespace drv;

namespace
{
    template<size_t Min, size_t Max, typename L> void run(Src& s, const char* name, bool sharedLeaf)
    {
        typedef ktl::freelist<Min, Max, L> F;
        pbt::log("freelist<%zu,%zu,%s>", Min, Max, name);
        drawPlans(s, 1);
        if (leaf::plan[0].maxReq < Max && s.flag(3, 4)) leaf::plan[0].maxReq = Max;
        leaf::recording = true;
        struct I { std::unique_ptr<F> f; std::vector<char*> freed; bool moved = false; };
        struct B { char* p; size_t n; uint32_t pat; size_t inst; };
        std::vector<I> is; std::vector<B> live; uint32_t pats = 0;
        unsigned reused = 0, outOfRange = 0, refusedInRange = 0, returns = 0;
        auto count = [&](leaf::Kind k) { size_t n = 0; for (auto& e : leaf::events) n += e.kind == k; return n; };
        auto quiet = [&](const char* what)
        {
            CHECK(count(leaf::Alloc) + count(leaf::Refuse) == 0, "%s asked the underlying allocator for memory", what);
            CHECK(count(leaf::Dealloc) == 0, "%s gave a block back to the underlying allocator", what);
        };
        auto verify = [&] { leaf::checkErrors(); for (auto& b : live) { size_t d = firstDiff(b.p, b.n, b.pat); CHECK(d == SIZE_MAX, "content of a live block of %zu bytes changed at %zu", b.n, d); } };
        // all free blocks of an instance went back: exactly these deallocations happened
        auto returned = [&](std::vector<char*> want, const char* what)
        {
            std::vector<char*> got; for (auto& e : leaf::events) if (e.kind == leaf::Dealloc) got.push_back((char*)e.p);
            std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
            CHECK(got == want, "%s gave %zu blocks back to the underlying allocator, %zu were free", what, got.size(), want.size());
            if (!want.empty()) returns++;
        };
        auto fresh = [&] { leaf::events.clear(); is.emplace_back(); is.back().f = std::make_unique<F>(); quiet("construction"); };
        fresh();
        s.maxSteps = 10 + 4 * s.sizeHint();
        while (s.more(50))
        {
            pbt::Span sp;
            std::vector<size_t> ok; for (size_t i = 0; i < is.size(); i++) if (!is[i].moved) ok.push_back(i);
            if (ok.empty()) { fresh(); continue; }
            size_t i = ok[s.draw(ok.size())];
            auto hasLive = [&](size_t x) { for (auto& b : live) if (b.inst == x) return true; return false; };
            static const unsigned w[] = { 10, 8, 1, 2, 1, 1 };
            leaf::events.clear();
            switch (s.pick(w))
            {
            case 0:
            {
                size_t n;
                switch (s.draw(6))
                {
                case 0: case 1: n = Min < Max ? s.range(Min + 1, Max) : Max; break;
                case 2: n = Max; break;
                case 3: n = Min + s.range(0, 1); break;
                case 4: n = Max + s.range(1, 3); break;
                default: n = s.flag(1, 3) ? drawGiant(s) : s.range(0, Max * 2); break;
                }
                bool in = n > Min && n <= Max;
                char* p = (char*)is[i].f->allocate(n);
                pbt::log("#%zu.alloc(%zu)=%s", i, n, p ? "ok" : "null");
                CHECK(count(leaf::Dealloc) == 0, "allocate gave a block back to the underlying allocator");
                if (!in) { CHECK(!p, "a request of %zu bytes was served", n); quiet("a request outside the range"); outOfRange++; break; }
                auto& fr = is[i].freed;
                if (!fr.empty())
                {
                    CHECK(count(leaf::Alloc) + count(leaf::Refuse) == 0, "%zu free blocks were available, but the underlying allocator was asked", fr.size());
                    CHECK(p, "null although %zu free blocks are available", fr.size());
                    auto it = std::find(fr.begin(), fr.end(), p);
                    CHECK(it != fr.end(), "the block handed out is not one of the free blocks");
                    fr.erase(it); reused++;
                }
                else
                {
                    CHECK(count(leaf::Alloc) + count(leaf::Refuse) == 1, "the underlying allocator was asked %zu times", count(leaf::Alloc) + count(leaf::Refuse));
                    auto& e = leaf::events[0];
                    for (auto& x : leaf::events) if (x.kind == leaf::Alloc || x.kind == leaf::Refuse) e = x;
                    CHECK(e.n >= Max, "only %zu bytes were requested from the underlying allocator", e.n);
                    if (e.kind == leaf::Refuse) { CHECK(!p, "served although the underlying allocator refused"); refusedInRange++; break; }
                    CHECK(p, "null although the underlying allocator served the request");
                    CHECK(leaf::inBlock(p, Max), "the block does not hold Max bytes");
                }
                CHECK(uintptr_t(p) % alignof(std::max_align_t) == 0, "misaligned");
                for (auto& b : live) CHECK(b.p != p, "a live block was handed out again");
                fill(p, n, ++pats); live.push_back({p, n, pats, i});
                break;
            }
            case 1:
                if (!live.empty())
                {
                    size_t k = s.flag() ? live.size() - 1 : s.draw(live.size()); B b = live[k];
                    live.erase(live.begin() + k);
                    // the size may be any size the block could have been asked for with
                    pbt::log("#%zu.free(%zu)", b.inst, b.n);
                    is[b.inst].f->deallocate(b.p, b.n);
                    quiet("deallocate");
                    is[b.inst].freed.push_back(b.p);
                }
                break;
            case 2: if (is.size() < 5) { fresh(); pbt::log("#%zu=new", is.size() - 1); } break;
            case 3:
                if (!hasLive(i) && is.size() > 1)
                {
                    pbt::log("destroy #%zu", i);
                    is[i].f.reset(); is[i].moved = true;
                    returned(is[i].freed, "destruction"); is[i].freed.clear();
                }
                break;
            case 4:   // the underlying allocator moves along: allowed while the list is empty, or always for a handle
                if (sharedLeaf || is[i].freed.empty())
                {
                    if (is.size() >= 6) break;
                    is.emplace_back(); is.back().f = std::make_unique<F>(std::move(*is[i].f)); size_t j = is.size() - 1;
                    pbt::log("#%zu=move #%zu", j, i);
                    quiet("move construction");
                    is[j].freed = std::move(is[i].freed); is[i].freed.clear(); is[i].moved = true;
                    for (auto& b : live) if (b.inst == i) b.inst = j;
                }
                break;
            default:
            {
                std::vector<size_t> dst; for (size_t x = 0; x < is.size(); x++) if (is[x].f && x != i && !hasLive(x)) dst.push_back(x);
                if (dst.empty() || !(sharedLeaf || is[i].freed.empty())) break;
                size_t j = dst[s.draw(dst.size())];
                pbt::log("#%zu=move-assign #%zu", j, i);
                *is[j].f = std::move(*is[i].f);
                returned(is[j].freed, "being assigned over");
                is[j].freed = std::move(is[i].freed); is[i].freed.clear(); is[i].moved = true; is[j].moved = false;
                for (auto& b : live) if (b.inst == i) b.inst = j;
                break;
            }
            }
            verify();
        }
        if (reused && pats >= 3) pbt::nontrivial();
        if (outOfRange) pbt::label("requests outside the range");
        if (refusedInRange) pbt::label("underlying refusal");
        if (returns) pbt::label("free blocks returned mid-history");
        while (!live.empty()) { B b = live.back(); live.pop_back(); leaf::events.clear(); is[b.inst].f->deallocate(b.p, b.n); quiet("deallocate"); is[b.inst].freed.push_back(b.p); verify(); }
        for (auto& x : is) { leaf::events.clear(); bool was = x.f != nullptr; x.f.reset(); if (was) returned(x.freed, "destruction"); leaf::checkErrors(); }
        CHECK(leaf::liveBlocks() == 0, "blocks leaked");
    }

    // over allocators of the library instead of test doubles: reuse is visible as address equality
    template<typename F, size_t Min, size_t Max> void lib(Src& s, const char* name)
    {
        pbt::log("%s", name);
        auto f = std::make_unique<F>();
        struct B { char* p; size_t n; uint32_t pat; };
        std::vector<B> live; std::vector<char*> freed; uint32_t pats = 0; unsigned reused = 0;
        s.maxSteps = 10 + 3 * s.sizeHint();
        while (s.more(40))
        {
            pbt::Span sp;
            if (s.flag(3, 5))
            {
                size_t n = s.range(0, Max + 2);
                bool in = n > Min && n <= Max;
                size_t hb = heap::liveBlocks(); uint64_t hc = heap::calls();
                char* p = (char*)f->allocate(n);
                pbt::log("alloc(%zu)=%s", n, p ? "ok" : "null");
                if (!in) { CHECK(!p, "a request of %zu bytes was served", n); CHECK(heap::calls() == hc, "the heap was asked"); continue; }
                if (!freed.empty())
                {
                    auto it = std::find(freed.begin(), freed.end(), p);
                    CHECK(p && it != freed.end(), "not served by one of the %zu free blocks", freed.size());
                    CHECK(heap::calls() == hc && heap::liveBlocks() == hb, "the heap was asked although free blocks are available");
                    freed.erase(it); reused++;
                }
                if (!p) continue;
                for (auto& b : live) CHECK(p + n <= b.p || b.p + b.n <= p, "overlap");
                fill(p, n, ++pats); live.push_back({p, n, pats});
            }
            else if (!live.empty())
            {
                size_t k = s.draw(live.size()); B b = live[k]; live.erase(live.begin() + k);
                size_t hb = heap::liveBlocks();
                pbt::log("free(%zu)", b.n);
                f->deallocate(b.p, b.n); freed.push_back(b.p);
                CHECK(heap::liveBlocks() == hb, "a freed block went back to the heap before the freelist was destroyed");
            }
            for (auto& b : live) CHECK(firstDiff(b.p, b.n, b.pat) == SIZE_MAX, "content of a live block changed");
        }
        for (auto& b : live) f->deallocate(b.p, b.n);
        f.reset();
        CHECK(heap::liveBlocks() == g_heapBase, "heap blocks leaked");
        if (reused) pbt::nontrivial();
    }
}
static void range(Src& s)
{
    switch (s.draw(9))
    {
    case 0: run<0, 16, leaf::R<0, 0>>(s, "leaf", false); break;
    case 1: run<8, 64, leaf::R<0, leaf::ALL>>(s, "leaf", false); break;
    case 2: run<15, 48, leaf::H<0, 0>>(s, "handle leaf", true); break;
    case 3: run<0, 8, leaf::H<0, leaf::ALL>>(s, "handle leaf", true); break;
    case 4: run<32, 64, leaf::R<0, leaf::OWNS>>(s, "leaf", false); break;
    case 5: run<64, 64, leaf::R<0, 0>>(s, "leaf", false); break;
    case 6: run<0, 1000, leaf::H<0, 0>>(s, "handle leaf", true); break;
    case 7: run<20, 25, leaf::R<0, 0>>(s, "leaf", false); break;
    default: run<1, 33, leaf::H<0, leaf::OWNS>>(s, "handle leaf", true); break;
    }
}
static void overLibrary(Src& s)
{
    using namespace ktl;
    switch (s.draw(4))
    {
    case 0: lib<freelist<0, 16, mallocator>, 0, 16>(s, "freelist<0,16,mallocator>"); break;
    case 1: lib<freelist<16, 48, linear_allocator<512>>, 16, 48>(s, "freelist<16,48,linear<512>>"); break;
    case 2: lib<freelist<0, 100, cascading<linear_allocator<256>>>, 0, 100>(s, "freelist<0,100,cascading<linear<256>>>"); break;
    default: lib<freelist<8, 64, fallback<linear_allocator<128>, mallocator>>, 8, 64>(s, "freelist<8,64,fallback<linear<128>,mallocator>>"); break;
    }
}
static void many(Src& s) { switch (s.draw(4)) { case 0: scale::freelist<0, 16>(s); break; case 1: scale::freelist<8, 64>(s); break; case 2: scale::freelist<31, 33>(s); break; default: scale::freelist<0, 200>(s); break; } }
pbt::Prop pbt::props[] = {
    {"range", range, 2400, "non-trivial if at least three blocks were handed out and one of them was a reused one"},
    {"overLibrary", overLibrary, 800, "non-trivial if a freed block was reused"},
    {"many", many, 1, "thousands of blocks; non-trivial if blocks were reused and at least 100 were live at once"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { resetAll(); }
