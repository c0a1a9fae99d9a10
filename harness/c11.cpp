// C11: builder aliases mean the same as the flat list of allocators
#include "driver.h"
#include "probe.h"
#include <array>
using namespace drv;
using prb::ev;

namespace
{
    template<int K> using L = prb::P<K, leaf::R<K, leaf::OWNS | leaf::MAXS>>;
    template<size_t N> using T = ktl::threshold<N>;

    // ---- segragator builders: a flat list [(threshold, allocator)...], last one without threshold
    template<typename A> void seg(Src& s, const char* name, const std::vector<size_t>& thr)
    {
        pbt::log("%s", name);
        size_t n = thr.size() + 1;
        drawPlans(s, int(n));
        prb::reset();
        auto a = std::make_unique<A>();
        struct B { char* p; size_t n; int k; uint32_t pat; };
        std::vector<B> live; uint32_t pats = 0; std::set<int> used; 
        s.maxSteps = 10 + 4 * s.sizeHint();
        while (s.more(50))
        {
            pbt::Span sp; ev.clear();
            if (s.flag(3, 5))
            {
                size_t sz;
                if (s.flag(2, 3)) { size_t t = thr[s.draw(thr.size())]; sz = t + s.draw(3); sz -= std::min<size_t>(sz, s.draw(3)); }
                else sz = s.draw(thr.back() + 40);
                int want = 0; while (size_t(want) < thr.size() && sz > thr[want]) want++;
                char* p = (char*)a->allocate(sz);
                pbt::log("alloc(%zu)=%s [%s]", sz, p ? "ok" : "null", prb::str().c_str());
                CHECK(ev.size() == 1 && ev[0].k == want && ev[0].n == sz && ev[0].kind != 'F', "a request of %zu bytes must go to allocator %d of the list, but: %s", sz, want, prb::str().c_str());
                CHECK(p == ev[0].p, "the answer was not returned");
                used.insert(want);
                if (!p) { prb::check(); continue; }
                fill(p, sz, ++pats); live.push_back({p, sz, want, pats});
            }
            else if (!live.empty())
            {
                size_t i = s.draw(live.size()); B b = live[i]; live.erase(live.begin() + i);
                a->deallocate(b.p, b.n);
                pbt::log("free(%zu) [%s]", b.n, prb::str().c_str());
                CHECK(ev.size() == 1 && ev[0].kind == 'F' && ev[0].k == b.k && ev[0].n == b.n, "a block of %zu bytes from allocator %d: deallocation resulted in %s", b.n, b.k, prb::str().c_str());
            }
            prb::check();
            for (auto& b : live) CHECK(firstDiff(b.p, b.n, b.pat) == SIZE_MAX, "content changed");
            size_t mx = 0; for (size_t i = 0; i < n; i++) mx = std::max(mx, leaf::plan[i].maxReq);
            CHECK(a->max_size() == mx, "max_size() is %zu, the largest in the list is %zu", a->max_size(), mx);
            for (auto& b : live) CHECK(a->owns(b.p), "a live block is not owned");
        }
        if (used.size() >= 2) pbt::nontrivial();
        if (used.size() == n) pbt::label("every allocator of the list was chosen");
        while (!live.empty()) { B b = live.back(); live.pop_back(); ev.clear(); a->deallocate(b.p, b.n); CHECK(ev.size() == 1 && ev[0].k == b.k, "wrong deallocation: %s", prb::str().c_str()); prb::check(); }
        a.reset(); prb::check();
        CHECK(leaf::liveBlocks() == 0, "memory leaked");
    }
    // ---- fallback builders
    template<typename A> void fal(Src& s, const char* name, size_t n)
    {
        pbt::log("%s", name);
        drawPlans(s, int(n));
        prb::reset();
        auto a = std::make_unique<A>();
        struct B { char* p; size_t n; int k; uint32_t pat; };
        std::vector<B> live; uint32_t pats = 0; std::set<int> used;
        s.maxSteps = 10 + 5 * s.sizeHint();
        while (s.more(60))
        {
            pbt::Span sp; ev.clear();
            if (s.flag(3, 5))
            {
                size_t sz = s.flag(1, 8) ? drawSize(s) : s.range(0, 400);
                char* p = (char*)a->allocate(sz);
                pbt::log("alloc(%zu)=%s [%s]", sz, p ? "ok" : "null", prb::str().c_str());
                size_t i = 0;
                for (; i < ev.size(); i++)
                {
                    CHECK(ev[i].k == int(i) && ev[i].n == sz && ev[i].kind != 'F', "the allocators were not tried in the order listed: %s", prb::str().c_str());
                    if (ev[i].kind == 'A') break;
                }
                CHECK(ev.size() == std::min(i + 1, n), "expected the allocators to be tried until one succeeds: %s", prb::str().c_str());
                CHECK(p == ev.back().p, "the answer was not returned");
                if (!p) { CHECK(ev.size() == n, "null although not every allocator was tried: %s", prb::str().c_str()); prb::check(); continue; }
                used.insert(ev.back().k);
                fill(p, sz, ++pats); live.push_back({p, sz, ev.back().k, pats});
            }
            else if (!live.empty())
            {
                size_t i = s.draw(live.size()); B b = live[i]; live.erase(live.begin() + i);
                a->deallocate(b.p, b.n);
                pbt::log("free(%zu) [%s]", b.n, prb::str().c_str());
                CHECK(ev.size() == 1 && ev[0].kind == 'F' && ev[0].k == b.k && ev[0].n == b.n, "a block of %zu bytes from allocator %d: deallocation resulted in %s", b.n, b.k, prb::str().c_str());
            }
            prb::check();
            for (auto& b : live) { CHECK(firstDiff(b.p, b.n, b.pat) == SIZE_MAX, "content changed"); CHECK(a->owns(b.p), "a live block is not owned"); }
            size_t mx = 0; for (size_t i = 0; i < n; i++) mx = std::max(mx, leaf::plan[i].maxReq);
            CHECK(a->max_size() == mx, "max_size() is %zu, the largest in the list is %zu", a->max_size(), mx);
        }
        if (used.size() >= 2) pbt::nontrivial();
        if (used.size() >= 3) pbt::label("three or more allocators of the list served");
        while (!live.empty()) { B b = live.back(); live.pop_back(); ev.clear(); a->deallocate(b.p, b.n); CHECK(ev.size() == 1 && ev[0].k == b.k, "wrong deallocation: %s", prb::str().c_str()); prb::check(); }
        a.reset(); prb::check();
        CHECK(leaf::liveBlocks() == 0, "memory leaked");
    }
    static const std::vector<size_t> all = { 8, 24, 32, 100, 101, 256, 300, 512, 1000 };
    std::vector<size_t> first(size_t n) { return { all.begin(), all.begin() + n }; }
}
#define S2 L<0>, T<8>, L<1>
#define S3 S2, T<24>, L<2>
#define S4 S3, T<32>, L<3>
#define S5 S4, T<100>, L<4>
#define S6 S5, T<101>, L<5>
#define S7 S6, T<256>, L<6>
#define S8 S7, T<300>, L<7>
#define S9 S8, T<512>, L<8>
#define S10 S9, T<1000>, L<9>
#define F2 L<0>, L<1>
#define F3 F2, L<2>
#define F4 F3, L<3>
#define F5 F4, L<4>
#define F6 F5, L<5>
#define F7 F6, L<6>
#define F8 F7, L<7>
#define F9 F8, L<8>
#define F10 F9, L<9>
static void segragators(Src& s)
{
    bool max = s.flag();
#define C(N) case N: if (max) seg<ktl::segragator_builder_max<S##N>>(s, "segragator_builder_max of " #N, first(N - 1)); else seg<ktl::segragator_builder_min<S##N>>(s, "segragator_builder_min of " #N, first(N - 1)); break;
    switch (s.range(2, 10)) { C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) }
#undef C
}
static void fallbacks(Src& s)
{
    bool max = s.flag();
#define C(N) case N: if (max) fal<ktl::fallback_builder_max<F##N>>(s, "fallback_builder_max of " #N, N); else fal<ktl::fallback_builder_min<F##N>>(s, "fallback_builder_min of " #N, N); break;
    switch (s.range(2, 10)) { C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) }
#undef C
}
static_assert(std::is_same_v<ktl::segragator_builder_min<L<0>>, L<0>> && std::is_same_v<ktl::fallback_builder_max<L<0>>, L<0>>, "a list of one is that allocator");
pbt::Prop pbt::props[] = {
    {"segragators", segragators, 1, "non-trivial if at least two allocators of the list were chosen"},
    {"fallbacks", fallbacks, 1, "non-trivial if at least two allocators of the list served requests"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { resetAll(); }
