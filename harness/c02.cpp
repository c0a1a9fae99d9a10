// C02: blocks go back to the upstream they came from, once, with the same size
#include "driver.h"
#include "scale.h"
#include <sys/mman.h>
#include <map>
using namespace drv;

// Histories with several instances, copies of handles, and refusals by the leaves. The leaf doubles detect
// foreign, double and wrong-size deallocation and destruction with live blocks at the moment it happens.
static void upstream(Src& s)
{
    drawPlans(s);
    History h(drawEntry(s)); bool corrupt = h.e.guarded && s.flag(1, 3);
    std::vector<int> group; std::vector<bool> dead; int groups = 0;
    auto fresh = [&] { h.create(); group.push_back(groups++); dead.push_back(false); };
    fresh(); if (s.flag(1, 3)) fresh();
    s.maxSteps = 20 + 4 * s.sizeHint();
    unsigned copies = 0, deaths = 0;
    auto pickInst = [&] { std::vector<int> a; for (size_t i = 0; i < h.inst.size(); i++) if (!dead[i]) a.push_back(int(i)); return a[s.draw(a.size())]; };
    auto dealloc = [&](size_t k)
    {
        // through the instance it came from or any live handle of the same group
        std::vector<int> c;
        for (size_t i = 0; i < h.inst.size(); i++) if (!dead[i] && group[i] == group[h.live[k].inst]) c.push_back(int(i));
        h.live[k].inst = c[s.draw(c.size())];
        // a report about modified guard bytes is no reason to keep the block
        if (corrupt && s.flag())
        {
            auto& l = h.live[k]; size_t d = s.draw(64); bool after = s.flag(); char* b = after ? l.p + l.n + d : l.p - 1 - d;
            pbt::log("byte %zu %s it modified", d, after ? "after" : "before"); *b = char(*b ^ (1 + s.draw(255))); h.corrupted = true;
        }
        h.deallocate(k);
    };
    while (s.more(40))
    {
        pbt::Span sp;
        static const unsigned w[] = { 8, 6, 2, 1, 1 };
        switch (s.pick(w))
        {
        case 0: h.allocate(pickInst(), drawSize(s)); break;
        case 1: if (!h.live.empty()) dealloc(h.pickLive(s)); break;
        case 2:  // another handle
            if (h.e.handle && h.e.copyable && h.inst.size() < 8)
            {
                int i = pickInst();
                pbt::log("#%zu=copy #%d", h.inst.size(), i);
                h.inst.push_back(h.inst[i]->copy()); group.push_back(group[i]); dead.push_back(false); copies++;
                h.step();
            }
            break;
        case 3:  // destroy an instance that is not needed any more
        {
            int i = pickInst(); bool needed = false, other = false, any = false;
            for (auto& l : h.live) needed |= group[l.inst] == group[i];
            for (size_t k = 0; k < h.inst.size(); k++) if (int(k) != i && !dead[k]) { any = true; other |= group[k] == group[i]; }
            if (!any || (needed && !other)) break;
            pbt::log("destroy #%d", i);
            delete h.inst[i]; h.inst[i] = nullptr; dead[i] = true; deaths++;
            h.step(); h.verify();
            break;
        }
        default: if (h.inst.size() < 8) { fresh(); pbt::log("#%zu=new", h.inst.size() - 1); } break;
        }
    }
    if (h.allocs >= 2 && h.deallocs >= 1) pbt::nontrivial();
    if (copies) pbt::label("handle copied");
    if (deaths) pbt::label("instance destroyed mid-history");
    if (h.corrupted) pbt::label("guard bytes modified");
    if (h.refusals) pbt::label("some refusals");
    unsigned mode = unsigned(s.draw(3));
    while (!h.live.empty()) dealloc(mode == 0 ? h.live.size() - 1 : mode == 1 ? 0 : s.draw(h.live.size()));
    // destroy in any order
    std::vector<int> order; for (size_t i = 0; i < h.inst.size(); i++) if (!dead[i]) order.push_back(int(i));
    while (!order.empty()) { size_t k = s.draw(order.size()); delete h.inst[order[k]]; h.inst[order[k]] = nullptr; order.erase(order.begin() + k); h.step(); }
    h.destroyAll(); h.balance();
}
// Blocks of several GiB, of which only the touched pages exist
namespace vast
{
    struct Map { size_t n, bytes; int id; };
    std::map<char*, Map> maps; const char* error = nullptr; size_t served;
    template<int ID> struct L
    {
        L() noexcept = default; L(const L&) noexcept = default; L& operator=(const L&) noexcept = default;
        bool operator==(const L&) const noexcept { return true; }
        bool operator!=(const L&) const noexcept { return false; }
        void* allocate(size_t n) noexcept
        {
            if (n > size_t(1) << 37) return nullptr;
            size_t bytes = n + 1; void* p = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED) return nullptr;
            maps[(char*)p] = {n, bytes, ID}; served++; return p;
        }
        void deallocate(void* p, size_t n) noexcept
        {
            auto i = maps.find((char*)p); if (i == maps.end()) { error = "a block came back that is not live"; return; }
            if (i->second.n != n) error = "a block came back with another size";
            if (i->second.id != ID) error = "a block came back to another allocator";
            munmap(p, i->second.bytes); maps.erase(i);
        }
        bool owns(void* p) const noexcept { auto i = maps.upper_bound((char*)p); if (i == maps.begin()) return false; --i; return i->second.id == ID && (char*)p < i->first + i->second.bytes; }
    };
    void reset() { for (auto& [p, m] : maps) munmap(p, m.bytes); maps.clear(); error = nullptr; served = 0; }
    constexpr size_t G = size_t(1) << 30;
    size_t draw(Src& s)
    {
        switch (s.draw(4))
        {
        case 0: return s.range(1, 100);
        case 1: return s.range(1, 9) * G + s.draw(300) - 150;
        case 2: return (size_t(1) << s.range(30, 35)) + s.draw(300) - 150;
        default: return s.range(1, 6 * G);
        }
    }
    template<typename T, typename A> void run(Src& s, const char* name)
    {
        pbt::log("%s of %zu bytes", name, sizeof(T)); size_t big = 0, back = 0;
        {
            auto a = std::make_unique<A>(); struct B { char* p; size_t n; }; std::vector<B> live;
            auto take = [&](size_t n) -> char*
            {
                if constexpr (sizeof(T) == 1) return (char*)a->allocate(n); else return (char*)a->allocate(n / sizeof(T) + 1);
            };
            auto give = [&](char* p, size_t n)
            {
                if constexpr (sizeof(T) == 1) a->deallocate(p, n); else a->deallocate((T*)p, n / sizeof(T) + 1);
                back++; CHECK(!error, "%s", error);
            };
            s.maxSteps = 14;
            while (s.more(10))
            {
                pbt::Span sp;
                if (live.size() < 4 && s.flag(3, 5))
                {
                    size_t n = draw(s); char* p = take(n); pbt::log("alloc(%zu)=%s", n, p ? "ok" : "null"); if (!p) continue;
                    if (sizeof(T) > 1) n = (n / sizeof(T) + 1) * sizeof(T) - 1;
                    auto i = maps.upper_bound(p); bool in = i != maps.begin(); if (in) --i;
                    CHECK(in && p >= i->first && p + n <= i->first + i->second.n, "a block of %zu bytes does not lie inside a block of an underlying allocator", n);
                    for (auto& b : live) CHECK(p + n <= b.p || b.p + b.n <= p, "two live blocks overlap");
                    p[0] = 1; p[n - 1] = 2; live.push_back({p, n}); big += n > 4 * G;
                }
                else if (!live.empty()) { size_t k = s.draw(live.size()); B b = live[k]; live.erase(live.begin() + k); CHECK(b.p[b.n - 1] == 2, "the content of a live block changed"); pbt::log("free(%zu)", b.n); give(b.p, b.n); }
            }
            while (!live.empty()) { give(live.back().p, live.back().n); live.pop_back(); }
        }
        CHECK(!error, "%s", error); CHECK(maps.empty(), "%zu blocks were never given back", maps.size());
        CHECK(zoo::sink().text.empty(), "overflow reported: %s", zoo::sink().text.c_str());
        if (big && back) pbt::nontrivial();
    }
}
static void wide(Src& s)
{
    using namespace ktl; using vast::L; using vast::G; typedef char C; struct S3 { char c[3]; }; struct S48 { char c[48]; };
    void* p = mmap(nullptr, size_t(1) << 39, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return;
    munmap(p, size_t(1) << 39);
#define W(T, ...) vast::run<T, __VA_ARGS__>(s, #__VA_ARGS__); break
    switch (s.draw(16))
    {
    case 0: W(S3, type_allocator<S3, L<0>>);
    case 1: W(S48, type_shared<S48, L<0>>);
    case 2: W(C, freelist<0, 6 * G, L<0>>);
    case 3: W(C, freelist<5 * G, 9 * G, L<0>>);
    case 4: W(C, segragator<5 * G, L<0>, L<1>>);
    case 5: W(C, segragator<5 * G, freelist<0, 5 * G, L<0>>, L<1>>);
    case 6: W(C, fallback<freelist<0, 4 * G + 16, L<0>>, L<1>>);
    case 7: W(C, cascading<L<0>>);
    case 8: W(C, zoo::doverflow<L<0>>);
    case 9: W(C, threaded<zoo::doverflow<L<0>>>);
    case 10: W(C, shared<fallback<freelist<2 * G, 5 * G, L<0>>, L<1>>>);
    case 11: W(C, global<L<0>>);
    case 12: W(S3, type_allocator<S3, global<segragator<4 * G, L<0>, L<1>>>>);
    case 13: W(S48, type_shared<S48, zoo::doverflow<cascading<L<0>>>>);
    case 14: W(C, freelist<0, 5 * G, cascading<L<0>>>);
    default: W(S48, type_atomic_shared<S48, threaded<L<0>>>);
    }
#undef W
}
static void many(Src& s) { scale::blocks(s); }
pbt::Prop pbt::props[] = {
    {"upstream", upstream, 400, "a history over one zoo composition is non-trivial if at least two blocks were obtained and at least one was deallocated before the final release of everything"},
    {"many", many, 1, "thousands of blocks; non-trivial if at least 100 were live at once"},
    {"wide", wide, 20, "blocks of several GiB; non-trivial if one of more than 4 GiB was handed out and one was given back"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { resetAll(); vast::reset(); }
