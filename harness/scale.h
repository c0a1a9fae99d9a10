// Histories with thousands of blocks, elements or handles: nothing in the library may depend on how many there are.
// Everything is checked as it happens where that is cheap, and everything else at the end of each phase.
#pragma once
#include "driver.h"
#include "cont.h"
#include <map>
#include <set>

namespace scale
{
    using pbt::Src; using drv::fill; using drv::firstDiff;
    inline size_t many(Src& s, size_t max)      // log-uniform, so that every order of magnitude occurs
    {
        size_t top = 2; while (top < max && s.draw(9)) top *= 2;
        return s.range(top / 2, std::min(top, max));
    }
    // an order in which to take n things apart
    inline std::vector<size_t> order(Src& s, size_t n)
    {
        std::vector<size_t> o(n); for (size_t i = 0; i < n; i++) o[i] = i;
        switch (s.draw(4))
        {
        case 0: break;
        case 1: std::reverse(o.begin(), o.end()); break;
        case 2: { size_t k = s.range(2, 7); std::stable_sort(o.begin(), o.end(), [&](size_t a, size_t b) { return a % k < b % k; }); break; }
        default: { uint64_t r = s.bits() | 1; for (size_t i = n; i > 1; i--) { r = r * 6364136223846793005ull + 1442695040888963407ull; std::swap(o[i - 1], o[(r >> 33) % i]); } break; }
        }
        return o;
    }
    struct Block { char* p; size_t n; uint32_t pat; int inst; };

    // ---- any composition: C01 (contents, alignment, disjointness), C02 (blocks go back)
    inline void blocks(Src& s)
    {
        drv::History h(drv::drawEntry(s)); h.create(); h.create();
        std::vector<Block> live; std::map<char*, char*> used; uint32_t pats = 0; size_t peak = 0, gone = 0;
        auto release = [&](size_t keep)
        {
            auto o = order(s, live.size()); std::vector<Block> rest;
            for (size_t i = 0; i < o.size(); i++)
            {
                Block& b = live[o[i]]; if (i >= o.size() - std::min(keep, o.size())) { rest.push_back(b); continue; }
                CHECK(firstDiff(b.p, b.n, b.pat) == SIZE_MAX, "content of a live block of %zu bytes changed while %zu are live", b.n, live.size());
                if (b.n) used.erase(b.p);
                h.inst[b.inst]->deallocate(b.p, b.n); gone++; h.step();
            }
            live = rest;
        };
        for (size_t phase = s.range(1, 4); phase--; )
        {
            pbt::Span sp;
            size_t k = many(s, 3000), sizes[3] = { drv::drawSize(s) % 600, s.range(0, 64), s.range(1, 300) }; bool mix = s.flag(); int inst = int(s.draw(3));
            size_t ok = 0, refused = 0;
            for (size_t i = 0; i < k && refused < 50; i++)
            {
                size_t n = sizes[mix ? i % 3 : 0]; int at = inst == 2 ? int(i & 1) : inst;
                char* p = (char*)h.inst[at]->allocate(n); h.step();
                if (!p) { refused++; continue; }
                ok++;
                CHECK((uintptr_t(p) % alignof(std::max_align_t)) == 0, "block of %zu bytes at %p is not aligned", n, (void*)p);
                if (n)
                {
                    auto it = used.upper_bound(p + n - 1);
                    if (it != used.begin()) { --it; CHECK(it->second <= p, "a new block of %zu bytes overlaps a live one (%zu are live)", n, live.size()); }
                    used[p] = p + n;
                }
                fill(p, n, ++pats); live.push_back({p, n, pats, at});
            }
            peak = std::max(peak, live.size());
            pbt::log("%zu blocks of %zu,.. (%zu refused), %zu live", ok, sizes[0], refused, live.size());
            for (auto& b : live) CHECK(firstDiff(b.p, b.n, b.pat) == SIZE_MAX, "content of a live block of %zu bytes changed while %zu are live", b.n, live.size());
            size_t keep = s.flag() ? 0 : many(s, live.size() + 1); release(keep); pbt::log("all but %zu freed", live.size());
        }
        release(0);
        if (peak >= 100) pbt::nontrivial();
        if (peak >= 1000) pbt::label("1000+ live blocks");
        h.destroyAll(); h.balance();
    }

    // ---- freelist (C07)
    template<size_t Min, size_t Max> void freelist(Src& s)
    {
        typedef leaf::H<0, leaf::OWNS> L; typedef ktl::freelist<Min, Max, L> F;
        pbt::log("freelist<%zu,%zu,leaf>", Min, Max);
        auto f = std::make_unique<F>(); std::vector<Block> live; std::set<char*> freed, all; uint32_t pats = 0; size_t peak = 0, reused = 0;
        for (size_t phase = s.range(2, 5); phase--; )
        {
            pbt::Span sp; size_t k = many(s, 1 << 17);
            for (size_t i = 0; i < k; i++)
            {
                size_t n = Min + 1 + i % (Max - Min); auto before = leaf::stat[0].allocs;
                char* p = (char*)f->allocate(n); CHECK(p, "a request of %zu bytes was refused", n);
                if (!freed.empty()) { CHECK(freed.count(p) && leaf::stat[0].allocs == before, "a request was not served by one of the %zu free blocks", freed.size()); freed.erase(p); reused++; }
                else CHECK(leaf::stat[0].allocs == before + 1 && all.insert(p).second, "a request was not served by the underlying allocator");
                fill(p, n, ++pats); live.push_back({p, n, pats, 0});
            }
            peak = std::max(peak, live.size()); pbt::log("%zu blocks", k);
            size_t keep = s.flag() ? 0 : many(s, live.size() + 1); auto o = order(s, live.size()); std::vector<Block> rest;
            for (size_t i = 0; i < o.size(); i++)
            {
                Block& b = live[o[i]]; if (i + keep >= o.size()) { rest.push_back(b); continue; }
                CHECK(firstDiff(b.p, b.n, b.pat) == SIZE_MAX, "content of a live block changed");
                f->deallocate(b.p, b.n); freed.insert(b.p);
            }
            live = rest; leaf::checkErrors(); CHECK(leaf::stat[0].deallocs == 0, "a free block went back to the underlying allocator although %zu are free", freed.size());
            CHECK(leaf::liveBlocks() == all.size(), "%zu blocks are held, expected %zu", leaf::liveBlocks(), all.size()); pbt::log("all but %zu freed", live.size());
        }
        for (auto& b : live) f->deallocate(b.p, b.n);
        if (s.flag()) { F g(std::move(*f)); f.reset(); CHECK(leaf::liveBlocks() == all.size(), "moving or destroying the source released blocks"); f = std::make_unique<F>(std::move(g)); }
        f.reset(); leaf::checkErrors(); CHECK(leaf::liveBlocks() == 0, "%zu of %zu blocks were not given back", leaf::liveBlocks(), all.size());
        if (reused && peak >= 100) pbt::nontrivial();
    }

    // ---- cascading (C08): N instances at once
    template<size_t Size> struct Count
    {
        static inline size_t made, alive, peak; static inline std::string err;
        Count() { made++; alive++; if (alive > peak) peak = alive; }
        Count(const Count&) = delete; Count& operator=(const Count&) = delete;
        ~Count() { alive--; if (m_Live && err.empty()) err = "an instance was destroyed while it has live blocks"; }
        bool operator==(const Count& o) const noexcept { return this == &o; }
        bool operator!=(const Count& o) const noexcept { return this != &o; }
        void* allocate(size_t n) noexcept { void* p = m_A.allocate(n); if (p) m_Live++; return p; }
        void deallocate(void* p, size_t n) noexcept { if (!m_A.owns(p) && err.empty()) err = "a block was deallocated into another instance"; m_Live--; m_A.deallocate(p, n); }
        bool owns(void* p) const noexcept { return m_A.owns(p); }
    private:
        ktl::linear_allocator<Size> m_A; size_t m_Live = 0;
    };
    template<size_t Size> void cascading(Src& s)
    {
        typedef scale::Count<Size> Count; typedef ktl::cascading<Count> C; constexpr bool Wide = Size > 1 << 16; Count::made = Count::alive = Count::peak = 0; Count::err.clear();
        auto c = std::make_unique<C>(); std::vector<Block> live; uint32_t pats = 0; size_t per = Wide ? Size / 16 : size_t(1) << s.draw(3);
        pbt::log("cascading<linear<%zu>>, %zu blocks per instance", Size, per);
        for (size_t phase = s.range(1, 3); phase--; )
        {
            pbt::Span sp; size_t k = many(s, Wide ? 300000 : 1500);
            for (size_t i = 0; i < k; i++)
            {
                char* p = (char*)c->allocate(Size / per); CHECK(p, "a request that a fresh instance serves was refused with %zu instances alive", Count::alive);
                CHECK(c->owns(p), "a new block is not owned");
                fill(p, Size / per, ++pats); live.push_back({p, Size / per, pats, 0});
            }
            pbt::log("%zu blocks, %zu instances", k, Count::alive);
            size_t keep = s.flag() ? 0 : many(s, live.size() + 1); auto o = order(s, live.size()); std::vector<Block> rest;
            for (size_t i = 0; i < o.size(); i++)
            {
                Block& b = live[o[i]]; if (i + keep >= o.size()) { rest.push_back(b); continue; }
                CHECK(firstDiff(b.p, b.n, b.pat) == SIZE_MAX, "content of a live block changed");
                if (!(i & 15)) CHECK(c->owns(b.p), "a live block is not owned with %zu instances alive", Count::alive);
                c->deallocate(b.p, b.n); { std::string e = Count::err; CHECK(e.empty(), "%s", e.c_str()); }
            }
            live = rest; pbt::log("all but %zu freed, %zu instances", live.size(), Count::alive);
            CHECK(Count::alive <= live.size() + 1, "%zu instances are kept for %zu blocks", Count::alive, live.size());
            for (auto& b : live) CHECK(firstDiff(b.p, b.n, b.pat) == SIZE_MAX, "content of a live block changed");
        }
        for (auto& b : live) c->deallocate(b.p, b.n);
        std::string e = Count::err; CHECK(e.empty(), "%s", e.c_str()); CHECK(Count::alive <= 1, "%zu instances are kept although nothing is allocated", Count::alive);
        c.reset(); CHECK(Count::alive == 0, "%zu instances were not destroyed", Count::alive); CHECK(heap::liveBlocks() == drv::g_heapBase, "memory leaked");
        if (Wide ? Count::peak >= 2 : Count::peak >= 50) pbt::nontrivial();
        if (Count::peak >= 500) pbt::label("500+ instances");
    }

    // ---- handles (C14)
    struct Only { static inline int alive; Only() { alive++; } Only(const Only&) = delete; Only& operator=(const Only&) = delete; ~Only() { alive--; } bool operator==(const Only& o) const noexcept { return this == &o; } bool operator!=(const Only& o) const noexcept { return this != &o; }
        void* allocate(size_t n) noexcept { return m_A.allocate(n); } void deallocate(void* p, size_t n) noexcept { m_A.deallocate(p, n); } ktl::mallocator m_A; };
    template<typename H> void handles(Src& s, const char* name)
    {
        Only::alive = 0; std::vector<std::unique_ptr<H>> hs; hs.push_back(std::make_unique<H>());
        size_t k = many(s, 1 << 17); pbt::log("%s: %zu handles", name, k);
        auto o = order(s, k);
        for (size_t i = 1; i < k; i++) hs.push_back(std::make_unique<H>(*hs[o[i] % hs.size()]));
        CHECK(Only::alive == 1, "%d underlying allocators exist", Only::alive);
        void* p = hs.back()->allocate(8); CHECK(p, "a request was refused");
        size_t freeAt = s.draw(k);
        for (size_t i = 0; i < k; i++)
        {
            CHECK(Only::alive == 1, "the underlying allocator was destroyed although %zu of %zu handles are left", k - i, k);
            if (i == freeAt) hs[o[i]]->deallocate(p, 8);
            hs[o[i]].reset();
        }
        CHECK(Only::alive == 0 && heap::liveBlocks() == drv::g_heapBase, "the underlying allocator outlives its %zu handles", k);
        if (k > 1000) pbt::nontrivial();
    }

    // ---- containers (C19, C22, C23, C24)
    template<typename T, typename A> void vector(Src& s, const char* name)
    {
        typedef ktl::trivial_vector<T, A> K; pbt::log("%s", name);
        {
            K k; std::vector<T> m; uint64_t v = 0; size_t peak = 0;
            for (size_t phase = s.range(2, 6); phase--; )
            {
                pbt::Span sp; size_t n = many(s, 1 << 17); unsigned op = unsigned(s.draw(7)); size_t at = m.empty() ? 0 : s.draw(m.size() + 1);
                static const char* names[] = { "push_back", "push_back a range", "emplace", "erase a range", "pop_back", "resize", "copy" };
                pbt::log("%s(%zu) at %zu", names[op], n, at);
                switch (op)
                {
                case 0: while (n--) { T t = cont::mk<T>(++v); if (n & 1) k.push_back(t); else k.emplace_back(t); m.push_back(t); } break;
                case 1: { std::vector<T> q; while (n--) q.push_back(cont::mk<T>(++v)); k.push_back(q.data(), q.data() + q.size()); m.insert(m.end(), q.begin(), q.end()); break; }
                case 2: for (n = n % 300; n--; ) { T t = cont::mk<T>(++v); k.emplace(k.begin() + at, t); m.insert(m.begin() + at, t); } break;
                case 3: n = std::min(n, m.size() - at); k.erase(k.begin() + at, k.begin() + at + n); m.erase(m.begin() + at, m.begin() + at + n); break;
                case 4: for (n = std::min(n, m.size()); n--; ) { T t = k.pop_back(); CHECK(cont::eq(t, m.back()), "pop_back() gave another element than the last of %zu", m.size()); m.pop_back(); } break;
                case 5: n = s.flag() ? n : std::min(n, m.size()); k.resize(n); { size_t was = m.size(); m.resize(n); for (size_t i = was; i < n; i++) { k[i] = m[i] = cont::mk<T>(++v); } } break;
                default: { K c(std::as_const(k)); K d; d = std::as_const(c); k = std::move(d); break; }
                }
                cont::settle(); CHECK(k.size() == m.size() && k.capacity() >= k.size(), "size() is %zu of %zu, expected %zu", k.size(), k.capacity(), m.size());
                for (size_t i = 0; i < m.size(); i++) CHECK(cont::eq(k[i], m[i]), "element %zu of %zu is wrong", i, m.size());
                peak = std::max(peak, m.size());
            }
            if (peak >= 500) pbt::nontrivial();
        }
        cont::settle(); leaf::checkErrors(); CHECK(cont::blocks.empty(), "%zu blocks were never deallocated", cont::blocks.size());
    }

    // T(key, id); C decides the order
    template<typename T, typename C, typename A> void heap(Src& s, const char* name)
    {
        typedef ktl::binary_heap<T, C, A> K; pbt::log("%s", name); C c = C::make(unsigned(s.draw(4)));
        {
            K k(c); std::set<std::pair<int, int>> m; int ids = 0; size_t peak = 0, pops = 0;      // key and identity of every element
            auto pop = [&]
            {
                T t = k.pop(); size_t found = m.erase({t.key(), t.ident()});
                CHECK(found, "pop() gave an element that is not among the %zu", m.size() + 1); return t.key();
            };
            for (size_t phase = s.range(2, 6); phase--; )
            {
                pbt::Span sp; size_t n = many(s, std::is_trivially_copyable_v<T> ? 1 << 18 : 4000); unsigned op = unsigned(s.draw(4)); uint64_t range = s.flag() ? 24 : 1 << 20, mul = s.bits() | 1; unsigned kind = unsigned(s.draw(3));
                static const char* names[] = { "insert", "pop", "reserve", "move" }; pbt::log("%s(%zu)", names[op], n);
                switch (op)
                {
                case 0:
                    for (size_t i = 0; i < n; i++)
                    {
                        int key = int(kind == 0 ? i % range : kind == 1 ? (n - i) % range : (i * mul >> 20) % range); T t(key, ++ids);
                        auto* at = k.insert(std::move(t)); CHECK(at >= k.begin() && at < k.end() && at->ident() == ids, "insert() did not return an iterator to the inserted element (of %zu)", m.size() + 1); m.emplace(key, ids);
                    }
                    break;
                case 1:
                {
                    bool first = true; int last = 0;
                    for (n = std::min(n, m.size()); n--; first = false) { int key = pop(); pops++; if (!first) CHECK(!c.before(key, last), "pop() gave key %d after key %d, with %zu elements left", key, last, m.size()); last = key; }
                    break;
                }
                case 2: k.reserve(n); CHECK(k.capacity() >= n, "capacity() is %zu after reserve(%zu)", k.capacity(), n); break;
                default: { K d(std::move(k)); k = std::move(d); if constexpr (T::copyable) { K e(std::as_const(k)); k = std::as_const(e); } break; }
                }
                cont::settle(); CHECK(k.size() == m.size(), "size() is %zu, expected %zu", k.size(), m.size());
                if (!m.empty()) for (auto& [key, id] : m) { CHECK(!c.before(key, k.peek().key()), "peek() gives key %d although key %d of %zu precedes it", k.peek().key(), key, m.size()); (void)id; }
                peak = std::max(peak, m.size());
            }
            if (s.flag()) { bool first = true; int last = 0; while (!m.empty()) { int key = pop(); pops++; if (!first) CHECK(!c.before(key, last), "pop() gave key %d after key %d, with %zu elements left", key, last, m.size()); last = key; first = false; } CHECK(k.empty(), "the heap is not empty after popping everything"); }
            if (peak >= 300 && pops) pbt::nontrivial();
        }
        cont::settle(); leaf::checkErrors(); CHECK(cont::liveObjects() == 0, "%zu elements were never destroyed", cont::liveObjects()); CHECK(cont::blocks.empty(), "%zu blocks were never deallocated", cont::blocks.size());
    }
}
