// Containers with several GiB of elements, of which only the touched pages exist
#pragma once
#include "cont.h"
#include <sys/mman.h>
#include <map>

namespace large
{
    using pbt::Src;
    struct Map { size_t n, bytes; };
    inline std::map<char*, Map> maps; inline const char* error = nullptr;
    template<typename T> struct Vast
    {
        typedef T value_type;
        Vast() noexcept = default;
        template<typename U> Vast(const Vast<U>&) noexcept {}
        T* allocate(size_t n) noexcept
        {
            // a request far beyond what the case asks for is a wrong size, not one to be refused
            if (n > (size_t(1) << 40) / sizeof(T)) { error = "a request far beyond what was asked for"; return nullptr; }
            size_t bytes = n * sizeof(T) + 1; void* p = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED) return nullptr;
            maps[(char*)p] = {n, bytes}; return static_cast<T*>(p);
        }
        void deallocate(T* p, size_t n) noexcept
        {
            auto i = maps.find((char*)p); if (i == maps.end()) { error = "a block came back that is not live"; return; }
            if (i->second.n != n) error = "a block came back with another size";
            munmap(p, i->second.bytes); maps.erase(i);
        }
        bool operator==(const Vast&) const noexcept { return true; }
        bool operator!=(const Vast&) const noexcept { return false; }
    };

    inline void reset() { for (auto& [p, m] : maps) munmap(p, m.bytes); maps.clear(); error = nullptr; }

    inline bool possible()
    {
        void* p = mmap(nullptr, size_t(1) << 41, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        return p != MAP_FAILED && !munmap(p, size_t(1) << 41);
    }
    // V: trivial_vector, otherwise trivial_array
    template<typename K, typename T, bool V> void run(Src& s, const char* name)
    {
        constexpr size_t Small = 4096;       // elements that are really copied
        static const bool can = possible(); if (!can) return;
        pbt::log("%s of %zu byte elements", name, sizeof(T));
        std::unique_ptr<K> k; size_t n = 0, ops = 0, big = 0; std::map<size_t, T> known; uint64_t vals = 0;
        auto count = [&](bool huge) -> size_t
        {
            if (!huge) return s.draw(40);
            return (size_t(1) << s.range(31, 33)) / (s.flag() ? sizeof(T) : 1) + s.draw(200) - 100;
        };
        auto index = [&]() -> size_t        // of an element
        {
            size_t i; switch (s.draw(4)) { case 0: i = s.draw(40); break; case 1: i = n - 1 - s.draw(40); break; case 2: i = (size_t(1) << s.range(31, 32)) / (s.flag() ? sizeof(T) : 1) + s.draw(40) - 20; break; default: i = s.draw(n); break; }
            return i < n ? i : n - 1;
        };
        auto cap = [&]() -> size_t { if constexpr (V) return k->capacity(); else return k->size(); };
        auto verify = [&]
        {
            const K& c = *k;
            CHECK(!error, "%s", error);
            CHECK(k->size() == n && c.size() == n, "size() is %zu, expected %zu", k->size(), n);
            CHECK(size_t(k->end() - k->begin()) == n && size_t(c.end() - c.begin()) == n && k->empty() == !n, "begin(), end() or empty() do not agree with size() %zu", n);
            CHECK(cap() >= n, "capacity() %zu is less than size() %zu", cap(), n);
            if (k->data() || cap()) CHECK(maps.count((char*)k->data()) && maps[(char*)k->data()].n == cap(), "the capacity is %zu, but the block has %zu elements", cap(), maps.count((char*)k->data()) ? maps[(char*)k->data()].n : size_t(0));
            CHECK(maps.size() == (cap() ? 1u : maps.size() ? 1u : 0u), "%zu blocks are live", maps.size());
            for (auto& [i, t] : known)
                CHECK(cont::eq((*k)[i], t) && cont::eq(c[i], t) && cont::eq(c.at(i), t) && cont::eq(k->begin()[i], t) && cont::eq(*(k->rbegin() + ptrdiff_t(n - 1 - i)), t), "element %zu of %zu is wrong", i, n);
        };
        auto drop = [&](size_t from) { known.erase(known.lower_bound(from), known.end()); };
        {
            size_t m = s.flag(2, 3) ? count(true) : count(false); pbt::log("construct(%zu)", m); k = std::make_unique<K>(m); n = m; big += n > Small; verify();
        }
        s.maxSteps = 10 + 2 * s.sizeHint();
        while (s.more(20))
        {
            pbt::Span sp; ops++;
            static const unsigned w[] = { 6, 4, 2, 3, 2, 2, 2, 1, 1 };
            switch (s.pick(w))
            {
            case 0:
                if (n) { size_t i = index(); T t = cont::mk<T>(++vals); pbt::log("[%zu]=", i); switch (s.draw(3)) { case 0: (*k)[i] = t; break; case 1: k->at(i) = t; break; default: *(k->end() - ptrdiff_t(n - i)) = t; break; } known[i] = t; }
                break;
            case 1:
            {
                size_t m = s.flag(1, 3) && n ? n - 1 - s.draw(n < 100 ? n : 100) : count(s.flag(3, 4));
                if (V ? m > cap() && n > Small : std::min(n, m) > Small) break;
                pbt::log("resize(%zu)", m); k->resize(m); if (m < n) drop(m); n = m; big += n > Small;
                break;
            }
            case 7: { K x(std::move(*k)); k = std::make_unique<K>(std::move(x)); pbt::log("move"); break; }
            case 8: { K x(2); x[0] = x[1] = cont::mk<T>(1); x = std::move(*k); *k = K(1); *k = std::move(x); pbt::log("move-assign"); break; }
            default:
                if constexpr (V) switch (s.draw(6))
                {
                case 0: { size_t m = count(s.flag(3, 4)); if (m > cap() && n > Small) break; pbt::log("reserve(%zu)", m); k->reserve(m); CHECK(k->capacity() >= m, "capacity() is %zu after reserve(%zu)", k->capacity(), m); break; }
                case 1: { if (n == cap() && n > Small) break; T t = cont::mk<T>(++vals); pbt::log("push_back"); if (s.flag()) k->push_back(t); else k->emplace_back(t); known[n++] = t; break; }
                case 2: if (n) { pbt::log("pop_back"); T t = k->pop_back(); auto i = known.find(n - 1); if (i != known.end()) CHECK(cont::eq(t, i->second), "pop_back() gave another element"); drop(--n); } break;
                case 3:
                {
                    size_t back = s.draw(std::min<size_t>(n, 200) + 1); if (n == cap() && n > Small) break;
                    size_t at = n - back; T t = cont::mk<T>(++vals); pbt::log("emplace(end()-%zu)", back);
                    auto it = k->emplace(k->begin() + at, t); CHECK(size_t(it - k->begin()) == at, "emplace() returned element %zu, expected %zu", size_t(it - k->begin()), at);
                    std::map<size_t, T> next; for (auto& [i, x] : known) next[i < at ? i : i + 1] = x; next[at] = t; known = next; n++;
                    break;
                }
                case 4:
                {
                    if (!n) break;
                    size_t to = s.flag() ? n : n - s.draw(std::min<size_t>(n, 200)); size_t from = std::min(index(), to); bool one = s.flag(1, 4); if (one) { from = n - 1 - s.draw(std::min<size_t>(n, 200)); to = from + 1; }
                    pbt::log("erase(%zu..%zu)", from, to);
                    auto it = one ? k->erase(k->begin() + from) : k->erase(k->begin() + from, k->begin() + to); CHECK(size_t(it - k->begin()) == from, "erase() returned element %zu, expected %zu", size_t(it - k->begin()), from);
                    std::map<size_t, T> next; for (auto& [i, x] : known) if (i < from) next[i] = x; else if (i >= to) next[i - (to - from)] = x; known = next; n -= to - from;
                    break;
                }
                default: if (s.flag(1, 3)) { pbt::log("clear"); k->clear(); drop(0); n = 0; } break;
                }
                break;
            }
            verify();
        }
        if (big && ops >= 3) pbt::nontrivial();
        k.reset(); CHECK(!error, "%s", error); CHECK(maps.empty(), "%zu blocks were not given back", maps.size());
    }
}
