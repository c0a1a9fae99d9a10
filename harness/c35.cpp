// C35: containers stay where they are while they have room, and cost no more than they should
#include "driver.h"
#include "cont.h"
#include <cmath>
using namespace cont;
namespace
{
    // Growth by a factor: the number of times a container that has reached capacity `cap` may have grown. A factor of 1.2 is
    // enough; growing by a constant is not, whatever it is, as the larger cases show.
    double growthLimit(size_t cap) { return 16 + std::log(double(cap) + 1) / std::log(1.2); }

    template<typename T> struct Vector
    {
        typedef Acct<T, 0> A; typedef ktl::trivial_vector<T, A> K;
        static void run(Src& s, const char* name)
        {
            cont::checks = CONTENT | ALLOC;
            try
            {
                std::unique_ptr<K> k; std::vector<T> m;
                size_t big = s.flag(1, 20) ? 30000 : s.flag(1, 4) ? 3000 : 60; unsigned stays = 0, growths = 0, moves = 0;
                
                unsigned how = unsigned(s.draw(4)); size_t n0 = s.draw(10);
                if (how == 0) k.reset(new K(A(1))); else if (how == 1) { k.reset(new K(n0, mk<T>(1), A(1))); m.assign(n0, mk<T>(1)); } else k.reset(new K(A(1)));
                pbt::log("%s from %zu", name, m.size());
                CHECK(takes <= 1, "constructing a vector allocated %zu times", size_t(takes));
                unsigned total = 0; size_t maxCap = k->capacity();
                s.maxSteps = 60;
                while (s.more(20))
                {
                    pbt::Span sp; size_t cap = k->capacity(), size = k->size(); T* data = k->data(); uint64_t before = takes; T t = mk<T>(s.draw(1000));
                    static const unsigned w[] = { 5, 3, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 2, 2 }; unsigned op = s.pick(w); size_t a = s.draw(12), b = s.draw(12), add = 0, place = SIZE_MAX; bool reserving = false; const char* what = "";
                    switch (op)
                    {
                    case 0: { what = "push_back, many times"; add = s.draw(big); break; }
                    case 1: what = "push_back&&"; add = 1; break;
                    case 2: what = "emplace_back"; add = 1; break;
                    case 3: what = "push_back(range)"; add = a; break;
                    case 4: what = "emplace"; add = 1; place = m.empty() ? 0 : b % (m.size() + 1); break;
                    case 5: what = "resize up"; add = a; break;
                    case 6: what = "erase"; if (m.empty()) continue; break;
                    case 7: what = "erase(range)"; break;
                    case 8: what = "pop_back"; if (m.empty()) continue; break;
                    case 9: what = "clear"; break;
                    case 10: what = "reserve"; reserving = true; break;
                    case 11: what = "resize down"; break;
                    case 12: what = "move construction"; break;
                    default: what = "move assignment"; break;
                    }
                    if (m.size() + add > 200000) add = 0;
                    pbt::log("%s(%zu) at %zu/%zu", what, add, size, cap);
                    auto stay = [&](const char* why) { CHECK(takes == before && k->data() == data && k->capacity() == cap, "%s %s, but a vector of size %zu and capacity %zu allocated %zu times, its capacity is now %zu%s", what, why, size, cap, size_t(takes - before), k->capacity(), k->data() == data ? "" : " and its elements are elsewhere"); stays++; };
                    if (op == 0)
                    {
                        for (size_t i = 0; i < add; i++)
                        {
                            size_t c = k->capacity(); T* d = k->data(); uint64_t t0 = takes; bool room = k->size() < c;
                            k->push_back(std::as_const(t)); m.push_back(t);
                            if (room) CHECK(takes == t0 && k->data() == d && k->capacity() == c, "push_back moved a vector of size %zu that had a capacity of %zu", m.size() - 1, c);
                            else CHECK(takes - t0 <= 2, "one push_back allocated %zu times", size_t(takes - t0));
                        }
                        if (add > 5) stays++;
                    }
                    else if (add || op == 3 || op == 5)
                    {
                        bool room = size + add <= cap;
                        if (op == 1) { T u = t; k->push_back(std::move(u)); m.push_back(t); }
                        else if (op == 2) { k->emplace_back(t); m.push_back(t); }
                        else if (op == 3) { std::vector<T> r(add, t); const T* f = r.data(); k->push_back(f, f + add); m.insert(m.end(), add, t); }
                        else if (op == 4) { k->emplace(k->begin() + place, t); m.insert(m.begin() + place, t); }
                        else { k->resize(size + add); for (size_t i = 0; i < add; i++) { (*k)[size + i] = t; m.push_back(t); } }
                        if (room) stay("needs no room that is not there"); else CHECK(takes - before <= 2, "%s allocated %zu times", what, size_t(takes - before));
                    }
                    else switch (op)
                    {
                    case 6: { size_t i = b % m.size(); k->erase(k->begin() + i); m.erase(m.begin() + i); stay("makes room"); break; }
                    case 7: { size_t i = b % (m.size() + 1), j = i + a % (m.size() - i + 1); k->erase(k->begin() + i, k->begin() + j); m.erase(m.begin() + i, m.begin() + j); stay("makes room"); break; }
                    case 8: k->pop_back(); m.pop_back(); stay("makes room"); break;
                    case 9: k->clear(); m.clear(); stay("makes room"); break;
                    case 11: { size_t n = m.empty() ? 0 : b % (m.size() + 1); k->resize(n); m.resize(n); stay("makes room"); break; }
                    case 10:
                    {
                        size_t n = s.flag(1, 2) ? s.draw(cap + 2) : s.draw(4 * cap + 20);
                        k->reserve(n);
                        if (n <= cap) stay("asks for room that is there");
                        else CHECK(k->capacity() >= n && takes - before <= 2, "after reserve(%zu) the capacity is %zu (%zu allocations)", n, k->capacity(), size_t(takes - before));
                        break;
                    }
                    case 12: { std::unique_ptr<K> x(new K(std::move(*k))); k = std::move(x); stay("takes over the storage"); moves++; break; }
                    case 13: { K x(A(1)); if (a & 1) x.push_back(t); before = takes; x = std::move(*k); CHECK(takes == before && x.data() == data, "move assignment allocated %zu times", size_t(takes - before)); *k = std::move(x); stay("takes over the storage"); moves++; break; }
                    default: break;
                    }
                    if (!reserving) { total += unsigned(takes - before); if (takes != before) growths++; }
                    maxCap = std::max(maxCap, k->capacity());
                    CHECK(k->size() == m.size(), "size() is %zu, expected %zu", k->size(), m.size());
                    for (size_t i = 0; i < m.size(); i += 1 + m.size() / 64) CHECK(eq((*k)[i], m[i]), "element %zu is wrong", i);
                    CHECK(total <= growthLimit(maxCap), "adding elements to a vector that has reached a capacity of %zu allocated %u times: it does not grow by a factor", maxCap, total);
                    settle();
                }
                if (stays >= 4 && growths >= 1) pbt::nontrivial();
                if (moves) pbt::label("moved");
                if (m.size() > 1000) pbt::label("more than 1000 elements");
                k.reset(); settle();
            }
            catch (const Stop&) {}
        }
    };

    // ---- heaps ------------------------------------------------------------------------------------------
    uint64_t comparisons, moved, copied, equals;
    struct E      // counts what is done with it
    {
        int k; int id;
        E(int a, int b) : k(a), id(b) {}
        E(const E& o) : k(o.k), id(o.id) { copied++; } E(E&& o) noexcept : k(o.k), id(o.id) { moved++; o.id = -1; }
        E& operator=(const E& o) { k = o.k; id = o.id; copied++; return *this; } E& operator=(E&& o) noexcept { int a = o.k, b = o.id; o.id = -1; k = a; id = b; moved++; return *this; }
        bool operator==(const E& o) const { equals++; return k == o.k; }
    };
    struct CLess { bool operator()(const E& a, const E& b) const { comparisons++; return a.k < b.k; } };
    struct CMore { bool operator()(const E& a, const E& b) const { comparisons++; return a.k > b.k; } };
    template<typename C, unsigned F> struct HeapCost
    {
        typedef Acct<E, F> A; typedef ktl::binary_heap<E, C, A> K;
        static void run(Src& s, const char* name)
        {
            cont::checks = CONTENT | ALLOC; comparisons = moved = copied = equals = 0;
            try
            {
                auto k = std::make_unique<K>(A(2)); C c{}; CHECK(takes <= 1, "constructing a heap allocated %zu times", size_t(takes));
                std::multiset<int> m; int ids = 0; size_t big = s.flag(1, 20) ? 6000 : s.flag(1, 4) ? 600 : 40; unsigned stays = 0, growths = 0, total = 0; size_t maxCap = k->capacity(), bigPops = 0;
                unsigned order = unsigned(s.draw(4)); pbt::log("%s, keys %s", name, order == 0 ? "random" : order == 1 ? "ascending" : order == 2 ? "descending" : "few");
                int next = 0; uint64_t z = s.draw(1u << 30) * 2654435761u + 1;
                auto key = [&]() -> int { z = z * 6364136223846793005u + 1442695040888963407u; int r = int(z >> 34) & 0xffffff; return order == 0 ? r : order == 1 ? next++ : order == 2 ? next-- : r % 3; };
                auto lim = [](size_t n) { return 4 * std::log2(double(n) + 2) + 8; };
                s.maxSteps = 40;
                while (s.more(15))
                {
                    pbt::Span sp; size_t cap = k->capacity(), size = k->size(); const E* data = k->data(); uint64_t before = takes;
                    static const unsigned w[] = { 6, 5, 2, 1, 1, 2, 1, 2 }; unsigned op = s.pick(w);
                    auto stay = [&](const char* what) { CHECK(takes == before && k->data() == data && k->capacity() == cap, "%s needs no room that is not there, but a heap of size %zu and capacity %zu allocated %zu times, its capacity is now %zu%s", what, size, cap, size_t(takes - before), k->capacity(), k->data() == data ? "" : " and its elements are elsewhere"); stays++; };
                    switch (op)
                    {
                    case 0: case 1:
                    {
                        size_t n = s.draw(big); if (m.size() + n > 50000) n = 0;
                        pbt::log("insert %zu at %zu/%zu", n, size, cap);
                        for (size_t i = 0; i < n; i++)
                        {
                            size_t c0 = k->capacity(), s0 = k->size(); const E* d = k->data(); uint64_t t0 = takes, m0 = moved + copied, q0 = comparisons; int x = key(); E e(x, ids++);
                            if (i & 1) k->insert(std::as_const(e)); else k->insert(std::move(e));
                            m.insert(x);
                            double per = lim(s0);
                            CHECK(double(comparisons - q0) <= per, "inserting into a heap of %zu elements compared %zu times", s0, size_t(comparisons - q0));
                            if (s0 < c0) CHECK(takes == t0 && k->data() == d && k->capacity() == c0, "insert moved a heap of size %zu that had a capacity of %zu", s0, c0);
                            else { CHECK(takes - t0 <= 2, "one insert allocated %zu times", size_t(takes - t0)); total += unsigned(takes - t0); growths++; per += 4 * double(s0); }
                            CHECK(double(moved + copied - m0) <= per, "inserting into a heap of %zu elements moved %zu elements", s0, size_t(moved + copied - m0));
                        }
                        maxCap = std::max(maxCap, k->capacity()); if (n > 3) stays++; break;
                    }
                    case 2: case 7:
                    {
                        size_t n = s.draw(std::min(m.size(), big) + 1); pbt::log("pop %zu of %zu", n, size);
                        for (size_t i = 0; i < n; i++)
                        {
                            uint64_t q0 = comparisons, m0 = moved + copied; size_t s0 = m.size(); int x = std::is_same_v<C, CLess> ? *m.begin() : *m.rbegin();
                            E e = k->pop(); CHECK(e.k == x, "pop returned %d instead of %d", e.k, x); m.erase(m.find(x));
                            CHECK(double(comparisons - q0) <= lim(s0), "popping from a heap of %zu elements compared %zu times", s0, size_t(comparisons - q0));
                            CHECK(double(moved + copied - m0) <= 2 * lim(s0), "popping from a heap of %zu elements moved %zu elements", s0, size_t(moved + copied - m0));
                            if (s0 > 100) bigPops++;
                        }
                        stay("pop"); break;
                    }
                    case 3: pbt::log("clear"); k->clear(); m.clear(); stay("clear"); break;
                    case 4:
                    {
                        size_t n = s.flag(1, 2) ? s.draw(cap + 2) : s.draw(3 * cap + 20); pbt::log("reserve(%zu) of %zu", n, cap); k->reserve(n);
                        if (n <= cap) stay("reserve"); else CHECK(k->capacity() >= n && takes - before <= 2, "after reserve(%zu) the capacity is %zu (%zu allocations)", n, k->capacity(), size_t(takes - before));
                        maxCap = std::max(maxCap, k->capacity()); break;
                    }
                    case 5:
                    {
                        uint64_t q = copied + moved; pbt::log("move"); auto x = std::make_unique<K>(std::move(*k)); k = std::move(x); stay("move construction");
                        K y(A(2), c); if (s.draw(2)) y.insert(E(1, -5)); before = takes; q = copied + moved; y = std::move(*k); CHECK(takes == before && y.data() == data && copied + moved == q, "move assignment allocated %zu times and moved %zu elements", size_t(takes - before), size_t(copied + moved - q)); *k = std::move(y); stay("move assignment"); break;
                    }
                    default:
                    {
                        if (m.empty()) break;
                        uint64_t q = equals, r = copied + moved; E e(*m.begin(), 0); pbt::log("find"); auto it = k->find(e);
                        CHECK(it != k->end() && it->k == e.k, "find did not find"); CHECK(equals - q <= m.size() && copied + moved == r, "find compared %zu times with %zu elements", size_t(equals - q), m.size()); (void)k->peek(); stay("find"); break;
                    }
                    }
                    CHECK(k->size() == m.size(), "size() is %zu, expected %zu", k->size(), m.size());
                    CHECK(total <= growthLimit(maxCap), "inserting into a heap that has reached a capacity of %zu allocated %u times: it does not grow by a factor", maxCap, total);
                    settle();
                }
                if (stays >= 3 && growths >= 1) pbt::nontrivial();
                if (bigPops) pbt::label("popped from more than 100 elements");
                k.reset(); settle();
            }
            catch (const Stop&) {}
        }
    };
    // ---- arrays -----------------------------------------------------------------------------------------
    template<typename T> void array(Src& s, const char* name)
    {
        cont::checks = CONTENT | ALLOC; typedef Acct<T, 0> A; typedef ktl::trivial_array<T, A> K;
        try
        {
            size_t n = s.draw(40); K k(n, mk<T>(3), A(1)); pbt::log("%s(%zu)", name, n); CHECK(takes == 1, "constructing an array allocated %zu times", size_t(takes));
            s.maxSteps = 30;
            while (s.more(8))
            {
                pbt::Span sp; uint64_t before = takes; T* data = k.data();
                switch (s.draw(4))
                {
                case 0: { size_t x = s.draw(60); pbt::log("resize(%zu)", x); k.resize(x); n = x; CHECK(takes - before <= 1, "resize allocated %zu times", size_t(takes - before)); break; }
                case 1: { std::vector<T> r(s.draw(60), mk<T>(s.draw(99))); pbt::log("assign(%zu)", r.size()); const T* f = r.data(); k.assign(f, f + r.size()); n = r.size(); CHECK(takes - before <= 1, "assign allocated %zu times", size_t(takes - before)); break; }
                case 2: { pbt::log("move"); K x(std::move(k)); CHECK(x.data() == data && takes == before, "move construction allocated %zu times", size_t(takes - before)); k = std::move(x); CHECK(k.data() == data && takes == before, "move assignment allocated %zu times", size_t(takes - before)); pbt::nontrivial(); break; }
                default: { pbt::log("copy"); K x(std::as_const(k)); CHECK(takes - before <= 1 && k.data() == data, "copying allocated %zu times", size_t(takes - before)); break; }
                }
                CHECK(k.size() == n, "size() is %zu, expected %zu", k.size(), n); settle();
            }
        }
        catch (const Stop&) {}
    }
}
static void vectors(Src& s)
{
    switch (s.draw(5))
    {
    case 0: Vector<int32_t>::run(s, "trivial_vector<int32_t>"); break;
    case 1: Vector<uint8_t>::run(s, "trivial_vector<uint8_t>"); break;
    case 2: Vector<S3>::run(s, "trivial_vector<S3>"); break;
    case 3: Vector<Big>::run(s, "trivial_vector<Big>"); break;
    default: Vector<Wide>::run(s, "trivial_vector<Wide>"); break;
    }
}
static void heaps(Src& s)
{
    switch (s.draw(3))
    {
    case 0: HeapCost<CLess, 0>::run(s, "binary_heap, least first"); break;
    case 1: HeapCost<CMore, 0>::run(s, "binary_heap, greatest first"); break;
    default: HeapCost<CLess, 1>::run(s, "binary_heap, allocator constructs"); break;
    }
}
static void arrays(Src& s)
{
    switch (s.draw(3)) { case 0: array<int32_t>(s, "trivial_array<int32_t>"); break; case 1: array<Big>(s, "trivial_array<Big>"); break; default: array<uint8_t>(s, "trivial_array<uint8_t>"); break; }
}
pbt::Prop pbt::props[] = {
    {"vector", vectors, 10, "non-trivial if at least four operations had room and the vector grew"},
    {"heap", heaps, 10, "non-trivial if at least three operations had room and the heap grew"},
    {"array", arrays, 3, "non-trivial if an array was moved"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { drv::resetAll(); cont::reset(); }
