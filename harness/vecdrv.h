// Histories over several trivial_vectors against std::vector
#pragma once
#include "cont.h"

namespace cont
{
    template<typename T, typename A> struct Vec
    {
        typedef ktl::trivial_vector<T, A> K;
        struct Slot { std::unique_ptr<K> k; std::vector<T> m; };
        static constexpr bool tracked = Maker<A>::tracked;
        std::vector<Slot> v; A al[3]; unsigned muts = 0, grows = 0, transfers = 0;

        Vec() : al{Maker<A>::make(0), Maker<A>::make(1), Maker<A>::make(2)} {}

        void check(const Slot& x)
        {
            K& k = *x.k; const K& c = k; auto& m = x.m; size_t n = m.size();
            WANT(CONTENT, k.size() == n, "size() is %zu, expected %zu", k.size(), n);
            WANT(CONTENT, k.empty() == m.empty(), "empty() is wrong");
            WANT(CONTENT, k.capacity() >= k.size(), "capacity() %zu is less than size() %zu", k.capacity(), k.size());
            WANT(CONTENT, k.begin() == k.data() && c.begin() == c.data() && c.data() == k.data() && size_t(k.end() - k.begin()) == n && size_t(c.end() - c.begin()) == n, "begin/end/data disagree");
            for (size_t i = 0; i < n; i++)
                WANT(CONTENT, eq(k[i], m[i]) && eq(c[i], m[i]) && eq(c.at(i), m[i]) && eq(k.data()[i], m[i]), "element %zu of %zu is wrong", i, n);
            size_t i = n; for (auto it = k.rbegin(); it != k.rend(); ++it) { i--; WANT(CONTENT, i < n && eq(*it, m[i]), "reverse iteration gives another sequence"); }
            WANT(CONTENT, i == 0, "reverse iteration visits %zu of %zu elements", n - i, n);
            i = n; for (auto it = c.rbegin(); it != c.rend(); ++it) { i--; WANT(CONTENT, i < n && eq(*it, m[i]), "reverse iteration gives another sequence"); }
            i = 0; for (const T& t : c) { WANT(CONTENT, i < n && eq(t, m[i]), "iteration gives another sequence"); i++; }
            if constexpr (tracked) if (k.capacity())
            {
                WANT(ALLOC, groupOf(k.data()) >= 0, "the storage of a vector is not a live block of an allocator");
                WANT(ALLOC, blocks[(char*)k.data()].n == k.capacity(), "a vector with capacity %zu holds a block of %zu elements", k.capacity(), blocks[(char*)k.data()].n);
            }
        }
        void uses(const Slot& x, int g)
        {
            if constexpr (tracked) if (x.k->capacity()) WANT(ALLOC, groupOf(x.k->data()) == g, "a vector constructed with allocator %d has its storage in allocator %d", g, groupOf(x.k->data()));
            (void)x; (void)g;
        }
        void all() { settle(); for (auto& x : v) check(x); settle(); }

        void construct(Src& s)
        {
            size_t n = s.draw(12); uint64_t val = s.draw(1000); int g = int(s.draw(3)); bool ex = s.flag(2, 3);
            unsigned how = unsigned(s.draw(9)), j = v.empty() ? 0 : unsigned(s.draw(v.size()));
            if (v.empty() && how > 4) how = 0;
            static const char* names[] = { "default", "n", "n,value", "list", "range", "copy", "move", "copy+alloc", "move+alloc" };
            pbt::log("%zu=%s(%zu,from %u)%s%d", v.size(), names[how], n, j, ex ? "@" : " ", g);
            Slot x; if (!ex) g = 0;
            switch (how)
            {
            case 0: if (ex) x.k.reset(new K(al[g])); else { x.k.reset(new K()); } break;
            case 1: if (ex) x.k.reset(new K(n, al[g])); else x.k.reset(new K(n)); WANT(CONTENT, x.k->size() == n, "size() is %zu after constructing with size %zu", x.k->size(), n); for (size_t i = 0; i < n; i++) x.m.push_back((*x.k)[i]); break;
            case 2: { T t = mk<T>(val); if (ex) x.k.reset(new K(n, t, al[g])); else x.k.reset(new K(n, t)); x.m.assign(n, t); break; }
            case 3:
            {
                T a = mk<T>(val), b = mk<T>(val + 1), c = mk<T>(val + 2); n %= 4;
                if (n == 0) x.k.reset(new K(std::initializer_list<T>{}, al[g])); else if (n == 1) { x.k.reset(new K({a}, al[g])); x.m = {a}; }
                else if (n == 2) { x.k.reset(new K({a, b}, al[g])); x.m = {a, b}; } else { x.k.reset(new K({a, b, c}, al[g])); x.m = {a, b, c}; }
                ex = true; break;
            }
            case 4:
            {
                std::vector<T> r; for (size_t i = 0; i < n; i++) r.push_back(mk<T>(val + i));
                const T* f = r.data(); if (ex) x.k.reset(new K(f, f + n, al[g])); else x.k.reset(new K(f, f + n)); x.m = r; break;
            }
            case 5: x.k.reset(new K(std::as_const(*v[j].k))); x.m = v[j].m; ex = false; transfers++; break;
            case 6: x.k.reset(new K(std::move(*v[j].k))); x.m = std::move(v[j].m); v[j].m.clear(); ex = false; transfers++; break;
            case 7: x.k.reset(new K(std::as_const(*v[j].k), al[g])); x.m = v[j].m; ex = true; transfers++; break;
            default: x.k.reset(new K(std::move(*v[j].k), al[g])); x.m = std::move(v[j].m); v[j].m.clear(); ex = true; transfers++; break;
            }
            v.push_back(std::move(x));
            if (how == 3 || ex) uses(v.back(), g);
        }
        void step(Src& s)
        {
            size_t i = s.draw(v.size()); Slot& x = v[i]; K& k = *x.k; auto& m = x.m; size_t n = m.size();
            uint64_t val = s.draw(1000); size_t a = s.draw(16), b = s.draw(16);
            static const unsigned w[] = { 6, 3, 3, 4, 5, 3, 3, 3, 3, 3, 1, 3, 2, 2, 1, 3, 3 };
            unsigned op = s.pick(w); if (n > 300) op = 10;     // stay within what the allocators can hold
            static const char* names[] = { "push_back", "push_back&&", "emplace_back", "push_back range", "emplace", "erase", "erase range", "pop_back", "resize", "reserve", "clear", "write", "copy-assign", "move-assign", "drop", "own element", "self-assign" };
            pbt::log("%zu:%s(%zu,%zu)", i, names[op], a, b);
            T t = mk<T>(val); size_t cap = k.capacity(); size_t r = SIZE_MAX;
            auto at = [&](const T* p) { return size_t(p - k.data()); };
            switch (op)
            {
            case 0: r = at(k.push_back(std::as_const(t))); m.push_back(t); muts++; break;
            case 1: { T u = t; r = at(k.push_back(std::move(u))); m.push_back(t); muts++; break; }
            case 2: r = at(k.emplace_back(t)); m.push_back(t); muts++; break;
            case 3:
            {
                std::vector<T> q; for (size_t z = 0; z < a; z++) q.push_back(mk<T>(val + z));
                size_t p = at(k.push_back(q.data(), q.data() + a)); WANT(CONTENT, p == n || !a, "push_back of a range returned position %zu of %zu", p, n);
                m.insert(m.end(), q.begin(), q.end()); muts++; break;
            }
            case 4:
            {
                size_t p = n ? a % (n + 1) : 0;
                if constexpr (std::is_void_v<decltype(k.emplace(k.begin(), t))>) k.emplace(k.begin() + p, t); else { size_t q = at(k.emplace(k.begin() + p, t)); WANT(CONTENT, q == p, "emplace at %zu returned position %zu", p, q); }
                m.insert(m.begin() + p, t); muts++; break;
            }
            case 5: if (n) { size_t p = a % n; size_t q = at(k.erase(k.begin() + p)); WANT(CONTENT, q == p, "erase at %zu returned position %zu", p, q); m.erase(m.begin() + p); muts++; } break;
            case 6: { size_t f = n ? a % (n + 1) : 0, l = f + (n - f ? b % (n - f + 1) : 0); size_t q = at(k.erase(k.begin() + f, k.begin() + l)); WANT(CONTENT, q == f, "erase of [%zu,%zu) returned position %zu", f, l, q); m.erase(m.begin() + f, m.begin() + l); muts++; break; }
            case 7: if (n) { T p = k.pop_back(); WANT(CONTENT, eq(p, m.back()), "pop_back returned another element than the last one"); m.pop_back(); muts++; } break;
            case 8:
            {
                size_t z = s.flag() ? a * 3 : n + (a % 3); k.resize(z);
                WANT(CONTENT, k.size() == z, "size() is %zu after resize(%zu)", k.size(), z);
                size_t keep = std::min(n, z); m.resize(keep); for (size_t q = keep; q < z; q++) m.push_back(k[q]);     // exposed elements: any value, but a stable one
                muts++; break;
            }
            case 9: k.reserve(a * 4); WANT(CONTENT, k.capacity() >= a * 4, "capacity() is %zu after reserve(%zu)", k.capacity(), a * 4); break;
            case 10: k.clear(); m.clear(); break;
            case 11: if (n) { size_t p = a % n; switch (b % 4) { case 0: k[p] = t; break; case 1: k.begin()[p] = t; break; case 2: k.data()[p] = t; break; default: *(k.rbegin() + (n - 1 - p)) = t; break; } m[p] = t; } break;
            case 12: { size_t j = a % v.size(); *x.k = std::as_const(*v[j].k); if (j != i) m = v[j].m; transfers++; break; }
            case 13: { size_t j = a % v.size(); if (j != i) { *x.k = std::move(*v[j].k); m = std::move(v[j].m); v[j].m.clear(); transfers++; } break; }
            case 14: if (v.size() > 1) v.erase(v.begin() + i); return;
            case 15:
                if (n)
                {
                    size_t p = a % n; T copy = m[p];
                    switch (b % 4)
                    {
                    case 0: r = at(k.push_back(std::as_const(k[p]))); m.push_back(copy); break;
                    case 1: r = at(k.push_back(std::move(k[p]))); m.push_back(copy); break;
                    case 2: r = at(k.emplace_back(k[p])); m.push_back(copy); break;
                    default: { size_t z = val % (n + 1); k.emplace(k.begin() + z, std::as_const(k[p])); m.insert(m.begin() + z, copy); break; }
                    }
                    muts++;
                }
                break;
            default: { K& self = k; if (b % 2) k = std::as_const(self); else k = std::move(self); transfers++; break; }
            }
            if (r != SIZE_MAX) WANT(CONTENT, r == n, "the returned iterator refers to position %zu, the element is at %zu", r, n);
            if (k.capacity() > cap && n) grows++;
        }
        static void run(Src& s, const char* name)
        {
            try
            {
                pbt::log("trivial_vector<%s>", name);
                nullForZero = s.flag(1, 3);
                {
                    Vec x;
                    x.construct(s); x.all();
                    s.maxSteps = 20 + 2 * s.sizeHint();
                    while (s.more(30))
                    {
                        pbt::Span sp;
                        if (x.v.size() < 5 && s.flag(1, 5)) x.construct(s); else x.step(s);
                        x.all();
                    }
                    if (x.muts >= 4 && x.grows >= 1 && x.transfers >= 1) pbt::nontrivial();
                    while (!x.v.empty()) { x.v.pop_back(); x.all(); }
                }
                settle(); leaf::checkErrors();
                WANT(ALLOC, blocks.empty(), "%zu blocks were never deallocated", blocks.size());
            }
            catch (const Stop&) {}
        }
    };
}
