// Histories over several trivial_arrays against std::vector
#pragma once
#include "cont.h"

namespace cont
{
    template<typename T, typename A> struct Arr
    {
        typedef ktl::trivial_array<T, A> K;
        struct Slot { std::unique_ptr<K> k; std::vector<T> m; };
        static constexpr bool tracked = Maker<A>::tracked;
        std::vector<Slot> v; A al[3]; unsigned muts = 0, resizes = 0, transfers = 0;

        Arr() : al{Maker<A>::make(0), Maker<A>::make(1), Maker<A>::make(2)} {}

        void check(const Slot& x)
        {
            K& k = *x.k; const K& c = k; auto& m = x.m; size_t n = m.size();
            WANT(CONTENT, k.size() == n, "size() is %zu, expected %zu", k.size(), n);
            WANT(CONTENT, k.empty() == m.empty(), "empty() is wrong");
            WANT(CONTENT, k.begin() == k.data() && c.begin() == c.data() && c.data() == k.data() && size_t(k.end() - k.begin()) == n && size_t(c.end() - c.begin()) == n, "begin/end/data disagree");
            for (size_t i = 0; i < n; i++)
                WANT(CONTENT, eq(k[i], m[i]) && eq(c[i], m[i]) && eq(c.at(i), m[i]) && eq(k.data()[i], m[i]), "element %zu of %zu is wrong", i, n);
            size_t i = n; for (auto it = k.rbegin(); it != k.rend(); ++it) { i--; WANT(CONTENT, i < n && eq(*it, m[i]), "reverse iteration gives another sequence"); }
            WANT(CONTENT, i == 0, "reverse iteration visits %zu of %zu elements", n - i, n);
            i = n; for (auto it = c.rbegin(); it != c.rend(); ++it) { i--; WANT(CONTENT, i < n && eq(*it, m[i]), "reverse iteration gives another sequence"); }
            i = 0; for (const T& t : c) { WANT(CONTENT, i < n && eq(t, m[i]), "iteration gives another sequence"); i++; }
            if constexpr (tracked) if (k.size())
            {
                WANT(ALLOC, groupOf(k.data()) >= 0, "the storage of an array is not a live block of an allocator");
                WANT(ALLOC, blocks[(char*)k.data()].n == k.size(), "an array of size %zu holds a block of %zu elements", k.size(), blocks[(char*)k.data()].n);
            }
        }
        void uses(const Slot& x, int g)
        {
            if constexpr (tracked) if (x.k->size()) WANT(ALLOC, groupOf(x.k->data()) == g, "an array constructed with allocator %d has its storage in allocator %d", g, groupOf(x.k->data()));
            (void)x; (void)g;
        }
        void all() { settle(); for (auto& x : v) check(x); settle(); }

        void construct(Src& s)
        {
            size_t n = s.draw(12); uint64_t val = s.draw(1000); int g = int(s.draw(3)); bool ex = s.flag(2, 3);
            unsigned how = unsigned(s.draw(9)), j = v.empty() ? 0 : unsigned(s.draw(v.size()));
            if (v.empty() && how > 4) how = 0;
            static const char* names[] = { "default", "n", "n,value", "list", "range", "copy", "move", "copy+alloc", "move+alloc" };
            pbt::log("%zu=%s(%zu,from %u)%s%d", v.size(), names[how], n, j, ex ? "@" : " ", g);
            Slot x; if (!ex) g = 0;
            switch (how)
            {
            case 0: if (ex) x.k.reset(new K(al[g])); else x.k.reset(new K()); break;
            case 1: if (ex) x.k.reset(new K(n, al[g])); else x.k.reset(new K(n)); WANT(CONTENT, x.k->size() == n, "size() is %zu after constructing with size %zu", x.k->size(), n); for (size_t i = 0; i < n; i++) x.m.push_back((*x.k)[i]); break;
            case 2: { T t = mk<T>(val); if (ex) x.k.reset(new K(n, t, al[g])); else x.k.reset(new K(n, t)); x.m.assign(n, t); break; }
            case 3:
            {
                T a = mk<T>(val), b = mk<T>(val + 1), c = mk<T>(val + 2); n %= 4;
                if (n == 0) x.k.reset(new K(std::initializer_list<T>{}, al[g])); else if (n == 1) { x.k.reset(new K({a}, al[g])); x.m = {a}; }
                else if (n == 2) { x.k.reset(new K({a, b}, al[g])); x.m = {a, b}; } else { x.k.reset(new K({a, b, c}, al[g])); x.m = {a, b, c}; }
                ex = true; break;
            }
            case 4:
            {
                std::vector<T> r; for (size_t i = 0; i < n; i++) r.push_back(mk<T>(val + i));
                const T* f = r.data(); if (ex) x.k.reset(new K(f, f + n, al[g])); else x.k.reset(new K(f, f + n)); x.m = r; break;
            }
            case 5: x.k.reset(new K(std::as_const(*v[j].k))); x.m = v[j].m; ex = false; transfers++; break;
            case 6: x.k.reset(new K(std::move(*v[j].k))); x.m = std::move(v[j].m); v[j].m.clear(); ex = false; transfers++; break;
            case 7: x.k.reset(new K(std::as_const(*v[j].k), al[g])); x.m = v[j].m; ex = true; transfers++; break;
            default: x.k.reset(new K(std::move(*v[j].k), al[g])); x.m = std::move(v[j].m); v[j].m.clear(); ex = true; transfers++; break;
            }
            v.push_back(std::move(x));
            if (how == 3 || ex) uses(v.back(), g);
        }
        void step(Src& s)
        {
            size_t i = s.draw(v.size()); Slot& x = v[i]; K& k = *x.k; auto& m = x.m; size_t n = m.size();
            uint64_t val = s.draw(1000); size_t a = s.draw(16), b = s.draw(16);
            static const unsigned w[] = { 5, 5, 6, 3, 3, 1, 2 };
            unsigned op = s.pick(w);
            static const char* names[] = { "resize", "assign", "write", "copy-assign", "move-assign", "drop", "self-assign" };
            pbt::log("%zu:%s(%zu,%zu)", i, names[op], a, b);
            T t = mk<T>(val);
            switch (op)
            {
            case 0:
            {
                size_t z = s.flag() ? a * 3 : n + (a % 3); k.resize(z);
                WANT(CONTENT, k.size() == z, "size() is %zu after resize(%zu)", k.size(), z);
                size_t keep = std::min(n, z); m.resize(keep); for (size_t q = keep; q < z; q++) m.push_back(k[q]);
                muts++; if (z != n && n && z) resizes++; break;
            }
            case 1:
            {
                size_t z = s.flag(1, 3) ? n : a * 2; std::vector<T> q; for (size_t y = 0; y < z; y++) q.push_back(mk<T>(val + y));
                k.assign(q.data(), q.data() + z); m = q; muts++; break;
            }
            case 2: if (n) { size_t p = a % n; switch (b % 4) { case 0: k[p] = t; break; case 1: k.begin()[p] = t; break; case 2: k.data()[p] = t; break; default: *(k.rbegin() + (n - 1 - p)) = t; break; } m[p] = t; muts++; } break;
            case 3: { size_t j = a % v.size(); *x.k = std::as_const(*v[j].k); if (j != i) m = v[j].m; transfers++; break; }
            case 4: { size_t j = a % v.size(); if (j != i) { *x.k = std::move(*v[j].k); m = std::move(v[j].m); v[j].m.clear(); transfers++; } break; }
            case 5: if (v.size() > 1) v.erase(v.begin() + i); return;
            default: { K& self = k; if (b % 2) k = std::as_const(self); else k = std::move(self); transfers++; break; }
            }
        }
        static void run(Src& s, const char* name)
        {
            try
            {
                pbt::log("trivial_array<%s>", name);
                nullForZero = s.flag(1, 3);
                {
                    Arr x;
                    x.construct(s); x.all();
                    s.maxSteps = 20 + 2 * s.sizeHint();
                    while (s.more(30))
                    {
                        pbt::Span sp;
                        if (x.v.size() < 5 && s.flag(1, 5)) x.construct(s); else x.step(s);
                        x.all();
                    }
                    if (x.muts >= 4 && x.resizes >= 1 && x.transfers >= 1) pbt::nontrivial();
                    while (!x.v.empty()) { x.v.pop_back(); x.all(); }
                }
                settle(); leaf::checkErrors();
                WANT(ALLOC, blocks.empty(), "%zu blocks were never deallocated", blocks.size());
            }
            catch (const Stop&) {}
        }
    };
}
