// C32: a container operation that throws leaks nothing, leaves its source alone and the container usable
#include "heapdrv.h"
#include "driver.h"
using namespace cont;
using leaf::Boom;

namespace
{
    [[noreturn]] void escaped() { fputs("std::terminate: an exception met a function declared noexcept\n", stderr); abort(); }

    // several unequal instances; allocate, construct may throw
    template<typename T, unsigned F> struct Thr
    {
        typedef T value_type; int g = 0;
        template<typename U> struct rebind { typedef Thr<U, F> other; };
        Thr() noexcept = default;
        explicit Thr(int x) noexcept : g(x) {}
        template<typename U> Thr(const Thr<U, F>& o) noexcept : g(o.g) {}
        T* allocate(size_t n) { leaf::tick(); return static_cast<T*>(take(g, n, n * sizeof(T))); }
        void deallocate(T* p, size_t n) noexcept { give(g, p, n, n * sizeof(T)); }
        template<typename U, typename... X, unsigned Q = F> std::enable_if_t<(Q & 1) != 0> construct(U* p, X&&... x) { ::new ((void*)p) U(std::forward<X>(x)...); constructs++; }
        template<typename U, unsigned Q = F> std::enable_if_t<(Q & 1) != 0> destroy(U* p) { destroys++; p->~U(); }
        bool operator==(const Thr& o) const noexcept { return g == o.g; }
        bool operator!=(const Thr& o) const noexcept { return g != o.g; }
    };
    struct ThrowCopy : Tracked<ThrowCopy>      // copying may throw, moving does not
    {
        using Tracked::Tracked;
        ThrowCopy(const ThrowCopy& o) : Tracked((alive(&o, "copying from"), leaf::tick(), Raw())) { born(this, sizeof *this, "by copying"); copy(o); }
        ThrowCopy(ThrowCopy&& o) noexcept : Tracked(Raw()) { alive(&o, "moving from"); born(this, sizeof *this, "by moving"); steal(o); }
        ThrowCopy& operator=(const ThrowCopy& o) { alive(this, "assigning to"); alive(&o, "assigning from"); leaf::tick(); if (this != &o) { delete v; copy(o); } return *this; }
        ThrowCopy& operator=(ThrowCopy&& o) noexcept { alive(this, "assigning to"); alive(&o, "assigning from"); if (this != &o) { delete v; steal(o); } return *this; }
    };
    struct ThrowBoth : Tracked<ThrowBoth>      // both may throw; a move that throws leaves its source as it was
    {
        using Tracked::Tracked;
        ThrowBoth(const ThrowBoth& o) : Tracked((alive(&o, "copying from"), leaf::tick(), Raw())) { born(this, sizeof *this, "by copying"); copy(o); }
        ThrowBoth(ThrowBoth&& o) noexcept(false) : Tracked((alive(&o, "moving from"), leaf::tick(), Raw())) { born(this, sizeof *this, "by moving"); steal(o); }
        ThrowBoth& operator=(const ThrowBoth& o) { alive(this, "assigning to"); alive(&o, "assigning from"); leaf::tick(); if (this != &o) { delete v; copy(o); } return *this; }
        ThrowBoth& operator=(ThrowBoth&& o) noexcept(false) { alive(this, "assigning to"); alive(&o, "assigning from"); leaf::tick(); if (this != &o) { delete v; steal(o); } return *this; }
    };

    unsigned thrown, after; bool any;
    template<typename F, typename G> void inject(Src& s, const char* what, F f, G left)
    {
        unsigned limit = s.flag(3, 4) ? unsigned(s.range(1, 8)) : 0;
        for (unsigned k = 1; k <= limit; k++)
        {
            uint64_t seq = leaf::booms + 1; leaf::fuse = k;
            try { f(); leaf::fuse = 0; CHECK(leaf::booms + 1 == seq, "%s: an exception did not reach the caller", what); if (any) after++; return; }
            catch (const Boom& b)
            {
                leaf::fuse = 0;
                CHECK(b.n == seq, "%s: another exception than the one thrown reached the caller", what);
                pbt::log("%s: threw at %u", what, k); thrown++; any = true;
                left();
            }
        }
        f();
        if (any) after++;
    }

    template<typename T, typename C, typename A> void heaps(Src& s, const char* name)
    {
        typedef ktl::binary_heap<T, C, A> K;
        struct E { int k, id; bool operator<(const E& o) const { return id < o.id; } bool operator==(const E& o) const { return k == o.k && id == o.id; } };
        struct Slot { std::unique_ptr<K> k; std::vector<E> m; C c; };
        pbt::log("binary_heap<%s>", name);
        constexpr bool moveThrows = !std::is_nothrow_move_constructible_v<T>;
        {
            std::vector<Slot> v; A al[3] = { A(0), A(1), A(2) }; int ids = 0;
            auto contents = [](K& k) { std::vector<E> r; for (auto& t : k) r.push_back({t.key(), t.ident()}); std::sort(r.begin(), r.end()); return r; };
            auto check = [&](Slot& x, const char* what)
            {
                std::sort(x.m.begin(), x.m.end());
                CHECK(x.k->size() == x.m.size() && x.k->empty() == x.m.empty() && x.k->capacity() >= x.k->size(), "%s: a heap of %zu elements says it has %zu (capacity %zu)", what, x.m.size(), x.k->size(), x.k->capacity());
                CHECK(contents(*x.k) == x.m, "%s: the heap does not hold the elements it should", what);
                if (x.m.size()) for (auto& e : x.m) CHECK(!x.c.before(e.k, x.k->peek().key()), "%s: peek() gives key %d although key %d precedes it", what, x.k->peek().key(), e.k);
                if (x.k->capacity()) { CHECK(groupOf(x.k->data()) >= 0 && blocks[(char*)x.k->data()].n == x.k->capacity(), "%s: the storage of a heap is not a live block of its capacity", what); CHECK(liveIn(x.k->data(), x.k->capacity() * sizeof(T)) == x.m.size(), "%s: %zu elements are alive in the storage of a heap of %zu", what, liveIn(x.k->data(), x.k->capacity() * sizeof(T)), x.m.size()); }
            };
            auto all = [&](const char* what)
            {
                settle(); size_t n = 0, b = 0;
                for (auto& x : v) { check(x, what); n += x.m.size(); b += x.k->capacity() ? 1 : groupOf(x.k->data()) >= 0; }
                CHECK(liveObjects() == n, "%s: %zu elements are alive, the heaps hold %zu", what, liveObjects(), n);
                CHECK(blocks.size() <= v.size() && blocks.size() >= b, "%s: %zu blocks are live for %zu heaps", what, blocks.size(), v.size());
                settle();
            };
            s.maxSteps = 25 + s.sizeHint();
            while (s.more(25))
            {
                pbt::Span sp;
                size_t i = v.empty() ? 0 : s.draw(v.size()), j = v.empty() ? 0 : s.draw(v.size()); int g = int(s.draw(3)); bool ex = s.flag(); unsigned mode = unsigned(s.draw(4));
                bool room = v.size() < 4; size_t n = s.draw(6);
                static const unsigned w[] = { 3, 6, 4, 4, 4, 4, 2, 1, 1, 1 };
                unsigned op = s.pick(w);
                if (v.empty()) op = op == 2 ? 2 : 0;
                if (op == 2 && moveThrows) op = 0;        // its insert() moves and cannot throw
                switch (op)
                {
                case 0: if (room) { Slot x; x.c = C::make(mode); x.k.reset(ex ? new K(al[g], x.c) : new K(x.c)); v.push_back(std::move(x)); } break;
                case 1:
                {
                    Slot& x = v[i]; if (x.m.size() > 12) break;
                    for (size_t k = 0; k <= n; k++) { int key = int(s.draw(20)), id = ++ids; x.k->insert(T(key, id)); x.m.push_back({key, id}); }
                    pbt::log("%zu:insert %zu", i, n + 1); break;
                }
                case 2:
                    if (room)
                    {
                        Slot x; x.c = C::make(mode); int a = int(s.draw(20)), b = int(s.draw(20)), c = int(s.draw(20)), id = ids + 1; ids += 3;
                        if constexpr (!moveThrows)
                        {
                            T t0(a, id), t1(b, id + 1), t2(c, id + 2);
                            inject(s, "construction from a list", [&]
                            {
                                // the list itself is made from copies, which do not count here
                                struct Off { int64_t f = leaf::fuse; Off() { leaf::fuse = 0; } } off; std::initializer_list<T> l = { T(a, id), T(b, id + 1), T(c, id + 2) }; leaf::fuse = off.f;
                                if (ex) x.k.reset(new K(l, al[g], x.c)); else x.k.reset(new K(l, x.c));
                            }, [&] { settle(); CHECK(!x.k && liveObjects() == 3 + [&] { size_t z = 0; for (auto& y : v) z += y.m.size(); return z; }(), "construction from a list threw and left elements alive"); });
                            x.m = {{a, id}, {b, id + 1}, {c, id + 2}};
                        }
                        v.push_back(std::move(x));
                    }
                    break;
                case 3:
                    if (room) { Slot x; x.c = v[j].c; x.m = v[j].m; inject(s, "copy construction", [&] { if (ex) x.k.reset(new K(std::as_const(*v[j].k), al[g])); else x.k.reset(new K(std::as_const(*v[j].k))); }, [&] { all("copy construction threw"); }); v.push_back(std::move(x)); }
                    break;
                case 4:
                    if (i != j)
                    {
                        Slot &x = v[i], &y = v[j]; std::vector<E> old = x.m; C oc = x.c;
                        inject(s, "copy assignment", [&] { *x.k = std::as_const(*y.k); }, [&]
                        {
                            settle();
                            // whatever it holds now, old elements or copies, it holds properly; it can be emptied and used
                            std::vector<E> now = contents(*x.k), both = x.m; both.insert(both.end(), y.m.begin(), y.m.end());
                            for (auto& e : now) CHECK(std::find(both.begin(), both.end(), e) != both.end(), "copy assignment threw and left an element that was in neither heap");
                            if (s.flag()) x.k->clear(), now.clear(); else while (!x.k->empty()) { T t = x.k->pop(); (void)t; } now.clear();
                            x.m.clear(); all("copy assignment threw");
                        });
                        x.m = y.m; x.c = y.c;
                    }
                    break;
                case 5:
                    if (room)
                    {
                        Slot x; x.c = v[j].c; std::vector<E> want = v[j].m; bool lost = false;
                        if constexpr (!moveThrows) x.k.reset(new K(std::move(*v[j].k), al[g]));        // declared not to throw
                        else inject(s, "move construction with an allocator", [&] { x.k.reset(new K(std::move(*v[j].k), al[g])); }, [&]
                        {
                            settle();
                            // the source may have lost values, but only those moved out of it
                            size_t gone = 0; for (auto& t : *v[j].k) gone += t.ident() == -1;
                            CHECK(v[j].k->size() == want.size() || moveThrows, "a move that threw changed the size of its source");
                            if (!gone && v[j].k->size() == want.size()) { all("move construction threw"); return; }
                            v[j].k->clear(); v[j].m.clear(); want.clear(); lost = true; all("move construction threw");
                        });
                        (void)lost; x.m = want; v[j].m.clear(); v.push_back(std::move(x));
                    }
                    break;
                case 6: if (!v[i].m.empty()) { T t = v[i].k->pop(); auto& m = v[i].m; auto it = std::find(m.begin(), m.end(), E{t.key(), t.ident()}); CHECK(it != m.end(), "pop() gave an element that is not in the heap"); m.erase(it); } break;
                case 7: if (i != j) { *v[i].k = std::move(*v[j].k); v[i].m = std::move(v[j].m); v[j].m.clear(); v[i].c = v[j].c; } break;
                case 8: if (v.size() > 1) v.erase(v.begin() + i); break;
                default: v[i].k->reserve(n * 3); break;
                }
                all("history");
            }
            if (thrown >= 2 && after >= 1) pbt::nontrivial();
        }
        settle();
        CHECK(liveObjects() == 0, "%zu elements were never destroyed", liveObjects());
        CHECK(constructs == destroys, "%llu elements were constructed but %llu destroyed through the allocator", (unsigned long long)constructs, (unsigned long long)destroys);
        CHECK(blocks.empty(), "%zu blocks were never deallocated", blocks.size());
    }

    template<typename T, typename A> void arrays(Src& s, const char* name)
    {
        typedef ktl::trivial_array<T, A> K; typedef ktl::trivial_vector<T, A> V;
        pbt::log("trivial_array<%s>", name);
        {
            struct Slot { std::unique_ptr<K> k; std::vector<T> m; std::vector<bool> known; };
            std::vector<Slot> v; A al[2] = { A(0), A(1) }; unsigned vals = 1;
            auto all = [&](const char* what)
            {
                settle(); size_t b = 0;
                for (auto& x : v)
                {
                    CHECK(x.k->size() == x.m.size(), "%s: the array has %zu elements instead of %zu", what, x.k->size(), x.m.size());
                    for (size_t i = 0; i < x.m.size(); i++) CHECK(!x.known[i] || eq((*x.k)[i], x.m[i]), "%s: element %zu of the array changed", what, i);
                    b += !x.m.empty();
                }
                CHECK(blocks.size() >= b && blocks.size() <= v.size(), "%s: %zu blocks are live for %zu arrays", what, blocks.size(), v.size());
            };
            s.maxSteps = 25;
            while (s.more(20))
            {
                pbt::Span sp; size_t i = v.empty() ? 0 : s.draw(v.size()), n = s.draw(10); int g = int(s.draw(2)); bool ex = s.flag();
                std::vector<T> src; for (size_t k = 0; k < n; k++) src.push_back(mk<T>(vals++));
                const T* p = src.data(); T one = mk<T>(vals++);
                unsigned op = unsigned(s.draw(8)); if (v.empty() && op > 3 && op < 6) op = 0;
                auto nothing = [&] { all("construction threw"); };
                switch (op)
                {
                case 0: case 1: case 2: case 3:
                    if (v.size() < 4)
                    {
                        Slot x; x.m = src; x.known.assign(n, true); const A& a = ex ? al[g] : al[0];
                        inject(s, "array construction", [&]
                        {
                            if (op == 0) x.k.reset(new K(p, p + n, a));
                            else if (op == 1) { x.k.reset(new K(n, one, a)); x.m.assign(n, one); }
                            else if (op == 2) { x.k.reset(new K(n, a)); x.known.assign(n, false); }
                            else { x.k.reset(new K({one, one, one}, a)); x.m.assign(3, one); x.known.assign(3, true); }
                        }, nothing);
                        v.push_back(std::move(x));
                    }
                    break;
                case 4: inject(s, "resize", [&] { v[i].k->resize(n); }, [&] { all("resize() threw"); }); v[i].m.resize(n); v[i].known.resize(n, false); break;
                case 5: inject(s, "assign", [&] { v[i].k->assign(p, p + n); }, [&] { all("assign() threw"); }); v[i].m = src; v[i].known.assign(n, true); break;
                case 6: if (v.size() > 1) v.erase(v.begin() + i); break;
                default:
                {
                    size_t before = blocks.size();
                    inject(s, "vector construction", [&]
                    {
                        std::unique_ptr<V> x;
                        switch (n % 4) { case 0: x.reset(new V(n, al[g])); CHECK(x->size() == n, "size"); break; case 1: x.reset(new V(p, p + n, al[g])); break; case 2: x.reset(new V(n, one, al[g])); break; default: x.reset(new V({one, one}, al[g])); break; }
                        leaf::fuse = 0;        // the rest is declared not to throw
                        x->push_back(one); x->push_back(p, p + n); CHECK(x->size() == (n % 4 == 3 ? 2 : n) + 1 + n && eq((*x)[x->size() - n - 1], one), "content");
                    }, [&] { settle(); CHECK(blocks.size() == before, "the construction of a vector threw and leaked its block"); });
                    break;
                }
                }
                all("history");
            }
            if (thrown >= 2 && after >= 1) pbt::nontrivial();
        }
        settle(); CHECK(blocks.empty(), "%zu blocks were never deallocated", blocks.size());
    }
}
static void containers(Src& s)
{
    thrown = after = 0; any = false; cont::checks = CONTENT | ALLOC | LIFE;
    nullForZero = s.flag(1, 3);
#define V(T, C, ...) heaps<T, C, __VA_ARGS__>(s, #T "," #C "," #__VA_ARGS__)
    switch (s.draw(9))
    {
    case 0: V(ThrowCopy, Less, Thr<ThrowCopy, 1>); break;
    case 1: V(ThrowCopy, Flex, Thr<ThrowCopy, 0>); break;
    case 2: V(ThrowBoth, Less, Thr<ThrowBoth, 1>); break;
    case 3: V(ThrowBoth, Flex, Thr<ThrowBoth, 0>); break;
    case 4: V(ThrowCopy, Greater, Thr<ThrowCopy, 1>); break;
    case 5: V(ThrowBoth, Greater, Thr<ThrowBoth, 1>); break;
    case 6: arrays<S3, Thr<S3, 0>>(s, "S3"); break;
    case 7: arrays<int, Thr<int, 1>>(s, "int"); break;
    default: arrays<Big, Thr<Big, 0>>(s, "Big"); break;
    }
#undef V
}
pbt::Prop pbt::props[] = {
    {"containers", containers, 1, "non-trivial if at least two operations threw and one that can throw succeeded afterwards"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { drv::resetAll(); cont::reset(); std::set_terminate(escaped); }
