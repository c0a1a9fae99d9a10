// Histories over several binary_heaps against a multiset
#pragma once
#include "cont.h"
#include <string>

namespace cont
{
    // comparators; Flex carries its order with it
    struct Less { template<typename T> bool operator()(const T& a, const T& b) const { return a.key() < b.key(); } static Less make(unsigned) { return {}; } bool before(int a, int b) const { return a < b; } };
    struct Greater { template<typename T> bool operator()(const T& a, const T& b) const { return a.key() > b.key(); } static Greater make(unsigned) { return {}; } bool before(int a, int b) const { return a > b; } };
    struct Flex
    {
        unsigned mode = 0;
        bool before(int a, int b) const { switch (mode) { case 0: return a < b; case 1: return a > b; case 2: return a / 4 < b / 4; default: return a % 5 > b % 5; } }
        template<typename T> bool operator()(const T& a, const T& b) const { return before(a.key(), b.key()); }
        static Flex make(unsigned m) { return Flex{m % 4}; }
    };

    struct Plain       // trivially copyable
    {
        int k, id;
        Plain() : k(0), id(0) {} Plain(int a, int b) : k(a), id(b) {}
        int key() const { return k; } int ident() const { return id; }
        bool operator==(const Plain& o) const { return k == o.k && id == o.id; }
        static constexpr bool copyable = true;
    };
    // Owns memory and reports every use outside of its lifetime
    template<typename D> struct Tracked
    {
        int* v; int id;
        Tracked(int k, int i) : v(new int(k)), id(i) { born(this, sizeof *this, "from values"); }
        ~Tracked() { dead(this); delete v; v = nullptr; id = -9; }
        int key() const { alive(this, "comparing"); return v ? *v : INT32_MIN / 2; }
        int ident() const { return id; }
        bool operator==(const Tracked& o) const { alive(this, "comparing"); alive(&o, "comparing"); return key() == o.key() && id == o.id; }
    protected:
        void steal(Tracked& o) { v = o.v; o.v = nullptr; id = o.id; o.id = -1; }
        void copy(const Tracked& o) { v = o.v ? new int(*o.v) : nullptr; id = o.id; }
        struct Raw {}; explicit Tracked(Raw) : v(nullptr), id(-2) {}
    };
    struct Copyable : Tracked<Copyable>
    {
        static constexpr bool copyable = true;
        using Tracked::Tracked;
        Copyable(const Copyable& o) : Tracked(Raw()) { alive(&o, "copying from"); born(this, sizeof *this, "by copying"); copy(o); }
        Copyable(Copyable&& o) noexcept : Tracked(Raw()) { alive(&o, "moving from"); born(this, sizeof *this, "by moving"); steal(o); }
        Copyable& operator=(const Copyable& o) { alive(this, "assigning to"); alive(&o, "assigning from"); if (this != &o) { delete v; copy(o); } return *this; }
        Copyable& operator=(Copyable&& o) noexcept { alive(this, "assigning to"); alive(&o, "assigning from"); if (this != &o) { delete v; steal(o); } return *this; }
    };
    // equality does not follow from the order
    struct Named : Plain
    {
        static constexpr bool byName = true;
        using Plain::Plain;
        bool operator==(const Named& o) const { return id == o.id; }
    };
    template<typename T, typename = void> struct byName : std::false_type {};
    template<typename T> struct byName<T, std::enable_if_t<T::byName>> : std::true_type {};
    struct MoveOnly : Tracked<MoveOnly>
    {
        static constexpr bool copyable = false;
        using Tracked::Tracked;
        MoveOnly(MoveOnly&& o) noexcept : Tracked(Raw()) { alive(&o, "moving from"); born(this, sizeof *this, "by moving"); steal(o); }
        MoveOnly& operator=(MoveOnly&& o) noexcept { alive(this, "assigning to"); alive(&o, "assigning from"); if (this != &o) { delete v; steal(o); } return *this; }
    };

    template<typename T, typename C, typename A> struct Heap
    {
        typedef ktl::binary_heap<T, C, A> K;
        struct E { int k, id; };
        struct Slot { std::unique_ptr<K> k; std::vector<E> m; C c; };
        static constexpr bool tracked = Maker<A>::tracked;
        std::vector<Slot> v; A al[3]; int ids = 0;
        unsigned inserts = 0, pops = 0, transfers = 0, grows = 0;

        Heap() : al{Maker<A>::make(0), Maker<A>::make(1), Maker<A>::make(2)} {}

        void check(const Slot& x)
        {
            K& k = *x.k; const K& c = k; auto& m = x.m; size_t n = m.size();
            WANT(CONTENT, k.size() == n, "size() is %zu, expected %zu", k.size(), n);
            WANT(CONTENT, k.empty() == m.empty(), "empty() is wrong");
            WANT(CONTENT, k.capacity() >= k.size(), "capacity() %zu is less than size() %zu", k.capacity(), k.size());
            WANT(CONTENT, k.begin() == k.data() && c.begin() == c.data() && c.data() == k.data() && size_t(k.end() - k.begin()) == n && size_t(c.end() - c.begin()) == n, "begin/end/data disagree");
            WANT(LIFE, (!tracked || std::is_base_of_v<Plain, T> || !k.capacity() || liveIn(k.data(), k.capacity() * sizeof(T)) == n), "%zu elements are alive in the storage of a heap of %zu", liveIn(k.data(), k.capacity() * sizeof(T)), n);
            std::vector<std::pair<int, int>> a, b, r;
            for (auto& e : m) a.push_back({e.id, e.k});
            for (const T& t : c) b.push_back({t.ident(), t.key()});
            for (auto it = c.rbegin(); it != c.rend(); ++it) r.push_back({it->ident(), it->key()});
            std::reverse(r.begin(), r.end());
            WANT(CONTENT, r == b, "reverse iteration gives another sequence");
            r.clear(); for (auto it = k.rbegin(); it != k.rend(); ++it) r.push_back({it->ident(), it->key()});
            std::reverse(r.begin(), r.end());
            WANT(CONTENT, r == b, "reverse iteration gives another sequence");
            std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
            WANT(CONTENT, a == b, "the heap does not hold exactly the elements inserted and not removed");
            if (n)
            {
                int root = k.peek().key();
                for (auto& e : m) WANT(CONTENT, !x.c.before(e.k, root), "peek() gives key %d although key %d precedes it", root, e.k);
            }
            if constexpr (tracked) if (k.capacity())
            {
                WANT(ALLOC, groupOf(k.data()) >= 0, "the storage of a heap is not a live block of an allocator");
                WANT(ALLOC, blocks[(char*)k.data()].n == k.capacity(), "a heap with capacity %zu holds a block of %zu elements", k.capacity(), blocks[(char*)k.data()].n);
            }
        }
        void uses(const Slot& x, int g)
        {
            if constexpr (tracked) if (x.k->capacity()) WANT(ALLOC, groupOf(x.k->data()) == g, "a heap constructed with allocator %d has its storage in allocator %d", g, groupOf(x.k->data()));
            (void)x; (void)g;
        }
        void all() { settle(); for (auto& x : v) check(x); settle(); }

        void construct(Src& s)
        {
            size_t n = s.draw(8), j = v.empty() ? 0 : s.draw(v.size()); int g = int(s.draw(3)); bool ex = s.flag(2, 3); unsigned how = unsigned(s.draw(7)), mode = unsigned(s.draw(4)); int k0 = int(s.draw(30));
            if (v.empty() && how > 2) how = 0;
            if (!T::copyable && (how == 2 || how == 3 || how == 5)) how = how == 2 ? 1 : how + 1;
            static const char* names[] = { "default", "capacity", "list", "copy", "move", "copy+alloc", "move+alloc" };
            pbt::log("%zu=%s(%zu,from %zu)%s%d", v.size(), names[how], n, j, ex ? "@" : " ", g);
            Slot x; x.c = C::make(mode); if (!ex) g = 0; const C& c = x.c;
            switch (how)
            {
            case 0: if (ex) x.k.reset(new K(al[g], c)); else x.k.reset(new K(c)); break;
            case 1: if (ex) x.k.reset(new K(n, al[g], c)); else x.k.reset(new K(n, c)); WANT(CONTENT, x.k->capacity() >= n, "capacity() is %zu after constructing with capacity %zu", x.k->capacity(), n); break;
            case 2:
                if constexpr (T::copyable)
                {
                    int i1 = ++ids, i2 = ++ids, i3 = ++ids;
                    if (ex) x.k.reset(new K({T(k0, i1), T(k0 / 2, i2), T(k0 + 3, i3)}, al[g], c)); else x.k.reset(new K({T(k0, i1), T(k0 / 2, i2), T(k0 + 3, i3)}, c));
                    x.m = {{k0, i1}, {k0 / 2, i2}, {k0 + 3, i3}};
                }
                break;
            case 3: if constexpr (T::copyable) { x.k.reset(new K(std::as_const(*v[j].k))); x.m = v[j].m; } x.c = v[j].c; ex = false; transfers++; break;
            case 4: x.k.reset(new K(std::move(*v[j].k))); x.m = std::move(v[j].m); v[j].m.clear(); x.c = v[j].c; ex = false; transfers++; break;
            case 5: if constexpr (T::copyable) { x.k.reset(new K(std::as_const(*v[j].k), al[g])); x.m = v[j].m; } x.c = v[j].c; ex = true; transfers++; break;
            default: x.k.reset(new K(std::move(*v[j].k), al[g])); x.m = std::move(v[j].m); v[j].m.clear(); x.c = v[j].c; ex = true; transfers++; break;
            }
            v.push_back(std::move(x));
            if (ex) uses(v.back(), g);
        }
        // returns false if the model's element is not there
        void removed(Slot& x, int id, int key, const char* what)
        {
            auto it = std::find_if(x.m.begin(), x.m.end(), [&](const E& e) { return e.id == id; });
            WANT(CONTENT, it != x.m.end() && it->k == key, "%s gave an element that is not in the heap", what);
            for (auto& e : x.m) WANT(CONTENT, !x.c.before(e.k, key), "%s gave key %d although key %d precedes it", what, key, e.k);
            x.m.erase(it);
        }
        void step(Src& s)
        {
            size_t i = s.draw(v.size()); Slot& x = v[i]; K& k = *x.k; size_t n = x.m.size();
            int key = int(s.draw(24)); size_t a = s.draw(16);
            static const unsigned w[] = { 8, 7, 3, 2, 1, 3, 3, 1, 2, 2, 2 };
            unsigned op = s.pick(w); if (n > 200) op = 4;
            if (!T::copyable && (op == 5 || op == 8)) op = 0;
            static const char* names[] = { "insert", "pop", "find", "reserve", "clear", "copy-assign", "move-assign", "drop", "own element", "self-assign", "drain" };
            pbt::log("%zu:%s(%d,%zu)", i, names[op], key, a);
            size_t cap = k.capacity();
            auto where = [&](T* p, int id) { WANT(CONTENT, p >= k.begin() && p < k.end() && p->ident() == id, "insert did not return an iterator to the inserted element"); };
            switch (op)
            {
            case 0:
            {
                int id = ++ids;
                if constexpr (T::copyable)
                {
                    T t(key, id);
                    if (a % 3 == 0) where(k.insert(t), id); else if (a % 3 == 1) where(k.insert(std::as_const(t)), id); else where(k.insert(std::move(t)), id);
                }
                else { T t(key, id); where(k.insert(std::move(t)), id); }
                x.m.push_back({key, id}); inserts++; break;
            }
            case 1: if (n) { T t = k.pop(); removed(x, t.ident(), t.key(), "pop()"); pops++; } break;
            case 2:
            {
                bool have = n && (a & 1); E e = have ? x.m[size_t(key) % n] : E{key, -5};
                T t(byName<T>::value ? int(a) * 2 - 4 : e.k, e.id); auto* p = std::as_const(k).find(t);
                if (have) WANT(CONTENT, p >= k.begin() && p < k.end() && p->ident() == e.id, "find() did not find an element that is present");
                else WANT(CONTENT, p == k.end(), "find() found an element that is not present");
                break;
            }
            case 3: k.reserve(a * 2); WANT(CONTENT, k.capacity() >= a * 2, "capacity() is %zu after reserve(%zu)", k.capacity(), a * 2); break;
            case 4: k.clear(); x.m.clear(); break;
            case 5: if constexpr (T::copyable) { size_t j = a % v.size(); *x.k = std::as_const(*v[j].k); if (j != i) { x.m = v[j].m; x.c = v[j].c; } transfers++; } break;
            case 6: { size_t j = a % v.size(); if (j != i) { *x.k = std::move(*v[j].k); x.m = std::move(v[j].m); v[j].m.clear(); x.c = v[j].c; transfers++; } break; }
            case 7: if (v.size() > 1) v.erase(v.begin() + i); return;
            case 8:
                if constexpr (T::copyable)
                    if (n)      // a copy of one of its own elements, possibly while growing
                    {
                        const T& own = k.begin()[a % n]; int id = own.ident(), kk = own.key();
                        T* p = k.insert(own);
                        WANT(CONTENT, p >= k.begin() && p < k.end() && p->ident() == id && p->key() == kk, "insert did not return an iterator to the inserted element");
                        // give the copy an identity of its own
                        p->id = ++ids; x.m.push_back({kk, p->id}); inserts++;
                    }
                break;
            case 9: { K& self = k; if constexpr (T::copyable) { if (a % 2) { k = std::as_const(self); transfers++; break; } } k = std::move(self); transfers++; break; }
            default:
                while (!x.m.empty()) { T t = k.pop(); removed(x, t.ident(), t.key(), "pop()"); pops++; settle(); }
                WANT(CONTENT, k.empty() && k.size() == 0, "the heap is not empty after popping everything");
                break;
            }
            if (k.capacity() > cap && n) grows++;
        }
        static void run(Src& s, const char* name)
        {
            try
            {
                pbt::log("binary_heap<%s>", name);
                nullForZero = s.flag(1, 3);
                {
                    Heap x;
                    x.construct(s); x.all();
                    s.maxSteps = 20 + 2 * s.sizeHint();
                    while (s.more(40))
                    {
                        pbt::Span sp;
                        if (x.v.size() < 4 && s.flag(1, 6)) x.construct(s); else x.step(s);
                        x.all();
                    }
                    if (x.inserts >= 4 && x.pops >= 2 && x.grows >= 1 && x.transfers >= 1) pbt::nontrivial();
                    bool drain = s.flag();
                    while (!x.v.empty())
                    {
                        auto& y = x.v.back();
                        if (drain) while (!y.m.empty()) { T t = y.k->pop(); x.removed(y, t.ident(), t.key(), "pop()"); settle(); }
                        x.v.pop_back(); x.all();
                    }
                }
                settle(); leaf::checkErrors();
                WANT(LIFE, liveObjects() == 0, "%zu elements were never destroyed", liveObjects());
                WANT(LIFE, constructs == destroys, "%llu elements were constructed but %llu destroyed through the allocator", (unsigned long long)constructs, (unsigned long long)destroys);
                WANT(ALLOC, blocks.empty(), "%zu blocks were never deallocated", blocks.size());
            }
            catch (const Stop&) {}
        }
    };
}
