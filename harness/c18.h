// C18: standard containers on typed KTL allocators against the same containers on std::allocator
#pragma once
#include "driver.h"
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <string>
#include <unordered_map>

namespace stl
{
    using pbt::Src;
    struct Elem     // owns memory, counts itself
    {
        static int64_t live; int* p;
        Elem(int v = 0) : p(new int(v)) { live++; }
        Elem(const Elem& o) : p(new int(*o)) { live++; }
        Elem(Elem&& o) : p(new int(*o)) { *o.p = -1; live++; }
        Elem& operator=(const Elem& o) { *p = *o; return *this; }
        Elem& operator=(Elem&& o) { int v = *o; *o.p = -1; *p = v; return *this; }
        ~Elem() { delete p; p = nullptr; live--; }
        int operator*() const { return *p; }
        bool operator==(const Elem& o) const { return **this == *o; }
        bool operator!=(const Elem& o) const { return **this != *o; }
        bool operator<(const Elem& o) const { return **this < *o; }
    };
    struct Hash { size_t operator()(const Elem& e) const { return size_t(*e * 7 % 31); } size_t operator()(int e) const { return size_t(e % 13); } };
    struct Wide { alignas(16) int v; char pad[44]; Wide(int x = 0) : v(x) { memset(pad, x, sizeof pad); } bool operator==(const Wide& o) const { return v == o.v && !memcmp(pad, o.pad, sizeof pad); } bool operator!=(const Wide& o) const { return !(*this == o); } bool operator<(const Wide& o) const { return v < o.v; } };

    struct Suite { const char* name; void (*fn)(Src&, const char*); };
    std::vector<Suite>& suites();
    struct Reg { Reg(const char* n, void (*f)(Src&, const char*)) { suites().push_back({n, f}); } };

    template<typename C> struct kind { static constexpr bool vec = false, deq = false, lst = false, fwd = false, str = false; };
    template<typename T, typename A> struct kind<std::vector<T, A>> : kind<void> { static constexpr bool vec = true; };
    template<typename T, typename A> struct kind<std::deque<T, A>> : kind<void> { static constexpr bool deq = true; };
    template<typename T, typename A> struct kind<std::list<T, A>> : kind<void> { static constexpr bool lst = true; };
    template<typename T, typename A> struct kind<std::basic_string<T, std::char_traits<T>, A>> : kind<void> { static constexpr bool str = true; };

    template<typename K, typename S, typename T> struct Pair { K k; S s; };

    template<typename K, typename S> void same(const K& k, const S& s, const char* what)
    {
        CHECK(k.size() == s.size(), "%s: size() is %zu, with std::allocator it is %zu", what, size_t(k.size()), size_t(s.size()));
        auto a = k.begin(); auto b = s.begin(); size_t n = 0;
        for (; b != s.end() && a != k.end(); ++a, ++b, ++n) CHECK(*a == *b, "%s: element %zu differs from the one with std::allocator", what, n);
        CHECK(a == k.end() && b == s.end(), "%s: iteration ends after %zu elements", what, n);
    }
    // element by element through [key], since the iteration order of two unordered containers may differ after rehashes
    template<typename K, typename S> void sameMap(const K& k, const S& s, const char* what)
    {
        CHECK(k.size() == s.size(), "%s: size() is %zu, with std::allocator it is %zu", what, size_t(k.size()), size_t(s.size()));
        size_t n = 0;
        for (auto& x : k) { auto it = s.find(x.first); CHECK(it != s.end() && it->second == x.second, "%s: an element differs from the one with std::allocator", what); n++; }
        CHECK(n == s.size(), "%s: iteration visits %zu of %zu elements", what, n, size_t(s.size()));
    }

    // vector, deque, list, string
    template<typename K, typename S, typename A> void sequence(Src& s, const A* al, const char* what)
    {
        typedef typename S::value_type T;
        typedef kind<S> kd;
        struct P { K k; S s; };
        std::vector<std::unique_ptr<P>> v;
        auto alloc = [&](size_t i) { return typename K::allocator_type(al[i]); };
        auto add = [&](K&& k, S&& t) { (void)k; (void)t; };
        (void)add;
        v.push_back(std::unique_ptr<P>(new P{K(alloc(0)), S()}));
        unsigned muts = 0, transfers = 0;
        s.maxSteps = 20 + 2 * s.sizeHint();
        while (s.more(30))
        {
            pbt::Span sp;
            size_t i = s.draw(v.size()), j = s.draw(v.size()); P& p = *v[i]; P& q = *v[j];
            size_t n = p.s.size(), at = n ? s.draw(n + 1) : 0; int val = int(s.draw(50)); size_t cnt = s.draw(12);
            auto each = [&](auto f) { f(p.s); f(p.k); };
            auto pos = [&](auto& c, size_t x) { auto it = c.begin(); std::advance(it, x); return it; };
            static const unsigned w[] = { 8, 2, 4, 2, 3, 3, 2, 2, 1, 1, 2, 2, 2, 2, 2, 2, 2, 1, 1, 4, 2 };
            unsigned op = s.pick(w);
            static const char* names[] = { "push_back", "pop_back", "insert", "insert n", "insert range", "erase", "erase range", "resize", "assign", "clear", "copy", "copy with allocator", "move", "move with allocator", "copy-assign", "move-assign", "swap", "shrink", "drop", "special", "write" };
            pbt::log("%zu:%s(%zu,%zu,%d,%zu)", i, names[op], j, at, val, cnt);
            bool room = v.size() < 6; if (n > 150) op = 9;
            switch (op)
            {
            case 0: each([&](auto& c) { c.push_back(T(val)); }); muts++; break;
            case 1: if (n) { each([&](auto& c) { c.pop_back(); }); muts++; } break;
            case 2: each([&](auto& c) { c.insert(pos(c, at), T(val)); }); muts++; break;
            case 3: each([&](auto& c) { c.insert(pos(c, at), cnt, T(val)); }); muts++; break;
            case 4: if (i != j && q.s.size() < 60) { p.s.insert(pos(p.s, at), q.s.begin(), q.s.end()); p.k.insert(pos(p.k, at), q.k.begin(), q.k.end()); } muts++; break;
            case 5: if (n) { at %= n; each([&](auto& c) { auto it = c.erase(pos(c, at)); CHECK(size_t(std::distance(c.begin(), it)) == at, "%s: erase returned another position", what); }); muts++; } break;
            case 6: { size_t len = std::min(cnt, n - at); each([&](auto& c) { c.erase(pos(c, at), pos(c, at + len)); }); muts++; break; }
            case 7: each([&](auto& c) { c.resize(cnt * 3, T(val)); }); muts++; break;
            case 8: each([&](auto& c) { c.assign(cnt, T(val)); }); muts++; break;
            case 9: each([&](auto& c) { c.clear(); }); break;
            case 10: if (room) v.push_back(std::unique_ptr<P>(new P{K(p.k), S(p.s)})); transfers++; break;
            case 11: if (room) v.push_back(std::unique_ptr<P>(new P{K(p.k, alloc(val & 1)), S(p.s)})); transfers++; break;
            case 12: if (room) { v.push_back(std::unique_ptr<P>(new P{K(std::move(p.k)), S(std::move(p.s))})); p.k.clear(); p.s.clear(); } transfers++; break;
            case 13: if (room) { v.push_back(std::unique_ptr<P>(new P{K(std::move(p.k), alloc(val & 1)), S(std::move(p.s))})); p.k.clear(); p.s.clear(); } transfers++; break;
            case 14: p.k = std::as_const(q.k); p.s = std::as_const(q.s); transfers++; break;
            case 15: if (i != j) { p.k = std::move(q.k); p.s = std::move(q.s); q.k.clear(); q.s.clear(); } transfers++; break;
            case 16: if (i != j && p.k.get_allocator() == q.k.get_allocator()) { std::swap(p.k, q.k); std::swap(p.s, q.s); transfers++; } break;
            case 17: if constexpr (kd::vec || kd::deq || kd::str) { each([&](auto& c) { c.shrink_to_fit(); }); } if constexpr (kd::vec || kd::str) { each([&](auto& c) { c.reserve(cnt * 5); }); CHECK(p.k.capacity() >= p.k.size(), "%s: capacity below size", what); } break;
            case 18: if (v.size() > 1) v.erase(v.begin() + i); break;
            case 19:
                if constexpr (kd::lst)
                {
                    switch (val % 5)
                    {
                    case 0: each([&](auto& c) { c.sort(); }); break;
                    case 1: each([&](auto& c) { c.reverse(); }); break;
                    case 2: if (i != j && p.k.get_allocator() == q.k.get_allocator()) { p.s.splice(pos(p.s, at), q.s); p.k.splice(pos(p.k, at), q.k); } break;
                    case 3: each([&](auto& c) { c.push_front(T(val)); }); break;
                    default: each([&](auto& c) { c.remove(T(int(cnt))); }); break;
                    }
                }
                else if constexpr (kd::deq)
                {
                    if (val & 1) each([&](auto& c) { c.push_front(T(val)); });
                    else if (n) each([&](auto& c) { c.pop_front(); });
                }
                else if constexpr (kd::str)
                {
                    switch (val % 4)
                    {
                    case 0: p.s += q.s; p.k += q.k; break;
                    case 1: { p.s = p.s.substr(at, cnt); K t = p.k.substr(at, cnt); p.k = t; break; }
                    case 2: each([&](auto& c) { c.replace(at, cnt, cnt * 2, T(val)); }); break;
                    default: CHECK(p.s.find(T(val)) == p.k.find(T(val)), "%s: find differs", what); CHECK(p.s.compare(q.s) == p.k.compare(q.k), "%s: compare differs", what); break;
                    }
                    each([&](auto& c) { if (c.size() > 400) c.resize(100); });
                }
                else each([&](auto& c) { c.emplace(pos(c, at), val); });
                muts++;
                break;
            default: if (n) { at %= n; *pos(p.s, at) = T(val); *pos(p.k, at) = T(val); } break;
            }
            leaf::checkErrors();
            for (auto& x : v) same(x->k, x->s, what);
        }
        if (muts >= 4 && transfers >= 1) pbt::nontrivial();
    }

    // map, set, unordered_map (as maps)
    template<typename K, typename S, bool Un, typename A> void assoc(Src& s, const A* al, const char* what)
    {
        typedef typename S::key_type Key;
        struct P { K k; S s; };
        std::vector<std::unique_ptr<P>> v;
        auto alloc = [&](size_t i) { return typename K::allocator_type(al[i]); };
        auto cmp = [&](P& x) { if constexpr (Un) sameMap(x.k, x.s, what); else same(x.k, x.s, what); };
        auto val = [](int k, int x) { if constexpr (std::is_same_v<typename S::value_type, Key>) { (void)x; return Key(k); } else return typename S::value_type(Key(k), typename S::mapped_type(x)); };
        v.push_back(std::unique_ptr<P>(new P{K(alloc(0)), S()}));
        unsigned muts = 0, transfers = 0;
        s.maxSteps = 20 + 2 * s.sizeHint();
        while (s.more(30))
        {
            pbt::Span sp;
            size_t i = s.draw(v.size()), j = s.draw(v.size()); P& p = *v[i]; P& q = *v[j];
            int key = int(s.draw(40)), x = int(s.draw(50)); bool room = v.size() < 6;
            auto each = [&](auto f) { f(p.s); f(p.k); };
            static const unsigned w[] = { 12, 4, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 1, 2, 1 };
            unsigned op = s.pick(w);
            static const char* names[] = { "insert", "erase", "find", "node", "merge", "clear", "copy", "copy with allocator", "move", "move with allocator", "copy-assign", "move-assign", "swap", "drop", "erase range", "rehash" };
            pbt::log("%zu:%s(%zu,%d,%d)", i, names[op], j, key, x);
            switch (op)
            {
            case 0: { bool a = p.s.insert(val(key, x)).second, b = p.k.insert(val(key, x)).second; CHECK(a == b, "%s: insert reports %d, with std::allocator %d", what, b, a); muts++; break; }
            case 1: { size_t a = p.s.erase(Key(key)), b = p.k.erase(Key(key)); CHECK(a == b, "%s: erase reports another count", what); muts++; break; }
            case 2: CHECK((p.s.find(Key(key)) == p.s.end()) == (p.k.find(Key(key)) == p.k.end()) && p.s.count(Key(key)) == p.k.count(Key(key)), "%s: find differs", what); break;
            case 3: if (p.k.get_allocator() == q.k.get_allocator()) { auto a = p.s.extract(Key(key)); auto b = p.k.extract(Key(key)); if (a) q.s.insert(std::move(a)); if (b) q.k.insert(std::move(b)); muts++; } break;
            case 4: if (i != j && p.k.get_allocator() == q.k.get_allocator()) { p.s.merge(q.s); p.k.merge(q.k); muts++; } break;
            case 5: each([&](auto& c) { c.clear(); }); break;
            case 6: if (room) v.push_back(std::unique_ptr<P>(new P{K(p.k), S(p.s)})); transfers++; break;
            case 7: if (room) v.push_back(std::unique_ptr<P>(new P{K(p.k, alloc(x & 1)), S(p.s)})); transfers++; break;
            case 8: if (room) { v.push_back(std::unique_ptr<P>(new P{K(std::move(p.k)), S(std::move(p.s))})); p.k.clear(); p.s.clear(); } transfers++; break;
            case 9: if (room) { v.push_back(std::unique_ptr<P>(new P{K(std::move(p.k), alloc(x & 1)), S(std::move(p.s))})); p.k.clear(); p.s.clear(); } transfers++; break;
            case 10: p.k = std::as_const(q.k); p.s = std::as_const(q.s); transfers++; break;
            case 11: if (i != j) { p.k = std::move(q.k); p.s = std::move(q.s); q.k.clear(); q.s.clear(); } transfers++; break;
            case 12: if (i != j && p.k.get_allocator() == q.k.get_allocator()) { std::swap(p.k, q.k); std::swap(p.s, q.s); transfers++; } break;
            case 13: if (v.size() > 1) v.erase(v.begin() + i); break;
            case 14: if constexpr (!Un) { if (!p.s.empty()) each([&](auto& c) { auto e = c.begin(); std::advance(e, size_t(x) % (c.size() + 1)); c.erase(c.begin(), e); }); } muts++; break;
            default: if constexpr (Un) each([&](auto& c) { c.rehash(size_t(x) * 3); }); else CHECK((p.s.lower_bound(Key(key)) == p.s.end()) == (p.k.lower_bound(Key(key)) == p.k.end()), "%s: lower_bound differs", what); break;
            }
            leaf::checkErrors();
            for (auto& y : v) cmp(*y);
        }
        if (muts >= 4 && transfers >= 1) pbt::nontrivial();
    }

    // shared_ptr / allocate_shared
    template<typename A> void pointers(Src& s, const A* al, const char* what)
    {
        struct P { std::shared_ptr<Elem> k, s; std::weak_ptr<Elem> wk, ws; };
        std::vector<P> v(1); unsigned made = 0, transfers = 0;
        s.maxSteps = 20 + 2 * s.sizeHint();
        while (s.more(25))
        {
            pbt::Span sp;
            size_t i = s.draw(v.size()), j = s.draw(v.size()); P& p = v[i]; P& q = v[j]; int val = int(s.draw(100));
            static const unsigned w[] = { 5, 3, 3, 2, 2, 2, 2 };
            unsigned op = s.pick(w);
            static const char* names[] = { "make", "copy", "move", "reset", "weak", "grow", "write" };
            pbt::log("%zu:%s(%zu,%d)", i, names[op], j, val);
            switch (op)
            {
            case 0: p.k = std::allocate_shared<Elem>(typename std::allocator_traits<A>::template rebind_alloc<Elem>(al[val & 1]), val); p.s = std::make_shared<Elem>(val); made++; break;
            case 1: p.k = q.k; p.s = q.s; transfers++; break;
            case 2: if (i != j) { p.k = std::move(q.k); p.s = std::move(q.s); transfers++; } break;
            case 3: p.k.reset(); p.s.reset(); break;
            case 4: p.wk = q.k; p.ws = q.s; break;
            case 5: if (v.size() < 6) v.emplace_back(); break;
            default: if (p.k) { *p.k = Elem(val); *p.s = Elem(val); } break;
            }
            leaf::checkErrors();
            for (auto& x : v)
            {
                CHECK(!x.k == !x.s && x.k.use_count() == x.s.use_count() && x.wk.expired() == x.ws.expired(), "%s: use counts differ", what);
                if (x.k) CHECK(*x.k == *x.s, "%s: object differs", what);
            }
        }
        if (made >= 2 && transfers >= 1) pbt::nontrivial();
    }

    template<typename X> void suite(Src& s, const char* name)
    {
        typedef ktl::type_allocator<int, X> A;
        typedef std::allocator_traits<A> Tr;
#define RB(...) typename Tr::template rebind_alloc<__VA_ARGS__>
        Elem::live = 0;
        {
            A al[2] = { A(), A() };
            unsigned k = unsigned(s.draw(12));
            static const char* names[] = { "vector<Elem>", "vector<int>", "vector<Wide>", "deque<Elem>", "list<Elem>", "list<Wide>", "string", "map<int,Elem>", "set<Elem>", "unordered_map<int,Elem>", "shared_ptr<Elem>", "map<Elem,Wide>" };
            pbt::log("%s on %s", names[k], name); const char* w = names[k];
            switch (k)
            {
            case 0: sequence<std::vector<Elem, RB(Elem)>, std::vector<Elem>>(s, al, w); break;
            case 1: sequence<std::vector<int, RB(int)>, std::vector<int>>(s, al, w); break;
            case 2: sequence<std::vector<Wide, RB(Wide)>, std::vector<Wide>>(s, al, w); break;
            case 3: sequence<std::deque<Elem, RB(Elem)>, std::deque<Elem>>(s, al, w); break;
            case 4: sequence<std::list<Elem, RB(Elem)>, std::list<Elem>>(s, al, w); break;
            case 5: sequence<std::list<Wide, RB(Wide)>, std::list<Wide>>(s, al, w); break;
            case 6: sequence<std::basic_string<char, std::char_traits<char>, RB(char)>, std::string>(s, al, w); break;
            case 7: assoc<std::map<int, Elem, std::less<int>, RB(std::pair<const int, Elem>)>, std::map<int, Elem>, false>(s, al, w); break;
            case 8: assoc<std::set<Elem, std::less<Elem>, RB(Elem)>, std::set<Elem>, false>(s, al, w); break;
            case 9: assoc<std::unordered_map<int, Elem, Hash, std::equal_to<int>, RB(std::pair<const int, Elem>)>, std::unordered_map<int, Elem, Hash>, true>(s, al, w); break;
            case 10: pointers(s, al, w); break;
            default: assoc<std::map<Elem, Wide, std::less<Elem>, RB(std::pair<const Elem, Wide>)>, std::map<Elem, Wide>, false>(s, al, w); break;
            }
#undef RB
            CHECK(Elem::live == 0, "%s: %lld elements outlive the containers", w, (long long)Elem::live);
        }
        leaf::runHooks(); leaf::checkErrors();
        CHECK(leaf::liveBlocks() == 0, "%zu blocks were never given back", leaf::liveBlocks());
        CHECK(leaf::ownInstances() == 0, "%lld underlying allocators outlive the containers and handles", (long long)leaf::ownInstances());
        CHECK(heap::liveBlocks() == drv::g_heapBase, "%zd heap blocks leaked", (ssize_t)heap::liveBlocks() - (ssize_t)drv::g_heapBase);
        CHECK(heap::foreignFrees() == 0, "free() of a pointer that is not a live heap block");
        CHECK(zoo::sink().text.empty(), "overflow reported on a correct history: %s", zoo::sink().text.c_str());
    }
}
#define STL_CAT2(a, b) a##b
#define STL_CAT(a, b) STL_CAT2(a, b)
#define STL(...) static stl::Reg STL_CAT(stl_reg_, __LINE__)(#__VA_ARGS__, &stl::suite<__VA_ARGS__>);
