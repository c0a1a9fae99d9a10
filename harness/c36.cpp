// C36: compositions obey the laws their descriptions imply
#include "c36.h"
using pbt::Src;
namespace tw
{
    Plan plan[LEAVES]; size_t asked[2][LEAVES]; int side; std::vector<Ev> seen[2]; std::deque<Inst> insts; static int serials[2][LEAVES]; static std::string error;
    static void bad(const std::string& s) { if (error.empty()) error = s; }
    std::string show(const Ev& e)
    {
        char b[160]; const char* k = e.kind == 'A' ? "allocate" : e.kind == 'R' ? "refuse" : e.kind == 'F' ? "deallocate" : e.kind == 'C' ? "construct" : "destroy";
        snprintf(b, sizeof b, "%s(%zu) at %zu of leaf %d.%d", k, e.size, e.at, e.n, e.serial); return b;
    }
    static std::string show(const std::vector<Ev>& v) { std::string s; for (auto& e : v) s += (s.empty() ? "" : "; ") + show(e); return s.empty() ? "nothing" : s; }
    Inst& fresh(int n)
    {
        insts.push_back({n, side, serials[side][n]++, std::unique_ptr<char[]>(new char[ARENA + 64]), nullptr, 0, 0, {}});
        Inst& i = insts.back(); i.arena = (char*)((uintptr_t(i.mem.get()) + 63) / 64 * 64); return i;
    }
    Inst* holds(const void* p) { for (auto& i : insts) if (p >= i.arena && p < i.arena + ARENA) return &i; return nullptr; }
    void* take(Inst& i, size_t n)
    {
        Plan& p = plan[i.n]; size_t k = ++asked[i.side][i.n], r = n > ARENA ? ARENA + 1 : (n + 15) / 16 * 16 + (n ? 0 : 16);
        if (i.live.empty()) i.used = 0;
        if (n > p.maxReq || i.bytes + n > p.cap || (p.every && k % p.every == 0) || i.used + r > ARENA) { seen[i.side].push_back({i.n, i.serial, 'R', n, 0}); return nullptr; }
        char* b = i.arena + i.used; i.used += r; i.bytes += n; i.live[b] = n; seen[i.side].push_back({i.n, i.serial, 'A', n, size_t(b - i.arena)}); return b;
    }
    void give(Inst* i, int leaf, void* p, size_t n)
    {
        auto it = i ? i->live.find((char*)p) : decltype(i->live.end())();
        if (!i || it == i->live.end() || it->second != n) { bad("leaf " + std::to_string(leaf) + " was given back " + std::to_string(n) + " bytes that it has not handed out"); return; }
        i->bytes -= n; i->live.erase(it); seen[i->side].push_back({i->n, i->serial, 'F', n, size_t((char*)p - i->arena)});
    }
    Ev where(const void* p) { Inst* i = holds(p); if (!i) return {-1, -1, 'B', 0, 0}; return {i->n, i->serial, 'B', 0, size_t((char*)p - i->arena)}; }
    void built(int leaf, int sd, const void* p, char kind, size_t v)
    {
        Ev e = where(p);
        if (e.n != leaf) bad("leaf " + std::to_string(leaf) + " was asked to construct or destroy an object of leaf " + std::to_string(e.n));
        if (sd >= 0) seen[sd].push_back({leaf, e.serial, kind, v, e.at}); else bad("construct or destroy in a leaf without blocks");
    }
    void draw(Src& s, int leaves)
    {
        for (int i = 0; i < leaves; i++)
        {
            static const size_t reqs[] = { 4096, 64, 100, 16, 400 }; static const size_t caps[] = { 20000, 200, 600, 1500 };
            plan[i] = {s.of(reqs), s.of(caps), s.flag(1, 4) ? 2 + s.draw(6) : 0};
        }
    }
    struct Entry { const char *plain, *other; Any *(*a)(), *(*b)(); int leaves; bool handles; int laws; std::vector<size_t> sizes; };
    static std::vector<Entry>& regs() { static std::vector<Entry> r; return r; }
    Reg::Reg(const char* plain, const char* other, Any* (*a)(), Any* (*b)(), int leaves, bool handles, int laws, const std::vector<size_t>& sizes) { regs().push_back({plain, other, a, b, leaves, handles, laws, sizes}); }

    static bool pending;
    static const Entry* cur;
    static void laws(Src& s)
    {
        const Entry& e = regs()[s.draw(regs().size())]; cur = &e;
        pbt::log("%s  |  %s", e.plain, e.other); draw(s, e.leaves); pending = true;
        std::vector<std::unique_ptr<Any>> a[2]; side = 0; a[0].emplace_back(e.a()); side = 1; a[1].emplace_back(e.b()); size_t h = 0;
        struct B { void* p[2]; size_t n; bool obj; }; std::vector<B> live; size_t served = 0, refused = 0, freed = 0, objects = 0;
        auto both = [&](const char* what, auto f) { size_t b0 = seen[0].size(), b1 = seen[1].size(); for (side = 0; side < 2; side++) f(side, *a[side][h]);
            CHECK(error.empty(), "%s: %s", what, error.c_str());
            std::vector<Ev> x(seen[0].begin() + b0, seen[0].end()), y(seen[1].begin() + b1, seen[1].end());
            CHECK(x == y, "%s: the leaves of\n    %s\n  see: %s\n  but those of\n    %s\n  see: %s", what, e.plain, show(x).c_str(), e.other, show(y).c_str()); };
        s.maxSteps = 20 + 4 * s.sizeHint();
        while (s.more(30))
        {
            pbt::Span sp; static const unsigned w[] = { 8, 5, 2, 2, 1, 1, 2 }; unsigned op = s.pick(w); if (e.handles) h = s.draw(a[0].size());
            switch (op)
            {
            case 0:
            {
                size_t n = s.flag(1, 3) && !e.sizes.empty() ? e.sizes[s.draw(e.sizes.size())] + s.draw(3) : s.draw(s.flag(1, 3) ? 700 : 70); if (n && s.flag(1, 4)) n--;
                void* p[2]; both("allocate", [&](int i, Any& x) { p[i] = x.allocate(n); });
                pbt::log("alloc(%zu)=%s", n, p[0] ? "ok" : "null");
                CHECK(!p[0] == !p[1], "allocate(%zu): %s gives %s, %s gives %s", n, e.plain, p[0] ? "a block" : "null", e.other, p[1] ? "a block" : "null");
                if (!p[0]) { refused++; break; }
                CHECK(where(p[0]) == where(p[1]), "allocate(%zu): %s gives %s, %s gives %s", n, e.plain, show(where(p[0])).c_str(), e.other, show(where(p[1])).c_str());
                live.push_back({{p[0], p[1]}, n, false}); served++; break;
            }
            case 1: case 3:
            {
                if (live.empty()) break;
                size_t i = s.draw(live.size()); B b = live[i];
                if (op == 3 || b.obj)
                {
                    if (b.n < sizeof(Obj)) break;
                    if (b.obj) both("destroy", [&](int k, Any& x) { x.destroy(b.p[k]); });
                    else both("construct", [&](int k, Any& x) { x.construct(b.p[k], 42); });
                    pbt::log("%s(%zu)", b.obj ? "destroy" : "construct", i); live[i].obj = !b.obj; objects++; if (live[i].obj || op == 3) break;
                }
                live.erase(live.begin() + i); pbt::log("free(%zu)", b.n);
                both("deallocate", [&](int k, Any& x) { x.deallocate(b.p[k], b.n); }); freed++; break;
            }
            case 2:
            {
                if (live.empty()) break;
                B b = live[s.draw(live.size())]; int o[2]; both("owns", [&](int k, Any& x) { o[k] = x.owns(b.p[k]); });
                CHECK(o[0] != 0 && o[1] != 0, "%s does not own its block", o[0] ? e.other : e.plain); break;
            }
            case 4:
            {
                int o[2]; char c; both("owns", [&](int k, Any& x) { o[k] = x.owns(&c); });
                CHECK(o[0] <= 0 && o[1] <= 0, "%s owns what it never handed out", o[0] > 0 ? e.plain : e.other); break;
            }
            case 6:
            {
                if (!e.handles) break;
                if (a[0].size() > 1 && s.flag(1, 3)) { pbt::log("drop"); both("dropping a handle", [&](int k, Any&) { a[k].erase(a[k].begin() + h); }); h = 0; break; }
                if (a[0].size() > 4) break;
                Any* c[2]; both("copying", [&](int k, Any& x) { c[k] = x.copy(); if (c[k]) a[k].emplace_back(c[k]); }); pbt::log("copy");
                CHECK(!c[0] == !c[1], "%s %s be copied, %s %s", e.plain, c[0] ? "can" : "cannot", e.other, c[1] ? "can" : "cannot");
                if (c[0]) CHECK(c[0]->same(*a[0][h]) && c[1]->same(*a[1][h]), "a copy of %s does not denote the same allocator", c[0]->same(*a[0][h]) ? e.other : e.plain);
                break;
            }
            default:
            {
                size_t m[2]; bool h[2]; both("max_size", [&](int k, Any& x) { h[k] = x.maxs(m[k]); });
                if (h[0] && h[1]) CHECK(m[0] == m[1], "max_size(): %s gives %zu, %s gives %zu", e.plain, m[0], e.other, m[1]);
            }
            }
        }
        for (auto& b : live) if (b.obj) both("destroy", [&](int k, Any& x) { x.destroy(b.p[k]); });
        while (!live.empty()) { B b = live.back(); live.pop_back(); both("deallocate", [&](int k, Any& x) { x.deallocate(b.p[k], b.n); }); }
        for (side = 0; side < 2; side++) a[side].clear();
        if (served >= 2 && freed >= 1 && e.laws) pbt::nontrivial();
        if (refused) pbt::label("a request was refused"); if (objects) pbt::label("objects were constructed");
    }
}
#ifdef ALIASES
// binary_min_heap has the least element on top, binary_max_heap the greatest
template<typename H> static void minmax(Src& s, bool least)
{
    H h; std::multiset<int> m; s.maxSteps = 60; pbt::log(least ? "binary_min_heap" : "binary_max_heap"); size_t pops = 0;
    while (s.more(30))
    {
        if (s.flag(2, 3) || m.empty()) { int v = int(s.draw(50)); pbt::log("insert(%d)", v); h.insert(v); m.insert(v); }
        else { auto it = least ? m.begin() : std::prev(m.end()); CHECK(h.peek() == *it, "peek() is %d, expected %d", h.peek(), *it); int x = h.pop(); pbt::log("pop=%d", x); CHECK(x == *it, "pop() gives %d, expected %d", x, *it); m.erase(it); pops++; }
    }
    if (pops >= 2) pbt::nontrivial();
}
static void heaps(Src& s)
{
    switch (s.draw(4))
    {
    case 0: minmax<ktl::binary_min_heap<int>>(s, true); break;
    case 1: minmax<ktl::binary_max_heap<int>>(s, false); break;
    case 2: minmax<ktl::binary_min_heap<int, ktl::type_shared_cascading_allocator<int, ktl::linear_allocator<4096>>>>(s, true); break;
    default: minmax<ktl::binary_max_heap<int, ktl::type_mallocator<int>>>(s, false); break;
    }
}
pbt::Prop pbt::props[] = {
    {"aliases", tw::laws, 12, "non-trivial if two requests were served and a block was deallocated before the end"},
    {"heaps", heaps, 1, "non-trivial if two elements were popped"},
    {nullptr, nullptr, 0, nullptr}};
#else
pbt::Prop pbt::props[] = {
    {"laws", tw::laws, 1, "non-trivial if the two compositions differ, two requests were served and a block was deallocated before the end"},
    {nullptr, nullptr, 0, nullptr}};
#endif
void pbt::reset()
{
    using namespace tw;
    bool p = pending; pending = false;
    struct Clean { ~Clean() { insts.clear(); for (auto& l : seen) l.clear(); error.clear(); memset(asked, 0, sizeof asked); memset(serials, 0, sizeof serials); side = 0; } } clean;
    drv::resetAll();      // destroys what references and globals denote
    if (!p) return;
    CHECK(error.empty(), "at the end: %s", error.c_str());
    for (auto& i : insts) CHECK(i.live.empty(), "%s: a block of leaf %d was never given back", i.side ? cur->other : cur->plain, i.n);
    std::sort(seen[0].begin(), seen[0].end()); std::sort(seen[1].begin(), seen[1].end());
    CHECK(seen[0] == seen[1], "%s and %s: the leaves got different requests", cur->plain, cur->other);
}
