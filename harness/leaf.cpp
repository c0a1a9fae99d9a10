#include "leaf.h"
#include <new>
#include <set>

namespace leaf
{
    int64_t fuse = 0; uint64_t booms = 0;
    Plan plan[NID]; std::vector<Event> events; bool recording = false; IdStat stat[NID];
    static std::vector<Arena*> arenas;          // every arena of this case, also dead ones
    static Arena* handle[NID];
    static std::string firstError;
    static uint64_t serials = 0;
    static std::vector<std::function<void()>> hooks;
    static std::map<uintptr_t, std::pair<size_t, Arena*>> all;   // every live leaf block

    void error(const char* fmt, ...)
    {
        if (!firstError.empty()) return;
        char b[1000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        firstError = b;
    }
    bool clean() { return firstError.empty(); }
    void checkErrors() { if (!firstError.empty()) { std::string e = firstError; pbt::fail("%s", e.c_str()); } }
    size_t liveBlocks() { return all.size(); }
    int instances(int id) { return int(stat[id].created - stat[id].died); }

    int64_t ownInstances() { int64_t n = 0; for (int i = 0; i < NID; i++) n += int64_t(stat[i].created - stat[i].died) - (handle[i] != nullptr); return n; }

    void note(Kind k, int id, const Arena* a, void* p, size_t n)
    {
        if (k == Construct) stat[id].constructs++;
        if (k == Destroy) stat[id].destroys++;
        if (recording) events.push_back({k, id, a ? a->serial : 0, p, n});
    }
    Arena* create(int id, unsigned flags)
    {
        Arena* a = new Arena; a->id = id; a->serial = ++serials; a->flags = flags; arenas.push_back(a); stat[id].created++;
        note(Create, id, a, nullptr, 0);
        return a;
    }
    void die(Arena* a)
    {
        if (a->dead) { error("leaf %d instance destroyed twice", a->id); return; }
        if (!a->blocks.empty()) error("underlying allocator (leaf %d) destroyed while %zu of its blocks were never given back", a->id, a->blocks.size());
        a->dead = true; stat[a->id].died++;
        note(Die, a->id, a, nullptr, 0);
    }
    void* allocate(Arena* a, size_t n)
    {
        if (!a) return nullptr;                    // moved-from
        IdStat& s = stat[a->id]; uint64_t k = s.requests++;
        if (a->dead) { error("allocate on a destroyed underlying allocator (leaf %d)", a->id); return nullptr; }
        const Plan& pl = plan[a->id];
        if (n > pl.maxReq || n > pl.budget || a->live > pl.budget - n || ((pl.refuse >> (k & 63)) & 1) || n > (size_t(1) << 26))
        { s.refusals++; note(Refuse, a->id, a, nullptr, n); return nullptr; }
        void* p = ::operator new(n);
        memset(p, 0xcd, n);
        a->blocks[(uintptr_t)p] = n; all[(uintptr_t)p] = {n, a}; a->live += n;
        s.allocs++; s.liveBlocks++; s.liveBytes += n;
        note(Alloc, a->id, a, p, n);
        return p;
    }
    void deallocate(Arena* a, int id, void* p, size_t n)
    {
        stat[id].deallocs++;
        note(Dealloc, id, a, p, n);
        if (!p) { error("null pointer deallocated into underlying allocator (leaf %d)", id); return; }
        auto it = all.find((uintptr_t)p);
        if (it == all.end()) { error("block that is not live given to deallocate of underlying allocator (leaf %d, %zu bytes): double or foreign free", id, n); return; }
        Arena* o = it->second.second;
        if (o != a) { error("block of leaf %d instance #%llu deallocated into leaf %d instance #%llu", o->id, (unsigned long long)o->serial, id, a ? (unsigned long long)a->serial : 0ULL); }
        if (it->second.first != n) error("block of leaf %d obtained with %zu bytes given back with %zu bytes", o->id, it->second.first, n);
        if (o->dead) { error("deallocate on a destroyed underlying allocator (leaf %d)", o->id); }
        size_t sz = it->second.first;
        o->blocks.erase((uintptr_t)p); all.erase(it); o->live -= sz; stat[o->id].liveBlocks--; stat[o->id].liveBytes -= sz;
        ::operator delete(p);
    }
    const Arena* find(const void* p)
    {
        auto it = all.upper_bound((uintptr_t)p);
        if (it == all.begin()) return nullptr;
        --it;
        size_t n = it->second.first ? it->second.first : 1;
        return (uintptr_t)p < it->first + n ? it->second.second : nullptr;
    }
    size_t blockSize(const void* p)
    {
        auto it = all.upper_bound((uintptr_t)p);
        if (it == all.begin()) return 0;
        --it;
        size_t n = it->second.first ? it->second.first : 1;
        return (uintptr_t)p < it->first + n ? n : 0;
    }
    bool inBlock(const void* p, size_t n)
    {
        auto it = all.upper_bound((uintptr_t)p);
        if (it == all.begin()) return false;
        --it;
        return (uintptr_t)p + n <= it->first + it->second.first;
    }
    bool owns(const Arena* a, const void* p)
    {
        if (!a || !p) return false;
        auto it = a->blocks.upper_bound((uintptr_t)p);
        if (it == a->blocks.begin()) return false;
        --it;
        size_t n = it->second ? it->second : 1;
        return (uintptr_t)p < it->first + n;
    }
    Arena* shared(int id, unsigned flags) { if (!handle[id]) handle[id] = create(id, flags); return handle[id]; }
    void atCaseEnd(std::function<void()> f) { hooks.push_back(std::move(f)); }
    void runHooks() { while (!hooks.empty()) { auto f = std::move(hooks.back()); hooks.pop_back(); f(); } }
    void reset()
    {
        fuse = 0; booms = 0;
        runHooks();
        for (auto& [p, b] : all) ::operator delete((void*)p);
        all.clear();
        for (Arena* a : arenas) delete a;
        arenas.clear(); for (auto& h : handle) h = nullptr;
        for (auto& s : stat) s = IdStat();
        for (auto& p : plan) p = Plan();
        events.clear(); recording = false; firstError.clear(); serials = 0;
    }
    std::string describe()
    {
        std::string o; char b[100];
        for (int i = 0; i < NID; i++) if (stat[i].created) { snprintf(b, sizeof b, "leaf%d: %llu live, ", i, (unsigned long long)stat[i].liveBlocks); o += b; }
        return o;
    }
}
