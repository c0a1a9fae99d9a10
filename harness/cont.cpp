#include "cont.h"
#include <new>
namespace cont
{
    unsigned checks = CONTENT | ALLOC | LIFE;
    static std::string first; static unsigned firstKind;
    std::map<char*, Block> blocks; bool nullForZero; uint64_t constructs, destroys, takes;
    static std::map<const char*, size_t> objects;

    void error(unsigned kind, const char* fmt, ...)
    {
        if (!first.empty()) return;
        char b[500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        first = b; firstKind = kind;
    }
    void settle()
    {
        if (first.empty()) return;
        std::string e = first;
        if (firstKind & checks) pbt::fail("%s", e.c_str());
        throw Stop{};
    }
    void reset()
    {
        for (auto& b : blocks) ::operator delete(b.first);
        blocks.clear(); objects.clear(); first.clear(); nullForZero = false; constructs = destroys = takes = 0;
    }
    void* take(int g, size_t n, size_t bytes)
    {
        if (n == 0 && nullForZero) return nullptr;
        char* p = static_cast<char*>(::operator new(bytes));
        memset(p, 0xbd, bytes);
        blocks[p] = {n, bytes, g}; takes++;
        return p;
    }
    void give(int g, void* p, size_t n, size_t bytes)
    {
        auto it = blocks.find(static_cast<char*>(p));
        if (it == blocks.end()) { error(ALLOC, "a block that is not live was deallocated (%zu elements, through allocator %d)", n, g); return; }
        if (it->second.g != g) error(ALLOC, "a block of allocator %d was deallocated through allocator %d", it->second.g, g);
        if (it->second.n != n || it->second.bytes != bytes) error(ALLOC, "a block of %zu elements was deallocated as %zu elements", it->second.n, n);
        if (size_t l = liveIn(p, it->second.bytes)) error(LIFE, "a block was deallocated with %zu elements alive in it", l);
        ::operator delete(p); blocks.erase(it);
    }
    int groupOf(const void* p) { auto it = blocks.find((char*)p); return it == blocks.end() ? -1 : it->second.g; }

    void born(const void* p, size_t n, const char* how)
    {
        if (!objects.emplace((const char*)p, n).second) error(LIFE, "an element was constructed (%s) where one is alive", how);
    }
    void dead(const void* p) { if (!objects.erase((const char*)p)) error(LIFE, "an element was destroyed that is not alive"); }
    void alive(const void* p, const char* how) { if (!objects.count((const char*)p)) error(LIFE, "%s an element that is not alive", how); }
    size_t liveObjects() { return objects.size(); }
    size_t liveIn(const void* p, size_t n)
    {
        size_t c = 0;
        for (auto it = objects.lower_bound((const char*)p); it != objects.end() && it->first < (const char*)p + n; ++it) c++;
        return c;
    }
}
