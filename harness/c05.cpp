// C05: owns() is exact for live blocks and foreign memory
#include "driver.h"
using namespace drv;

static char s_static[64];

static void ownsZoo(Src& s)
{
    drawPlans(s);
    History h(drawEntry(s, [](const zoo::Entry& e) { return e.owns; }));
    const zoo::Entry& e = h.e;
    h.create(); if (s.flag(2, 3)) h.create();
    std::vector<void*> released;                       // leaf / heap blocks that went back upstream are foreign
    char* mine = static_cast<char*>(::operator new(48)); struct D { void* p; ~D() { ::operator delete(p); } } d{mine};
    char onStack[32];
    unsigned sib = 0;
    auto check = [&]
    {
        for (auto& l : h.live)
        {
            CHECK(h.inst[l.inst]->owns(l.p), "#%d does not own its live block of %zu bytes (allocated as #%llu)", l.inst, l.n, (unsigned long long)l.seq);
            CHECK(h.inst[l.inst]->tOwns(reinterpret_cast<zoo::Obj*>(l.p)), "typed owns() denies a live block");
            if (e.exclusive && h.inst.size() > 1)
            {
                // an address that belongs to a sibling (one inside the block; nothing else can own it)
                char* q = l.p + (l.n ? s.draw(l.n) : 0);
                if (l.n) { sib++; CHECK(!h.inst[1 - l.inst]->owns(q), "#%d owns an address of a block of #%d", 1 - l.inst, l.inst); }
            }
        }
        for (auto* a : h.inst)
        {
            CHECK(!a->owns(mine + s.draw(48)), "owns a heap block of somebody else");
            CHECK(!a->owns(onStack + s.draw(32)), "owns a local variable");
            CHECK(!a->owns(s_static + s.draw(64)), "owns a static variable");
            if (!e.mentionsNull) CHECK(!a->owns(nullptr), "owns the null pointer");
            if (strcmp(e.name, "nul") == 0) CHECK(a->owns(nullptr), "null_allocator does not own the null pointer");
            CHECK(!a->owns((char*)a->obj - 1), "owns the byte before the allocator object");
            CHECK(!a->owns((char*)a->obj + a->objSize), "owns the byte after the allocator object");
        }
        // a block of a leaf that this composition gave back is not its memory any more; neither are others' live leaf blocks
        for (size_t i = 0; i + 1 < leaf::events.size() && i < 200; i++)
            if (leaf::events[i].kind == leaf::Dealloc && !leaf::find(leaf::events[i].p) && heap::sizeOf(leaf::events[i].p) == SIZE_MAX)
                for (auto* a : h.inst) CHECK(!a->owns(leaf::events[i].p), "owns a block that was given back to the underlying allocator");
    };
    leaf::recording = true;
    check();
    s.maxSteps = 10 + 2 * s.sizeHint();
    while (s.more(25))
    {
        pbt::Span sp;
        if (s.flag(2, 3)) h.allocate(int(s.draw(h.inst.size())), drawSize(s));
        else if (!h.live.empty()) h.deallocate(h.pickLive(s));
        check();
    }
    if (h.allocs >= 1 && h.deallocs >= 1) pbt::nontrivial();
    if (sib) pbt::label("address of a sibling asked");
    h.freeAll(s); check();
    h.destroyAll(); h.balance();
}

// exact bounds of the buffers of linear_allocator and stack_allocator
namespace
{
    template<size_t Size> struct guarded { char before[32]; alignas(16) ktl::stack<Size> st; char after[32]; };
    template<typename A> void bounds(Src& s, A& a, char* data, size_t size, A& other)
    {
        std::vector<std::pair<char*, size_t>> live;
        s.maxSteps = 60;
        unsigned full = 0;
        do
        {
            pbt::Span sp;
            if (s.flag(2, 3))
            {
                size_t n = s.flag(1, 4) ? size : s.range(0, size);
                char* p = static_cast<char*>(a.allocate(n));
                pbt::log("alloc(%zu)=%zd", n, p ? p - data : -1);
                if (p)
                {
                    CHECK(p >= data && p + n <= data + size, "block [%zd,+%zu) outside the buffer of %zu bytes", p - data, n, size);
                    live.push_back({p, n});
                    if (n == 0) pbt::label("zero-size block");
                    if (p + n == data + size) full++;
                }
            }
            else if (!live.empty()) { size_t k = s.draw(live.size()); a.deallocate(live[k].first, live[k].second); pbt::log("free(%zd:%zu)", live[k].first - data, live[k].second); live.erase(live.begin() + k); }
            for (auto& l : live) { CHECK(a.owns(l.first), "denies its live block at offset %zd (%zu bytes)", l.first - data, l.second); if (l.second) CHECK(a.owns(l.first + s.draw(l.second)), "denies an address inside its live block"); CHECK(!other.owns(l.first), "another instance owns the block"); }
            for (size_t k = 1; k <= 32; k += 1 + s.draw(4)) CHECK(!a.owns(data - k), "owns the address %zu bytes before its buffer", k);
            for (size_t k = 0; k <= 48; k += 1 + s.draw(4)) CHECK(!a.owns(data + size + k), "owns the address %zu bytes after the end of its buffer", k);
            CHECK(!a.owns(nullptr) && !a.owns((void*)~uintptr_t(0)) && !a.owns((void*)(uintptr_t)1), "owns a wild address");
        } while (s.more(20));
        if (full) pbt::label("a block reaching the end of the buffer");
        if (!live.empty()) pbt::nontrivial();
        for (auto& l : live) a.deallocate(l.first, l.second);
    }
    template<size_t Size> void lin(Src& s)
    {
        pbt::log("linear_allocator<%zu>", Size);
        // the buffer starts where the first block of a fresh instance lies
        auto a = std::make_unique<ktl::linear_allocator<Size>>(); auto b = std::make_unique<ktl::linear_allocator<Size>>();
        char* data = static_cast<char*>(a->allocate(1)); CHECK(data, "fresh linear_allocator refuses 1 byte"); a->deallocate(data, 1);
        bounds(s, *a, data, Size, *b);
    }
    template<size_t Size> void stk(Src& s)
    {
        pbt::log("stack_allocator<%zu>", Size);
        auto st = std::make_unique<guarded<Size>>(); auto st2 = std::make_unique<guarded<Size>>();
        ktl::stack_allocator<Size> a(st->st), b(&st2->st), c(b);
        bounds(s, a, st->st.Data, Size, s.flag() ? b : c);
    }
}
static void ownsBounds(Src& s)
{
    switch (s.draw(8))
    {
    case 0: lin<16>(s); break; case 1: lin<64>(s); break; case 2: lin<100>(s); break; case 3: lin<1000>(s); break;
    case 4: stk<16>(s); break; case 5: stk<64>(s); break; case 6: stk<72>(s); break; default: stk<1008>(s); break;
    }
}
pbt::Prop pbt::props[] = {
    {"ownsZoo", ownsZoo, 3, "non-trivial if at least one block was allocated and one deallocated; owns() is asked for every live block and for foreign addresses after every operation"},
    {"ownsBounds", ownsBounds, 2, "non-trivial if blocks are live when the bounds of the buffer are probed at the end"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { resetAll(); }
