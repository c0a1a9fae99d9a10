// C34: constructor arguments reach the allocator they are meant for; accessors lead to the wrapped allocator
#include "c34.h"
#include "heap.h"
#include <cstring>
using pbt::Src;

namespace ca
{
    std::vector<Inst> insts; static std::string error;
    void note(const char* w) { if (error.empty()) error = w; }
    void check() { CHECK(error.empty(), "%s", error.c_str()); }
    void external(int id) { for (size_t i = insts.size(); i--; ) if (insts[i].id == id) { insts[i].external = true; return; } }
    void logArgs() { for (auto& i : insts) if (i.external) pbt::log("a leaf %d made before", i.id); }
    // The one that is left. Temporaries may have been moved on the way: gcc elides no copies into members that may overlap others.
    static Inst& single(int id)
    {
        check(); Inst* r = nullptr; unsigned n = 0;
        for (auto& i : insts) if (i.id == id && !i.external && i.alive) { n++; r = &i; }
        CHECK(n == 1, "leaf %d exists %u times after the construction", id, n);
        return *r;
    }
    static Inst& origin(int id)
    {
        Inst* r = &single(id); unsigned n = 1, all = 0;
        while (r->how == 'm' && !insts[r->from].external) r = &insts[r->from], n++;
        for (auto& i : insts) if (i.id == id && !i.external) all++;
        CHECK(n == all, "leaf %d was constructed %u times, and %u of these lead to the one that is left", id, all, n);
        return *r;
    }
    void* only(int id) { return single(id).self; }
    static std::string show(const std::vector<Arg>& a) { std::string r; for (auto& x : a) r += std::string(r.empty() ? "" : ", ") + (x.cat == 'l' ? "lvalue " : x.cat == 'c' ? "const lvalue " : "rvalue ") + std::to_string(x.v); return r; }
    void expect(int id, std::vector<Arg> args)
    {
        auto& i = origin(id);
        CHECK(i.how == 'a', "leaf %d was %s instead of constructed from (%s)", id, i.how == 'c' ? "copied" : "moved", show(args).c_str());
        bool ok = i.args.size() == args.size(); for (size_t k = 0; ok && k < args.size(); k++) ok = i.args[k].cat == args[k].cat && i.args[k].v == args[k].v;
        CHECK(ok, "leaf %d was constructed from (%s) instead of (%s)", id, show(i.args).c_str(), show(args).c_str());
    }
    void expectFrom(int id, bool move)
    {
        auto& i = origin(id);
        CHECK(i.how != 'a', "leaf %d was constructed from (%s) instead of another leaf", id, show(i.args).c_str());
        CHECK(i.how == (move ? 'm' : 'c') && insts[i.from].external, "leaf %d was %s", id, !insts[i.from].external ? "copied from a temporary" : move ? "copied, not moved" : "moved, not copied");
    }
    void expectNone(int id) { check(); for (auto& i : insts) CHECK(i.id != id, "leaf %d was constructed although nothing was allocated", id); }
    void moved(const Tok& t, bool yes) { CHECK(t.moved == yes, "an argument was %s", yes ? "not forwarded as an rvalue" : "moved from"); }
    void same(const void* a, const void* b, const void* c, const char* what) { CHECK(a == b && a == c, "%s leads to %p, for a constant allocator to %p, expected %p", what, a, b, c); }
    static std::vector<std::pair<void (*)(Src&), int>>& regs() { static std::vector<std::pair<void (*)(Src&), int>> r; return r; }
    Reg::Reg(void (*run)(Src&), int args) { regs().push_back({run, args}); }
    void end()
    {
        check(); for (auto& i : insts) CHECK(!i.alive, "leaf %d was never destroyed", i.id);
    }
}
static void arguments(Src& s)
{
    auto& r = ca::regs()[s.draw(ca::regs().size())]; r.first(s);
    if (r.second) pbt::nontrivial();
}
pbt::Prop pbt::props[] = {
    {"arguments", arguments, 1, "a construction is non-trivial if it has at least one argument that a leaf records"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { ca::insts.clear(); ca::insts.reserve(64); ca::error.clear(); }
