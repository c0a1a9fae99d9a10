#include "c18.h"
namespace stl
{
    int64_t Elem::live = 0;
    std::vector<Suite>& suites() { static std::vector<Suite> s; return s; }
}
static void containers(pbt::Src& s)
{
    auto& v = stl::suites();
    // registration order depends on the link order, so index by name
    std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return strcmp(a.name, b.name) < 0; });
    auto& x = v[s.draw(v.size())];
    x.fn(s, x.name);
}
pbt::Prop pbt::props[] = {
    {"containers", containers, 1, "non-trivial if the containers were modified at least four times and copied, moved, assigned or swapped at least once"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { drv::resetAll(); }
