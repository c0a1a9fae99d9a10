// C01: live blocks are aligned, disjoint and keep their contents
#include "driver.h"
#include "scale.h"
using namespace drv;

static void blocks(Src& s)
{
    drawPlans(s);
    History h(drawEntry(s));
    h.create();
    if (s.flag(1, 3)) h.create();
    s.maxSteps = 20 + 4 * s.sizeHint();
    while (s.more(30))
    {
        pbt::Span sp;
        int i = int(s.draw(h.inst.size()));
        static const unsigned w[] = { 6, 4, 1, 1 };
        switch (s.pick(w))
        {
        case 0: h.allocate(i, drawSize(s)); break;
        case 1: if (!h.live.empty()) h.deallocate(h.pickLive(s)); break;
        case 2: if (!h.live.empty()) h.objectIn(s, s.draw(h.live.size())); break;
        default:    // burst
            for (size_t k = s.range(1, 8), n = drawSize(s); k--;) h.allocate(i, n);
            break;
        }
    }
    if (h.maxLive >= 2 && h.deallocs >= 1) pbt::nontrivial();
    if (h.maxLive >= 10) pbt::label("10+ live blocks");
    if (h.refusals) pbt::label("some refusals");
    if (h.inst.size() > 1) pbt::label("two instances");
    h.freeAll(s); h.destroyAll(); h.balance();
}
static void many(Src& s) { scale::blocks(s); }
pbt::Prop pbt::props[] = {
    {"blocks", blocks, 400, "a history over one zoo composition is non-trivial if at least two blocks were live at once and at least one was deallocated while others lived on or later reused"},
    {"many", many, 1, "thousands of blocks; non-trivial if at least 100 were live at once"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { resetAll(); }
