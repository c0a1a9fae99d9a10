#include "zoo.h"
#include <algorithm>
namespace zoo
{
    static Sink s_sink;
    Sink& sink() { return s_sink; }
    uint64_t Obj::ctors = 0, Obj::dtors = 0; void (*Obj::hook)() = nullptr;
    std::vector<Entry>& entries() { static std::vector<Entry> e; return e; }
    void resetState() { s_sink.text.clear(); Obj::ctors = Obj::dtors = 0; Obj::hook = nullptr; }
}
