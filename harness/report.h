// Reading the reports an overflow allocator writes to its stream
#pragma once
#include "pbt.h"
#include <string>

namespace rep
{
    inline size_t count(const std::string& t, const char* what) { size_t n = 0; for (size_t p = t.find(what); p != t.npos; p = t.find(what, p + 1)) n++; return n; }
    // the number in "<what>(N"; -1 if `what` does not occur; fails if it occurs twice or has no number
    inline long long number(const std::string& t, const std::string& what)
    {
        std::string w = what + " (";
        size_t p = t.find(w);
        if (p == t.npos) { CHECK(t.find(what) == t.npos, "report contains \"%s\" without a number: %s", what.c_str(), t.c_str()); return -1; }
        CHECK(t.find(w, p + 1) == t.npos, "report contains \"%s\" twice: %s", what.c_str(), t.c_str());
        char* e = nullptr; long long v = strtoll(t.c_str() + p + w.size(), &e, 10);
        CHECK(e != t.c_str() + p + w.size(), "report contains no number after \"%s\": %s", what.c_str(), t.c_str());
        return v;
    }
    // size named in "... area around <address> (N bytes) ..."
    inline long long aroundSize(const std::string& t)
    {
        size_t p = t.find("area around "); CHECK(p != t.npos, "report does not name the block: %s", t.c_str());
        p = t.find('(', p); CHECK(p != t.npos, "report does not name the size: %s", t.c_str());
        return strtoll(t.c_str() + p + 1, nullptr, 10);
    }
}
