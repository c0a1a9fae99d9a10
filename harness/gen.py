#!/usr/bin/env python3
"""Random compositions of allocators, as zoo entries.  gen.py SEED COUNT OUTDIR FILES
Only compositions the library supports: cascading takes an allocator that offers owns() and whose instances
do not share memory, fallback one whose primary offers owns(). A segragator whose primary lacks owns() offers no
construct(), as it cannot know whose it is; its parts' construct() is hidden then, and such a segragator is
not combined with parts that offer one (the oracle of C17 asks the owner of the memory only)."""
import random, sys

class T:
    def __init__(s, text, owns, maxs, cons, dest, exclusive, stat=False):
        s.text, s.owns, s.maxs, s.cons, s.dest, s.exclusive, s.stat = text, owns, maxs, cons, dest, exclusive, stat

class Gen:
    def __init__(s, rnd): s.r = rnd
    def fresh(s): s.ids = list(range(5)); s.r.shuffle(s.ids); s.n = 100; s.hid = set()
    def hidden(s, *ts): return any(h in t.text for t in ts for h in s.hid)
    def num(s): s.n += 1; return s.base + s.n
    def leaf(s, owns=False, excl=False):
        r = s.r
        for _ in range(100):
            k = r.choice(["r", "r", "r", "h", "lin", "lin", "mal", "dstack", "nul"])
            if k in "rh":
                if not s.ids: continue
                o, m, c = r.random() < .6 or owns, r.random() < .5, r.choice(["", "", "c", "C", "D"])
                F = "|".join(["leaf::OWNS"] * o + ["leaf::MAXS"] * m + ({"c": ["leaf::CD"], "C": ["leaf::CONS"], "D": ["leaf::DEST"], "": []}[c])) or "0"
                if k == "h" and excl: continue
                return T(f"{'leafR' if k == 'r' else 'leaf::H'}<{s.ids.pop()}, {F}>", o, m, c in ("c", "C"), c in ("c", "D"), k == "r")
            if k == "lin": return T(f"lin<{r.choice([32, 64, 96, 100, 128, 200, 256, 500, 512, 1000, 1024, 2048, 4096])}>", True, True, False, False, True)
            if k == "dstack":
                if excl: continue
                return T(f"dstack<{r.choice([64, 128, 250, 512, 1024, 4096])}, {s.num()}>", True, True, False, False, False, True)
            if k == "mal":
                if owns or excl: continue
                return T("mal", False, False, False, False, False)
            if k == "nul":
                if r.random() < .7: continue
                return T("nul", True, False, False, False, True)
        return T("lin<128>", True, True, False, False, True)
    def comp(s, d, owns=False, excl=False):
        r = s.r
        for _ in range(200):
            if d <= 0 or r.random() < .12:
                return s.leaf(owns, excl)
            k = r.choice(["freelist", "cascading", "fallback", "segragator", "fallback", "segragator", "shared", "doverflow", "dref", "dglobal"])
            save = list(s.ids)
            t = s.make(k, d, owns, excl)
            if t and (t.owns or not owns) and (t.exclusive or not excl): return t
            s.ids = save
        return s.leaf(owns, excl)
    def make(s, k, d, owns, excl):
        r = s.r
        if k == "freelist":
            a = s.comp(d - 1, owns, excl); hi = r.choice([8, 15, 16, 24, 32, 33, 48, 64, 100, 128, 256, 512]); lo = r.choice([0, 0, 0, 1, 7, 8, 15, 16, 17, 31, 32, 63])
            if lo >= hi: lo = 0
            return T(f"ktl::freelist<{lo}, {hi}, {a.text}>", a.owns, a.maxs, a.cons, a.dest, a.exclusive, a.stat)
        if k == "cascading":
            a = s.comp(d - 1, True, True)
            if not (a.owns and a.exclusive) or a.stat: return None
            return T(f"ktl::cascading<{a.text}>", True, a.maxs, a.cons, a.dest, True)
        if k in ("fallback", "segragator"):
            p = s.comp(d - 1, True if k == "fallback" else owns, excl); f = s.comp(d - 1, owns, excl)
            if k == "fallback" and not p.owns: return None
            cons, dest = p.cons or f.cons, p.dest or f.dest
            if (cons or dest) and s.hidden(p, f): return None
            a = "ktl::fallback<" if k == "fallback" else f"ktl::segragator<{r.choice([0, 1, 8, 15, 16, 17, 32, 40, 48, 63, 64, 65, 100, 128, 200, 256, 512])}, "
            text = f"{a}{p.text}, {f.text}>"
            if (cons or dest) and not p.owns: cons = dest = False; s.hid.add(text)
            return T(text, p.owns and f.owns, p.maxs and f.maxs, cons, dest, p.exclusive and f.exclusive, p.stat or f.stat)
        if k == "shared":
            a = s.comp(d - 1, owns, excl); at = r.choice(["shared", "atomic_shared"])
            if r.random() < .2: a = T(f"ktl::threaded<{a.text}>", a.owns, a.maxs, a.cons, a.dest, a.exclusive, a.stat)
            return T(f"ktl::{at}<{a.text}>", a.owns, a.maxs, a.cons, a.dest, a.exclusive, a.stat)
        if k == "doverflow":
            a = s.comp(d - 1, owns, excl)
            if s.hidden(a): return None
            return T(f"doverflow<{a.text}>", a.owns, a.maxs, True, True, a.exclusive, a.stat)
        if k == "dref":
            if excl: return None
            a = s.make(r.choice(["freelist", "cascading", "fallback", "segragator"]), d, owns, True)
            if not a or (owns and not a.owns): return None
            return T(f"dref<{a.text}, {s.num()}>", a.owns, a.maxs, a.cons, a.dest, False, True)
        if k == "dglobal":
            if excl: return None
            a = s.make("cascading", d, owns, True)
            if not a: return None
            return T(f"dglobal<{a.text}>", a.owns, a.maxs, a.cons, a.dest, False, True)

def compositions(seed, count):
    g = Gen(random.Random(seed)); out = []
    while len(out) < count:
        g.base = 1000 * (len(out) + 1); g.fresh()
        t = g.comp(g.r.choice([2, 2, 3, 3, 4]))
        if t.text.count("<") < 3 or len(t.text) > 700 or t.text in out: continue
        out.append(t.text)
    return out

def main(seed, count, outdir, files, weight=3):
    cs = compositions(seed, count); names = []
    for i in range(files):
        name = f"{outdir}/zoo_gen{i}.cpp"; names.append(name)
        with open(name, "w") as f:
            f.write('#include "zoo_types.h"\n')
            for c in cs[i::files]: f.write(f"ZOO({weight}, {c})\n")
    return names

if __name__ == "__main__":
    main(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], int(sys.argv[4]))
