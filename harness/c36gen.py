#!/usr/bin/env python3
"""Random pairs for C36: a composition and the same one after laws were applied to it at random places."""
import random

class Node:
    def __init__(s, kind, *kids, **kw): s.kind, s.kids = kind, list(kids); s.__dict__.update(kw)

def movable(t):
    return t.kind not in ("threaded", "overflow") and (t.kind in ("shared", "atomic_shared", "dref", "dglobal", "cascading") or all(movable(k) for k in t.kids))

def refers(t):   # a global outlives the case, what references denote does not
    return t.kind == "dref" or any(refers(k) for k in t.kids)
def maxs(t):     # offers max_size()
    return "MAXS" in t.flags if t.kind == "leaf" else t.kind not in ("fnull", "nullf", "snull", "snull1") and all(maxs(k) for k in t.kids)

class Gen:
    def __init__(s, rnd): s.r = rnd; s.n = 0; s.tags = 0; s.laws = 0; s.sizes = []; s.owned = rnd.random() < .75
    def leaf(s):
        f = ["tw::OWNS"] if s.owned or s.r.random() < .5 else []
        cons = s.owned and s.r.random() < .5
        t = Node("leaf", id=s.n, flags="|".join(f + (["tw::CONS"] if cons else []) + (["tw::MAXS"] if s.r.random() < .6 else [])) or "0", owns=bool(f)); s.n += 1; return t
    def comp(s, d):
        r = s.r
        if d <= 0 or r.random() < .1 or s.n > 8: return s.leaf()
        k = r.choice(["freelist", "fallback", "fallback", "segragator", "segragator", "overflow", "cascading"])
        if k == "freelist":
            lo, hi = r.choice([(0, 64), (0, 128), (16, 100), (0, 300)]); s.sizes += [lo, hi]; a = s.comp(d - 1); return Node(k, a, lo=lo, hi=hi, owns=a.owns)
        if k == "overflow": a = s.comp(d - 1); return Node(k, a, owns=a.owns)
        if k == "cascading":
            a = s.leaf()
            return Node(k, a, owns=True) if a.owns else a
        a, b = s.comp(d - 1), s.comp(d - 1)
        if k == "fallback":
            if not a.owns: a, b = b, a
            if not a.owns: return a
            return Node(k, a, b, owns=b.owns)
        t = r.choice([8, 32, 64, 100, 256]); s.sizes.append(t); return Node(k, a, b, t=t, owns=a.owns and b.owns)
    def wrap(s, t, shared_ok):
        k = s.r.choice(["shared", "atomic_shared", "threaded"] + (["dref"] if shared_ok else []) + (["dglobal"] if shared_ok and movable(t) and not refers(t) else []))
        s.laws += 1; s.tags += 1; return Node(k, t, tag=s.tags, owns=t.owns)
    def decorate(s, t, p, alone=True):
        """alone: only one instance of this part exists, so it may be one that others denote as well"""
        r = s.r
        t = Node(t.kind, *[s.decorate(k, p, alone and t.kind != "cascading") for k in t.kids], **{k: v for k, v in t.__dict__.items() if k not in ("kind", "kids")})
        if t.kind == "fallback" and t.kids[1].kind == "fallback" and r.random() < p:
            a, (b, c) = t.kids[0], t.kids[1].kids
            if b.owns: s.laws += 1; t = Node("fallback", Node("fallback", a, b, owns=True), c, owns=c.owns)
        elif t.kind == "fallback" and t.kids[0].kind == "fallback" and r.random() < p:
            (a, b), c = t.kids[0].kids, t.kids[1]; s.laws += 1; t = Node("fallback", a, Node("fallback", b, c, owns=c.owns), owns=c.owns)
        elif t.kind == "segragator" and t.kids[1].kind == "segragator" and t.t <= t.kids[1].t and r.random() < p:
            a, (b, c) = t.kids[0], t.kids[1].kids; s.laws += 1; u = t.kids[1].t
            t = Node("segragator", Node("segragator", a, b, t=t.t, owns=a.owns and b.owns), c, t=u, owns=t.owns)
        elif t.kind == "segragator" and t.kids[0].kind == "segragator" and t.kids[0].t <= t.t and r.random() < p:
            (a, b), c = t.kids[0].kids, t.kids[1]; s.laws += 1; u = t.kids[0].t
            t = Node("segragator", a, Node("segragator", b, c, t=t.t, owns=b.owns and c.owns), t=u, owns=t.owns)
        elif t.kind == "freelist" and r.random() < p:      # a freelist of a freelist is one
            s.laws += 1; t = Node("freelist", t, lo=t.lo, hi=t.hi, owns=t.owns)
        while r.random() < p:
            k = r.choice(["wrap", "wrap", "wrap", "null", "null"])
            # null_allocator has no max_size(), and whether there is one may decide if a hopeless request is passed on
            if k == "wrap" or maxs(t): t = s.wrap(t, alone)
            elif t.owns: s.laws += 1; t = Node(r.choice(["fnull", "nullf", "snull"]), t, owns=True)
            else: t = Node(r.choice(["snull1"]), t, owns=t.owns); s.laws += 1
        return t

def text(t):
    k = [text(x) for x in t.kids]
    if t.kind == "leaf": return f"tw::L<{t.id}, {t.flags}>"
    if t.kind == "freelist": return f"ktl::freelist<{t.lo}, {t.hi}, {k[0]}>"
    if t.kind == "overflow": return f"zoo::doverflow<{k[0]}>"
    if t.kind in ("cascading", "shared", "atomic_shared", "threaded"): return f"ktl::{t.kind}<{k[0]}>"
    if t.kind == "dref": return f"zoo::dref<{k[0]}, {t.tag}>"
    if t.kind == "dglobal": return f"zoo::dglobal<zoo::tagged<{k[0]}, {t.tag}>>"
    if t.kind == "fallback": return f"ktl::fallback<{k[0]}, {k[1]}>"
    if t.kind == "segragator": return f"ktl::segragator<{t.t}, {k[0]}, {k[1]}>"
    if t.kind == "fnull": return f"ktl::fallback<{k[0]}, ktl::null_allocator>"
    if t.kind == "nullf": return f"ktl::fallback<ktl::null_allocator, {k[0]}>"
    if t.kind in ("snull", "snull1"): return f"ktl::segragator<SIZE_MAX, {k[0]}, ktl::null_allocator>"

def cases(seed, count):
    rnd = random.Random(seed * 7919 + 36); out = []; seen = set()
    while len(out) < count:
        g = Gen(rnd); t = g.comp(rnd.choice([0, 1, 2, 2, 3, 3])); u = g.decorate(t, .35)
        if not g.laws or (text(t), text(u)) in seen or len(text(u)) > 1500: continue
        seen.add((text(t), text(u))); out.append((text(t), text(u), g.n, g.owned, g.laws, g.sizes))
    return out
def compositions(seed, count): return [f"{c[0]} | {c[1]}" for c in cases(seed, count)]
def main(seed, count, outdir, files):
    cs = cases(seed, count)
    for f in range(files):
        with open(f"{outdir}/zoo_gen{f}.cpp", "w") as o:
            o.write('// generated by c36gen.py\n#include "c36.h"\n')
            for i in range(f, count, files):
                a, b, n, owned, laws, sizes = cs[i]
                o.write(f'static tw::Reg r{i}("{a}", "{b}", &tw::make<{a}>, &tw::make<{b}>, {n}, false, {laws}, {{{", ".join(map(str, sizes))}}});\n')
