#!/usr/bin/env python3
"""Every alias with random parameters for C37, next to the composition its name spells"""
import random
from c36gen import Gen, text
RAW = ["linear", "mallocator", "stack"]
def part(g, d, owns=False):
    while True:
        n, sizes = g.n, list(g.sizes); t = g.comp(d)
        # type_allocator refuses what is not assignable below freelist and overflow
        if "overflow" not in text(t) and (t.owns or not owns): return text(t)
        g.n, g.sizes = n, sizes
def case(rnd):
    """plain, alias, makers, leaves, handles, sizes"""
    r = rnd; g = Gen(r); V = r.choice(["unsigned char", "unsigned char", "uint32_t"]); d = r.choice([0, 0, 1, 2])
    k = r.choice(["cascading", "fallback", "fallback", "freelist", "freelist", "linear", "linear", "mallocator", "overflow", "segragator", "segragator", "stack", "shared", "atomic_shared", "shared_threaded", "untyped_atomic", "default_stream"])
    mode = r.choice(["", "shared"]); arg = None; handles = mode == "shared"; T = lambda x: f"ktl::type_allocator<{V}, {x}>"
    if k == "cascading": g.owned = True; ps = text(g.leaf()); inner = f"ktl::cascading<{ps}>"; ps = [ps]
    elif k == "fallback": ps = [part(g, d, True), part(g, d)]; inner = f"ktl::fallback<{', '.join(ps)}>"
    elif k == "freelist":
        lo, hi = r.choice([(0, 64), (0, 128), (16, 100), (40, 300)]); g.sizes += [lo, hi]; ps = [str(lo), str(hi), part(g, d)]; inner = f"ktl::freelist<{', '.join(ps)}>"
    elif k == "linear": mode = r.choice(["", "shared", "reference"]); S = r.choice([64, 256, 1024]); ps = [str(S)]; inner = f"ktl::linear_allocator<{S}>"; g.sizes.append(S)
    elif k == "stack": S = r.choice([64, 256, 1024]); ps = [str(S)]; inner = f"ktl::stack_allocator<{S}>"; arg = f"zoo::perCase<zoo::tagged<ktl::stack<{S}>, @>>()"; handles = True; g.sizes.append(S)
    elif k == "mallocator": mode = ""; handles = True; return T("ktl::mallocator"), f"ktl::type_mallocator<{V}>", None, g.n, True, g.sizes
    elif k in ("overflow", "default_stream"):
        st = "zoo::Sink" if k == "overflow" else "std::ostream"; ps = [part(g, d)] + ([st] if k == "overflow" else []); inner = f"ktl::overflow<{ps[0]}, {st}>"; arg = "zoo::sink()" if k == "overflow" else "tw::stream()"; k = "overflow"
    elif k == "segragator":
        mode = r.choice(["", "shared", "reference"]); t = r.choice([8, 32, 64, 100]); g.sizes.append(t); ps = [str(t), part(g, d), part(g, d)]; inner = f"ktl::segragator<{', '.join(ps)}>"
    else:
        p = part(g, d)
        if k == "shared": return T(f"ktl::shared<{p}, ktl::notomic>"), f"ktl::type_shared<{V}, {p}>", None, g.n, True, g.sizes
        if k == "atomic_shared": return T(f"ktl::shared<{p}, std::atomic>"), f"ktl::type_atomic_shared<{V}, {p}>", None, g.n, True, g.sizes
        if k == "shared_threaded": return T(f"ktl::shared<ktl::threaded<{p}>, std::atomic>"), f"ktl::type_shared_threaded<{V}, {p}>", None, g.n, True, g.sizes
        return f"ktl::shared<{p}, std::atomic>", f"ktl::atomic_shared<{p}>", None, g.n, True, g.sizes
    if mode == "reference": arg = f"zoo::perCase<zoo::tagged<{inner}, @>>()"; plain = T(f"ktl::reference<{inner}>"); handles = True
    elif mode == "shared": plain = T(f"ktl::shared<{inner}>")
    else: plain = T(inner)
    name = ("type_" + (mode + "_" if mode else "") + k + "_allocator")
    return plain, f"ktl::{name}<{V}, {', '.join(ps)}>", arg, g.n, handles, g.sizes
def cases(seed, count):
    rnd = random.Random(seed * 7919 + 37); out = []; seen = set()
    while len(out) < count:
        c = case(rnd)
        if c[1] in seen or len(c[1]) > 1500: 
            if rnd.random() < .9: continue
        seen.add(c[1]); out.append(c)
    return out
def compositions(seed, count): return [c[1] for c in cases(seed, count)]
def main(seed, count, outdir, files):
    cs = cases(seed, count)
    for f in range(files):
        with open(f"{outdir}/zoo_gen{f}.cpp", "w") as o:
            o.write('// generated by c37gen.py\n#include "c36.h"\n')
            for i in range(f, count, files):
                a, b, arg, n, h, sizes = cs[i]
                mk = [f"&tw::make<{x}>" if not arg else f"[]() -> tw::Any* {{ return tw::with<{x}>({arg.replace('@', str(2 * i + j))}); }}" for j, x in enumerate((a, b))]
                o.write(f'static tw::Reg r{i}("{a}", "{b}", {mk[0]}, {mk[1]}, {n}, {str(h).lower()}, 1, {{{", ".join(map(str, sizes))}}});\n')
