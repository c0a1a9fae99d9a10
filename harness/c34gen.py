#!/usr/bin/env python3
"""Random constructions for C34: a composition, the arguments it is constructed with, and what each leaf has to see."""
import random

class Node: pass
class Retry(Exception): pass

class Gen:
    def __init__(s, rnd): s.r = rnd; s.toks = []; s.pre = []; s.n = 0; s.leaves = []; s.exp = []; s.sinks = 0; s.srcs = 0; s.objs = 0
    def tok(s):
        k = len(s.toks); c = s.r.choice("lcr"); s.toks.append(c)
        return ({"l": f"t{k}", "c": f"std::as_const(t{k})", "r": f"std::move(t{k})"}[c], f"{{'{c}', v{k}}}")
    def leaf(s, argc=None):
        """argc: None any, else the number of arguments; the result's args may then be used as they are"""
        r = s.r; id = s.n; s.n += 1; t = Node(); t.type = f"ca::L<{id}>"; t.chain = None; t.single = True; t.ids = [id]
        k = r.choice([0, 1, 1, 2, 3]) if argc is None else argc
        if k == 1 and r.random() < .3:      # another instance, copied or moved
            x = f"x{s.srcs}"; s.srcs += 1; e, w = s.tok(); s.pre.append(f"{t.type} {x}({e}); ca::external({id});")
            move = r.random() < .5; t.args = [f"std::move({x})" if move else r.choice([x, f"std::as_const({x})"])]
            s.exp.append(f"ca::expectFrom({id}, {'true' if move else 'false'});")
        else:
            a = [s.tok() for _ in range(k)]; t.args = [x for x, _ in a]; s.exp.append(f"ca::expect({id}, {{{', '.join(w for _, w in a)}}});")
        t.movable = True; return t
    def comp(s, d, argc=None):
        r = s.r
        if d <= 0 or r.random() < .1: return s.leaf(argc)
        k = r.choice(["freelist", "shared", "threaded", "overflow", "reference", "fallback", "fallback", "fallback", "segragator", "segragator", "segragator", "cascading"])
        t = Node(); t.single = True
        if k in ("freelist", "shared", "threaded"):
            a = s.comp(d - 1, argc); at = r.choice(["shared", "atomic_shared"]) if k == "shared" else k
            t.type = f"ktl::freelist<0, {r.choice([64, 100, 256])}, {a.type}>" if k == "freelist" else f"ktl::{at}<{a.type}>"
            t.args = a.args; t.inner = a; t.stream = None; t.kind = k
        elif k == "overflow":
            if argc is not None and argc < 1: return s.comp(d, argc)
            a = s.comp(d - 1, None if argc is None else argc - 1); o = f"o{s.sinks}"; s.sinks += 1; s.pre.append(f"std::ostringstream {o};")
            t.type = f"ktl::overflow<{a.type}, std::ostringstream>"; t.args = [o] + a.args; t.inner = a; t.stream = o; t.kind = k
        elif k == "reference":
            if argc not in (None, 1): return s.comp(d, argc)
            a = s.comp(d - 1); y = f"y{s.objs}"; s.objs += 1; s.pre.append(s.declare(a, y))
            t.type = f"ktl::reference<{a.type}>"; t.args = [y]; t.inner = a; t.stream = None; t.kind = k
        elif k == "cascading":
            if argc not in (None, 0): return s.comp(d, argc)
            id = s.n; s.n += 1; t.type = f"ktl::cascading<ca::L<{id}>>"; t.args = []; t.inner = None; t.stream = None; t.kind = k; t.ids = [id]; t.movable = True
            s.exp.append(f"ca::expectNone({id});"); return t
        else:
            modes = [m for m, n in ((0, 0), (1, 1), (2, 2), (3, 1), (3, 1), (4, 2), (4, 2)) if argc in (None, n)]
            if not modes: return s.comp(d, argc)
            m = r.choice(modes)
            if m == 0: a, b = s.comp(d - 1, 0), s.comp(d - 1, 0); t.args = []
            elif m == 1: a, b = s.plain(d - 1), s.comp(d - 1, 0); t.args = a.args
            elif m == 2: a, b = s.plain(d - 1), s.plain(d - 1); t.args = a.args + b.args
            elif m == 3: a, b = s.comp(d - 1), s.comp(d - 1, 0); t.args = [s.tuple(a.args)]
            else: a, b = s.comp(d - 1), s.comp(d - 1); t.args = [s.tuple(a.args), s.tuple(b.args)]
            t.movable = a.movable and b.movable
            # what cannot be moved cannot be made from a tuple (gcc elides no copies into members that may overlap others)
            if not (a.movable if m == 3 else t.movable) and m > 2: raise Retry
            t.type = f"ktl::fallback<{a.type}, {b.type}>" if k == "fallback" else f"ktl::segragator<{r.choice([8, 24, 40, 64])}, {a.type}, {b.type}>"
            t.inner = None; t.stream = None; t.kind = k; t.ids = a.ids + b.ids; return t
        t.ids = a.ids; t.movable = k != "threaded" and (a.movable or k in ("shared", "reference")); return t
    def plain(s, d):
        """constructible from one argument that is not a tuple (a tuple is taken apart)"""
        for _ in range(30):
            st = (list(s.toks), list(s.pre), s.n, list(s.exp), s.sinks, s.srcs, s.objs)
            t = s.comp(d, 1)
            if "tuple" not in t.args[0]: return t
            s.toks, s.pre, s.n, s.exp, s.sinks, s.srcs, s.objs = st
        return s.leaf(1)
    def tuple(s, args):
        # a tuple of references; arguments that are tuples themselves are temporaries of the same full expression
        return f"std::forward_as_tuple({', '.join(args)})"
    def declare(s, t, name): return f"{t.type} {name}{'(' + ', '.join(t.args) + ')' if t.args else ''};"
    def accessors(s, t, name):
        """everything get_allocator() and get_stream() lead to"""
        out = []; e = name; ce = f"std::as_const({name})"
        while getattr(t, "kind", None) in ("freelist", "shared", "threaded", "overflow", "reference"):
            if t.stream: out.append(f"ca::same(&{e}.get_stream(), &{ce}.get_stream(), &{t.stream}, \"get_stream()\");")
            e += ".get_allocator()"; ce += ".get_allocator()"; t = t.inner
            out.append(f"static_assert(std::is_same_v<decltype({e}), {t.type}&>);")
            at = f"ca::only({t.ids[0]})" if not hasattr(t, "kind") else f"&{e}"
            out.append(f"ca::same(&{e}, &{ce}, {at}, \"get_allocator()\");")
        return out

def case(rnd, k):
    while True:
        try: g = Gen(rnd); t = g.comp(rnd.choice([1, 2, 2, 3, 3, 4])); break
        except Retry: pass
    ty = t.type
    # type_allocator refuses allocators with throwing moves: those of a wrapper over what cannot be moved or assigned are not noexcept
    typed = rnd.random() < .25 and sum(x in ty for x in ("threaded", "overflow", "freelist")) < 2
    if typed: n = Node(); n.kind = "reference"; n.type = f"ktl::type_allocator<ca::Obj, {ty}>"; n.args = t.args; n.inner = t; n.stream = None; n.ids = t.ids; n.movable = t.movable; t = n
    body = [f"using A = {t.type};"]
    for i, c in enumerate(g.toks): body.append(f"uint64_t v{i} = s.draw(1000); ca::Tok t{i}(v{i});")
    body += g.pre + ["ca::logArgs();", g.declare(t, "a")] + g.exp
    body += [f"ca::moved(t{i}, {'true' if c == 'r' else 'false'});" for i, c in enumerate(g.toks)]
    body += g.accessors(t, "a")
    body.append("static_assert(!std::is_constructible_v<A, ca::Nope> && !std::is_constructible_v<A, ca::Nope, ca::Nope> && !std::is_constructible_v<A, std::tuple<ca::Nope>>, \"constructible from anything\");")
    body.append(f"ca::use<{'true' if typed else 'false'}>(s, a, {{{', '.join(map(str, t.ids))}}});")
    body += [f"CHECK(o{i}.str().empty(), \"overflow reported: %s\", o{i}.str().c_str());" for i in range(g.sinks)]
    text = f"{t.type} a({', '.join(t.args)})"
    esc = text.replace('"', '\\"')
    return text, f"static void c{k}(Src& s)\n{{\n    pbt::log(\"%s\", \"{esc}\");\n    {{\n        " + "\n        ".join(body) + "\n    }\n    ca::end();\n}\n", len(g.toks)

def cases(seed, count):
    rnd = random.Random(seed * 7919 + 34); out = []; seen = set()
    while len(out) < count:
        c = case(rnd, len(out))
        if c[0] in seen: continue
        seen.add(c[0]); out.append(c)
    return out
def compositions(seed, count): return [c[0] for c in cases(seed, count)]
def main(seed, count, outdir, files):
    cs = cases(seed, count)
    for f in range(files):
        with open(f"{outdir}/zoo_gen{f}.cpp", "w") as o:
            o.write('// generated by c34gen.py\n#include "c34.h"\nusing pbt::Src;\nnamespace\n{\n')
            mine = [i for i in range(count) if i % files == f]
            for i in mine: o.write(cs[i][1])
            o.write("}\n" + "".join(f"static ca::Reg r{i}(&c{i}, {1 if cs[i][2] else 0});\n" for i in mine))
