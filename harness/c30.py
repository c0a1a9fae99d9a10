"""C30: programs made of random sets of KTL headers.

A case is a program of one to three translation units: for each the headers it includes (any subset, order and
repetition), what else it does before them, and the snippets that use what those headers provide.  A snippet uses
nothing but its header (and the language-support headers a caller needs, included after KTL's).  The program has to
compile, link and return 0; the units share functions whose signatures name KTL types that one unit only knows from
forward headers, and ktl::global instances that must be one object in the whole program."""
import random, os, subprocess, hashlib

A, C, U = "ktl/allocators/", "ktl/containers/", "ktl/utility/"
# header -> [(name, declarations at namespace scope, body returning int)]
S = {}
def snip(h, name, body, top="", also=()): S.setdefault(h, []).append((name, top, body, tuple(also)))

snip(A + "linear_allocator.h", "linear", "ktl::linear_allocator<256> a; void* p = a.allocate(40); bool ok = p && a.owns(p) && a.max_size() == 256; a.deallocate(p, 40); return !ok;")
snip(A + "linear_allocator.h", "linear_typed", "ktl::type_allocator<double, ktl::linear_allocator<256>> a; double* p = a.allocate(3); bool ok = p && a.owns(p) && a.max_size() == 256 / sizeof(double); a.deallocate(p, 3); return !ok;", also=(A + "type_allocator.h",))
snip(A + "linear_allocator.h", "linear_shared", "ktl::type_shared_linear_allocator<int, 256> a, b(a); int* p = a.allocate(3); bool ok = p && a == b && !(a != b); b.deallocate(p, 3); return !ok;", also=(A + "shared.h", A + "type_allocator.h"))
snip(A + "linear_allocator.h", "linear_ref", "ktl::linear_allocator<256> l; ktl::type_reference_linear_allocator<int, 256> a(l), b(a); int* p = a.allocate(3); bool ok = p && a == b && l.owns(p); b.deallocate(p, 3); return !ok;", also=(A + "reference.h", A + "type_allocator.h"))
snip(A + "stack_allocator.h", "stack", "ktl::stack<256> s; ktl::stack_allocator<256> a(s), b(&s); void* p = a.allocate(40); bool ok = p && b.owns(p) && a == b && !(a != b); b.deallocate(p, 40); return !ok;")
snip(A + "stack_allocator.h", "stack_typed", "ktl::stack<256> s; ktl::type_stack_allocator<int, 256> a(s); int* p = a.allocate(4); bool ok = p && a.owns(p); a.deallocate(p, 4); return !ok;", also=(A + "type_allocator.h",))
snip(A + "mallocator.h", "mal", "ktl::mallocator a, b; void* p = a.allocate(40); bool ok = p && a == b && !(a != b); b.deallocate(p, 40); return !ok;")
snip(A + "mallocator.h", "mal_typed", "ktl::type_mallocator<int> a; int* p = a.allocate(4); p[3] = 7; bool ok = p[3] == 7; a.deallocate(p, 4); return !ok;", also=(A + "type_allocator.h",))
snip(A + "null_allocator.h", "null", "ktl::null_allocator a, b; return a.allocate(1) != nullptr || !(a == b) || a != b;")
snip(A + "cascading.h", "casc", "ktl::cascading<ktl::linear_allocator<64>> a; void* p = a.allocate(40); void* q = a.allocate(40); bool ok = p && q && a.owns(p) && a.owns(q) && a.max_size() == 64; a.deallocate(p, 40); a.deallocate(q, 40); ktl::cascading<ktl::linear_allocator<64>> b(std::move(a)); return !ok || a == b;", also=(A + "linear_allocator.h",))
snip(A + "cascading.h", "casc_shared", "ktl::type_shared_cascading_allocator<int, ktl::linear_allocator<64>> a, b(a); int* p = a.allocate(10); bool ok = p && b.owns(p); b.deallocate(p, 10); return !ok;", also=(A + "linear_allocator.h", A + "shared.h", A + "type_allocator.h"))
snip(A + "fallback.h", "fall", "ktl::fallback<ktl::linear_allocator<64>, ktl::null_allocator> a; void* p = a.allocate(40); bool ok = p && a.owns(p) && !a.allocate(40); a.deallocate(p, 40); return !ok;", also=(A + "linear_allocator.h", A + "null_allocator.h"))
snip(A + "fallback.h", "fall_build", "ktl::fallback_builder_min<ktl::linear_allocator<32>, ktl::linear_allocator<64>, ktl::mallocator> a; void* p = a.allocate(60); a.deallocate(p, 60); return !p;", also=(A + "linear_allocator.h", A + "mallocator.h"))
snip(A + "fallback.h", "fall_typed", "ktl::type_fallback_allocator<int, ktl::linear_allocator<64>, ktl::mallocator> a; int* p = a.allocate(60); bool ok = p; a.deallocate(p, 60); return !ok;", also=(A + "linear_allocator.h", A + "mallocator.h", A + "type_allocator.h"))
snip(A + "segragator.h", "seg", "ktl::segragator<32, ktl::linear_allocator<64>, ktl::linear_allocator<128>> a; void* p = a.allocate(32); void* q = a.allocate(33); bool ok = p && q && a.owns(p) && a.owns(q) && a.max_size() == 128; a.deallocate(p, 32); a.deallocate(q, 33); return !ok;", also=(A + "linear_allocator.h",))
snip(A + "segragator.h", "seg_build", "ktl::segragator_builder_max<ktl::linear_allocator<64>, ktl::threshold<16>, ktl::linear_allocator<128>, ktl::threshold<64>, ktl::mallocator> a; void* p = a.allocate(60); void* q = a.allocate(600); a.deallocate(p, 60); a.deallocate(q, 600); return !p || !q;", also=(A + "linear_allocator.h", A + "mallocator.h"))
snip(A + "freelist.h", "free", "ktl::freelist<0, 64, ktl::linear_allocator<256>> a; void* p = a.allocate(40); a.deallocate(p, 40); void* q = a.allocate(64); bool ok = p && p == q && !a.allocate(65); a.deallocate(q, 64); return !ok;", also=(A + "linear_allocator.h",))
snip(A + "freelist.h", "free_typed", "ktl::type_shared_freelist_allocator<int, 0, 64, ktl::mallocator> a; int* p = a.allocate(4); a.deallocate(p, 4); return !p;", also=(A + "mallocator.h", A + "shared.h", A + "type_allocator.h"))
snip(A + "global.h", "glob", "ktl::global<ktl::linear_allocator<4096>> a, b; void* p = a.allocate(40); bool ok = p && b.owns(p) && a == b && &a.get_allocator() == &b.get_allocator(); b.deallocate(p, 40); return !ok;", also=(A + "linear_allocator.h",))
snip(A + "reference.h", "refr", "ktl::linear_allocator<256> l; ktl::reference<ktl::linear_allocator<256>> a(l), b(a); void* p = a.allocate(40); bool ok = p && l.owns(p) && a == b; b.deallocate(p, 40); return !ok;", also=(A + "linear_allocator.h",))
snip(A + "shared.h", "shar", "ktl::shared<ktl::linear_allocator<256>> a, b(a); void* p = a.allocate(40); bool ok = p && b.owns(p) && a == b; b.deallocate(p, 40); return !ok;", also=(A + "linear_allocator.h",))
snip(A + "shared.h", "shar_atomic", "ktl::type_atomic_shared<int, ktl::linear_allocator<256>> a, b(a); int* p = a.allocate(4); bool ok = p && b.owns(p); b.deallocate(p, 4); return !ok;", also=(A + "linear_allocator.h", A + "type_allocator.h"))
snip(A + "threaded.h", "thr", "ktl::threaded<ktl::linear_allocator<256>> a; void* p = a.allocate(40); bool ok = p && a.owns(p); a.deallocate(p, 40); return !ok;", also=(A + "linear_allocator.h",))
snip(A + "threaded.h", "thr_shared", "ktl::type_shared_threaded<int, ktl::linear_allocator<256>> a, b(a); int* p = a.allocate(4); bool ok = p && b.owns(p); b.deallocate(p, 4); return !ok;", also=(A + "linear_allocator.h", A + "shared.h", A + "type_allocator.h"))
snip(A + "overflow.h", "over", "std::ostringstream o; { ktl::overflow<ktl::linear_allocator<512>> a(o); void* p = a.allocate(40); a.deallocate(p, 40); } if (!o.str().empty()) return 1; { ktl::overflow<ktl::linear_allocator<512>, std::ostream> a(o); char* p = (char*)a.allocate(40); p[40] = 1; a.deallocate(p, 40); } return o.str().empty();", also=(A + "linear_allocator.h",))
snip(A + "overflow.h", "over_typed", "std::ostringstream o; { ktl::type_overflow_allocator<int, ktl::linear_allocator<512>> a(o); int* p = a.allocate(4); a.construct(p, 3); a.destroy(p); a.deallocate(p, 4); } return !o.str().empty();", also=(A + "linear_allocator.h", A + "type_allocator.h"))
snip(A + "type_allocator.h", "typed_stl", "typedef ktl::type_allocator<int, ktl::shared<ktl::mallocator>> TA; std::vector<int, TA> v{TA()}; std::list<int, TA> l{TA()}; for (int i = 0; i < 50; i++) { v.push_back(i); l.push_back(i); } return v[49] != 49 || l.back() != 49;", also=(A + "shared.h", A + "mallocator.h"))
snip(C + "trivial_vector.h", "tvec", "ktl::trivial_vector<int> v; for (int i = 0; i < 9; i++) v.push_back(i); v.emplace(v.begin() + 2, 77); v.erase(v.begin()); v.reserve(40); v.resize(12); return v.size() != 12 || v[1] != 77 || v.at(8) != 8;")
snip(C + "trivial_vector.h", "tvec_ktl", "ktl::trivial_vector<int, ktl::type_allocator<int, ktl::linear_allocator<4096>>> v; for (int i = 0; i < 9; i++) v.push_back(i); return v[8] != 8;", also=(A + "type_allocator.h", A + "linear_allocator.h"))
snip(C + "trivial_array.h", "tarr", "ktl::trivial_array<int> v(4, 9); v.resize(3); v.resize(8); ktl::trivial_array<int> w(v); int x[2] = {1, 2}; w.assign(x, x + 2); return v.size() != 8 || v[2] != 9 || w.size() != 2 || w[1] != 2;")
snip(C + "trivial_buffer.h", "tbuf", "ktl::trivial_buffer<double, 5> b(2.5); b[7] = 1; ktl::trivial_buffer<double, 5> c(b); return c[2] != 1 || c.at(11) != 2.5 || c.size() != 5 || c.end() - c.begin() != 5;")
snip(C + "binary_heap.h", "heap", "ktl::binary_min_heap<int> h; ktl::binary_max_heap<int> m{3, 1, 2}; for (int i : {4, 2, 8, 1}) h.insert(i); int a = h.pop(); int b = h.peek(); return a != 1 || b != 2 || m.pop() != 3 || h.find(8) == h.end();")
snip(C + "binary_heap.h", "heap_ktl", "ktl::binary_min_heap<std::string, ktl::type_allocator<std::string, ktl::mallocator>> h; for (int i = 9; i; i--) h.insert(std::to_string(i)); return h.pop() != \"1\";", also=(A + "type_allocator.h", A + "mallocator.h"))
snip(C + "packed_ptr.h", "pack", "int x; ktl::packed_ptr<int*, 2> p(&x, 3u); bool ok = p.get_ptr() == &x && p.get_int<unsigned>() == 3; p.set_int(1u); return !ok || p.get_int<unsigned>() != 1 || p.get_ptr() != &x;")
snip(U + "alignment.h", "align", "return (5 + ktl::detail::align_to_architecture(5)) % alignof(std::max_align_t);")
snip(U + "bits.h", "bits", "return ktl::detail::log2(64) != 6;")
snip(U + "aligned_malloc.h", "amal", "void* p = ktl::detail::aligned_malloc(100, 16); ktl::detail::aligned_free(p); return !p;")
snip(U + "meta.h", "meta", "struct M { bool owns(void*); }; return !ktl::detail::has_owns_v<M> || ktl::detail::has_max_size_v<M>;")
snip(U + "builder.h", "build", "return ktl::detail::pow2<5>::Result != 8;")
snip(U + "assert.h", "assert", "int x = 1; KTL_ASSERT(x == 1); return x - 1;")

FULL = sorted(S); EVERYTHING = "ktl/ktl.h"
FWD = [A + x + "_fwd.h" for x in "cascading fallback freelist global linear_allocator mallocator overflow reference segragator shared stack_allocator threaded type_allocator".split()] + [C + x + "_fwd.h" for x in "binary_heap packed_ptr trivial_array trivial_vector".split()]
FWDALL = ["ktl/ktl_alloc_fwd.h", "ktl/ktl_container_fwd.h"]
OTHER = [U + "empty_base.h"]
# types usable by name from forward headers: (type, forward headers any of which declare all of it, defining headers)
BR = [("ktl::linear_allocator<64>", A + "linear_allocator"), ("ktl::stack_allocator<64>", A + "stack_allocator"), ("ktl::mallocator", A + "mallocator"),
      ("ktl::type_linear_allocator<int, 64>", A + "linear_allocator"), ("ktl::type_shared_linear_allocator<int, 64>", A + "linear_allocator"), ("ktl::type_reference_linear_allocator<int, 64>", A + "linear_allocator"),
      ("ktl::type_cascading_allocator<int, ktl::linear_allocator<64>>", A + "cascading"), ("ktl::type_shared_cascading_allocator<int, ktl::linear_allocator<64>>", A + "cascading"),
      ("ktl::type_fallback_allocator<int, ktl::linear_allocator<64>, ktl::mallocator>", A + "fallback"), ("ktl::type_shared_fallback_allocator<int, ktl::linear_allocator<64>, ktl::mallocator>", A + "fallback"),
      ("ktl::fallback_builder_max<ktl::linear_allocator<32>, ktl::linear_allocator<64>, ktl::mallocator>", A + "fallback"),
      ("ktl::type_segragator_allocator<int, 8, ktl::linear_allocator<64>, ktl::mallocator>", A + "segragator"), ("ktl::type_reference_segragator_allocator<int, 8, ktl::linear_allocator<64>, ktl::mallocator>", A + "segragator"), ("ktl::type_shared_segragator_allocator<int, 8, ktl::linear_allocator<64>, ktl::mallocator>", A + "segragator"),
      ("ktl::segragator_builder_min<ktl::linear_allocator<32>, ktl::threshold<16>, ktl::mallocator>", A + "segragator"),
      ("ktl::type_freelist_allocator<int, 0, 64, ktl::mallocator>", A + "freelist"), ("ktl::type_shared_freelist_allocator<int, 0, 64, ktl::mallocator>", A + "freelist"),
      ("ktl::type_overflow_allocator<int, ktl::mallocator>", A + "overflow"), ("ktl::type_shared_overflow_allocator<int, ktl::mallocator>", A + "overflow"), ("ktl::overflow<ktl::mallocator>", A + "overflow"),
      ("ktl::shared<ktl::mallocator>", A + "shared"), ("ktl::atomic_shared<ktl::mallocator>", A + "shared"), ("ktl::type_shared<int, ktl::mallocator>", A + "shared"), ("ktl::type_atomic_shared<int, ktl::mallocator>", A + "shared"), ("ktl::notomic<unsigned>", A + "shared"),
      ("ktl::type_shared_threaded<int, ktl::mallocator>", A + "threaded"), ("ktl::threaded<ktl::mallocator>", A + "threaded"), ("ktl::type_mallocator<int>", A + "mallocator"),
      ("ktl::type_stack_allocator<int, 64>", A + "stack_allocator"), ("ktl::global<ktl::mallocator>", A + "global"), ("ktl::reference<ktl::mallocator>", A + "reference"), ("ktl::null_allocator", "ktl/ktl_alloc"),
      ("ktl::trivial_vector<int>", C + "trivial_vector"), ("ktl::trivial_array<int>", C + "trivial_array"), ("ktl::binary_min_heap<int>", C + "binary_heap"), ("ktl::binary_max_heap<int>", C + "binary_heap"), ("ktl::packed_ptr<int*, 1>", C + "packed_ptr"), ("ktl::trivial_buffer<int, 3>", "ktl/ktl_container")]
STD = "algorithm atomic cstdint cstdio cstring functional limits map memory mutex ostream string tuple type_traits vector windows".split()

# a case is plain data: {'cxx','std','assert','opt','tus':[{'pre':[..],'inc':[..],'use':[(header, index)],'bridge':[k],'fwd'}]}

def generate(r):
    n = r.choice([1, 1, 2, 2, 3])
    c = {"cxx": r.choice(["g++", "clang++"]), "std": r.choice(["c++17", "c++20", "c++23"]), "assert": r.random() < 0.5, "opt": r.choice(["-O0", "-O0", "-O1"]), "tus": []}
    for i in range(n):
        # a unit that shares signatures with another knows the types from forward headers only: calling a function with a
        # type whose template is defined and whose arguments are not is the caller's mistake
        only = i > 0 and r.random() < 0.5
        inc = r.sample((FWD + FWDALL if only else FULL + FWD + FWDALL) + OTHER, r.choice([1, 1, 2, 3, 5, 8]))
        if not only and r.random() < 0.15: inc.insert(r.randint(0, len(inc)), EVERYTHING)
        pool = [(h, k) for h in (FULL if EVERYTHING in inc else [h for h in inc if h in S]) for k in range(len(S[h]))]
        use = r.sample(pool, min(len(pool), r.choice([0, 1, 2, 4])))
        for h, k in use:
            for a in S[h][k][3]:
                if a not in inc and EVERYTHING not in inc: inc.insert(r.randint(0, len(inc)), a)
        if r.random() < 0.2: inc.append(r.choice(inc))
        if not only and r.random() < 0.1: inc += r.sample(FULL, 12)
        pre = r.sample(STD, r.choice([1, 2, 3])) if r.random() < 0.2 else []
        c["tus"].append({"pre": pre, "inc": inc, "use": use, "bridge": [], "fwd": only})
    if any(t["fwd"] for t in c["tus"]):
        bridges = r.sample(range(len(BR)), r.randint(1, 8))
        for i, t in enumerate(c["tus"]):
            if i == 0 or t["fwd"]: t["bridge"] = list(bridges)
    return c

def fwd_of(stem): return stem + "_fwd.h"

def source(c, i):
    t = c["tus"][i]; o = []
    for p in t["pre"]:
        # a Windows translation unit: <windows.h> defines these two unless NOMINMAX is set
        if p == "windows": o += [f"#include <{x}>" for x in "algorithm atomic csignal cstddef cstdint cstdlib cstring functional iterator limits memory mutex ostream string tuple type_traits utility sstream vector list".split()] + ["#define min(a, b) (((a) < (b)) ? (a) : (b))", "#define max(a, b) (((a) > (b)) ? (a) : (b))"]
        else: o.append(f"#include <{p}>" )
    if c["assert"]: o.append("#define KTL_DEBUG_ASSERT")
    if t["bridge"]:
        if t["fwd"]: o += [f"#include <{h}>" for h in dict.fromkeys(fwd_of(BR[k][1]) for k in t["bridge"])] + [f"#include <{A}linear_allocator_fwd.h>", f"#include <{A}mallocator_fwd.h>"]
    o += [f"#include <{h}>" for h in t["inc"]]
    if t["bridge"] and not t["fwd"]: o.append("#include <ktl/ktl.h>")
    if "windows" in t["pre"]: o += ["#undef min", "#undef max"]
    o += ["#include <sstream>", "#include <vector>", "#include <list>", "#include <string>", "#include <cstddef>", "#include <cstdio>"]
    body = []
    for n, (h, k) in enumerate(t["use"]):
        name, top, b, _ = S[h][k]
        if top: o.append(top)
        o.append(f"static int use_{n}() {{ {b} }}")
        body.append(f"if (use_{n}()) {{ std::puts(\"unit {i}: {name} misbehaves\"); r = 1; }}")
    for k in t["bridge"]:
        ty = BR[k][0]
        if t["fwd"]:     # knows the type from a forward declaration only (or completely, if its headers say so)
            o.append(f"int bridge_{k}({ty}*, const {ty}&);\nint through_{i}_{k}({ty}* p) {{ return bridge_{k}(p, *p); }}")
        else:
            o.append(f"int bridge_{k}({ty}* p, const {ty}& q) {{ return p == &q ? int(sizeof(*p) % 251) : -1; }}")
            o += [f"int through_{j}_{k}({ty}*);" for j in range(1, len(c["tus"])) if k in c["tus"][j]["bridge"]]
            o.append(f"static int check_{k}() {{ alignas({ty}) static unsigned char raw[sizeof({ty})]; {ty}* p = reinterpret_cast<{ty}*>(raw); int e = int(sizeof({ty}) % 251); return " + " || ".join(f"through_{j}_{k}(p) != e" for j in range(1, len(c["tus"])) if k in c["tus"][j]["bridge"]) + "; }")
            body.append(f"if (check_{k}()) {{ std::puts(\"bridge: {ty}\"); r = 1; }}")
    has = lambda h: EVERYTHING in t["inc"] or h in t["inc"] or (t["bridge"] and not t["fwd"])
    g = bool(has(A + "global.h") and has(A + "linear_allocator.h"))
    if g: o.append(f"void* glob_{i}() {{ ktl::global<ktl::linear_allocator<4096>> g; return &g.get_allocator(); }}")
    else: o.append(f"void* glob_{i}() {{ return nullptr; }}")
    o.append(f"int unit_{i}() {{ int r = 0; {' '.join(body)} return r; }}")
    if i == 0:
        n = len(c["tus"])
        o += [f"int unit_{j}(); void* glob_{j}();" for j in range(1, n)]
        o.append("int main() { int r = 0; void* g = nullptr; " + " ".join(f"r |= unit_{j}(); if (void* x = glob_{j}()) {{ if (g && g != x) {{ std::puts(\"global<> is not one object in the whole program\"); r = 1; }} g = x; }}" for j in range(n)) + " return r; }")
    return "\n".join(o) + "\n"

def nontrivial(c): return sum(len(set(t["inc"])) for t in c["tus"]) >= 2 and (any(t["use"] for t in c["tus"]) or len(c["tus"]) > 1)
def show(c): return f"{c['cxx']} -std={c['std']} {c['opt']}{' asserts' if c['assert'] else ''}: " + " | ".join((("[" + ",".join(t["pre"]) + "] ") if t["pre"] else "") + " ".join(h.replace("ktl/", "", 1) for h in t["inc"]) + " => " + (",".join(S[h][k][0] for h, k in t["use"]) or "-") + (f" + {len(t['bridge'])} shared signatures" + (" by forward headers" if t["fwd"] else "") if t["bridge"] else "") for t in c["tus"])

def evaluate(c, inc, work, tag):
    """None, or what went wrong"""
    d = os.path.join(work, tag); os.makedirs(d, exist_ok=True); objs = []
    env = dict(os.environ, LC_ALL="C.UTF-8")
    try:
        for i in range(len(c["tus"])):
            f = f"{d}/u{i}.cpp"; open(f, "w").write(source(c, i))
            cmd = [c["cxx"], f"-std={c['std']}", c["opt"], "-w", f"-I{inc}"] + (["-c", f, "-o", f"{d}/u{i}.o"])
            p = run(cmd, env)
            if p[0]: return f"unit {i} does not compile:\n{errors(p[1])}"
            objs.append(f"{d}/u{i}.o")
        p = run([c["cxx"]] + objs + ["-pthread", "-o", f"{d}/x"], env)
        if p[0]: return f"does not link:\n{errors(p[1])}"
        p = run([f"{d}/x"], env, 60)
        if p[0]: return f"ended with {p[0]}: {p[1][-600:]}"
        return None
    finally:
        for f in os.listdir(d): os.unlink(os.path.join(d, f))
        os.rmdir(d)

class NoVerdict(Exception): pass
def run(cmd, env, timeout=240):
    for _ in range(3):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout, env=env)
            out = p.stdout.decode(errors="replace")
            if p.returncode and ("Killed" in out or "internal compiler error" in out or "No space left" in out): continue
            return p.returncode, out
        except subprocess.TimeoutExpired: pass
    raise NoVerdict(" ".join(cmd))
def errors(log):
    ls = [l for l in log.splitlines() if "error" in l or "undefined reference" in l or "multiple definition" in l]
    return "\n".join(ls[:6])

def shrink(c, bad, deadline):
    import copy, time
    cur = copy.deepcopy(c)
    def tries():
        for i in reversed(range(1, len(cur["tus"]))): yield lambda x, i=i: x["tus"].pop(i)
        for i, t in enumerate(cur["tus"]):
            for k in ("use", "pre", "bridge"):
                for j in reversed(range(len(t[k]))):
                    if k == "bridge":
                        yield lambda x, b=t[k][j]: [y["bridge"].remove(b) for y in x["tus"] if b in y["bridge"]]
                    else: yield lambda x, i=i, j=j, k=k: x["tus"][i][k].pop(j)
            for j in reversed(range(len(t["inc"]))): yield lambda x, i=i, j=j: x["tus"][i]["inc"].pop(j)
        yield lambda x: x.update(opt="-O0")
        yield lambda x: x.update({"assert": False})
        yield lambda x: x.update(cxx="g++", std="c++17")
    progress = True
    while progress and time.time() < deadline:
        progress = False
        for f in tries():
            if time.time() > deadline: break
            n = copy.deepcopy(cur); f(n)
            if not any(t["fwd"] for t in n["tus"]):
                for t in n["tus"]: t["bridge"] = []
            if n == cur: continue
            # what a snippet needs has to stay included
            if any(a not in t["inc"] and EVERYTHING not in t["inc"] for t in n["tus"] for h, k in t["use"] for a in (h,) + S[h][k][3]): continue
            if bad(n): cur = n; progress = True; break
    return cur

def singles():
    """every header on its own, in every language level"""
    for std in ("c++17", "c++20", "c++23"):
        for cxx in ("g++", "clang++"):
            for h in FULL + FWD + FWDALL + OTHER + [EVERYTHING]:
                yield {"cxx": cxx, "std": std, "assert": std == "c++20", "opt": "-O0", "tus": [{"pre": [], "inc": [h], "use": [(h, k) for k in range(len(S.get(h, []))) if not S[h][k][3]], "bridge": [], "fwd": False}]}
    for cxx, std in (("g++", "c++17"), ("clang++", "c++20")):
        yield {"cxx": cxx, "std": std, "assert": True, "opt": "-O0", "tus": [{"pre": ["windows"], "inc": [EVERYTHING], "use": [(h, 0) for h in FULL], "bridge": [], "fwd": False}]}
