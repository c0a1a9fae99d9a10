#!/usr/bin/env python3
"""Runs the check of one property:  run.py CXX [--tier quick|thorough] [--seed N] [--replay FILE] [--keep]

Builds the harness of the property (harness/*.cpp) from /repo's working tree in the configurations of the
tier, drives it with generated cases, writes evidence/CXX.json and ends with 0 (held on everything explored)
or 1 (a line "VIOLATION property=CXX replay=PATH").  See DESIGN.md."""
import argparse, array, concurrent.futures as cf, hashlib, json, os, random, shutil, subprocess, sys, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(HERE, "harness")
sys.path.insert(0, H)
import gen, c30, c34gen, c36gen, c37gen
GENS = {"gen": gen, "c34gen": c34gen, "c36gen": c36gen, "c37gen": c37gen}     # the first's files are left out if they do not compile, the other's must
REPO = os.environ.get("KTL_REPO", "/repo")          # development only: a mutated copy
INC = os.path.join(REPO, "include")
BUILD = os.environ.get("KTL_BUILD", os.path.join(HERE, "build"))
REPLAY = os.path.join(HERE, "replay")
NCPU = os.cpu_count() or 4

SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all"
CONFIGS = {   # name: (compiler, flags)
    "gcc17":    ("g++", f"-std=c++17 -g1 -O1 {SAN} -DKTL_DEBUG_ASSERT"),
    "gcc17O0":  ("g++", f"-std=c++17 -g1 -O0 {SAN} -DKTL_DEBUG_ASSERT"),
    "clang20":  ("clang++", f"-std=c++20 -g1 -O1 {SAN}"),
    "clang17O0": ("clang++", f"-std=c++17 -g1 -O0 {SAN} -DKTL_DEBUG_ASSERT"),
    "clang20O0": ("clang++", f"-std=c++20 -g1 -O0 {SAN}"),
    "gcc20O2":  ("g++", f"-std=c++20 -g1 -O2 {SAN}"),
    "gcc20raw": ("g++", "-std=c++20 -g1 -O3 -DKTL_DEBUG_ASSERT"),          # no sanitizer: other layout, other garbage
    "clang17raw": ("clang++", "-std=c++17 -g1 -O2"),
    "tsan":     ("g++", "-std=c++17 -g1 -O1 -fsanitize=thread -DKTL_DEBUG_ASSERT"),
    "tsanclang": ("clang++", "-std=c++20 -g1 -O1 -fsanitize=thread"),
    "fuzz":     ("clang++", f"-std=c++17 -g1 -O1 {SAN} -fsanitize=fuzzer-no-link -DPBT_FUZZ -DKTL_DEBUG_ASSERT"),
}
WRAP = "malloc free calloc realloc posix_memalign aligned_alloc memalign".split()
PWRAP = "pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock".split()
ZOO = ["zoo.cpp"] + [f"zoo_{i}.cpp" for i in range(1, 7)] + ["leaf.cpp", "heap.cpp", "pbt.cpp"]
DRV = ["zoo.cpp", "leaf.cpp", "heap.cpp", "pbt.cpp"]
CONT = ["cont.cpp"] + DRV

class U:   # one executable of a check
    def __init__(s, name, src, cases, gen="", flags="", wrap=WRAP, link="", quick=("gcc17", "clang20"), thorough=("gcc17", "clang20", "clang17O0", "gcc20O2", "gcc20raw"), fuzz=True, casecpu=30, counts=((12, 2), (60, 8))):
        s.counts = counts       # generated compositions and files, quick and thorough
        s.name, s.src, s.cases, s.gen, s.flags, s.wrap, s.link, s.quick, s.thorough, s.fuzz, s.casecpu = name, src, cases, gen, flags, wrap, link, quick, thorough, fuzz, casecpu
    def sources(s, genfiles):
        """those that have to compile, and those that are left out if they do not"""
        return (s.src, list(genfiles)) if s.gen == "gen" else (list(s.src) + list(genfiles), [])
def zoo(n, cases): return [U(n, [n + ".cpp"] + ZOO, cases, gen="gen")]
def drv(n, cases): return [U(n, [n + ".cpp"] + DRV, cases)]
def cont(n, cases): return [U(n, [n + ".cpp"] + CONT, cases)]
CHECKS = {
    "C01": zoo("c01", 80000), "C02": zoo("c02", 200000), "C03": zoo("c03", 160000),
    "C04": drv("c04", 400000), "C05": zoo("c05", 300000), "C06": zoo("c06", 400000),
    "C07": drv("c07", 400000), "C08": drv("c08", 160000), "C09": drv("c09", 160000), "C10": drv("c10", 160000),
    "C11": drv("c11", 110000), "C12": drv("c12", 300000), "C13": drv("c13", 400000), "C14": drv("c14", 400000),
    "C15": [U("c15", ["c15.cpp", "ctlsched.cpp"] + DRV, 70000, wrap=WRAP + PWRAP, link="-pthread", fuzz=False),
            U("c15t", ["c15t.cpp", "pbt.cpp"], 30000, wrap=[], link="-pthread", quick=("tsan",), thorough=("tsan", "tsanclang"), fuzz=False)],
    "C16": zoo("c16", 500000), "C17": zoo("c17", 400000),
    "C18": [U("c18", ["c18.cpp"] + [f"c18_{i}.cpp" for i in range(1, 7)] + DRV, 100000, quick=("clang17O0",), thorough=("clang17O0", "gcc17", "clang20"), fuzz=False)],
    "C19": cont("c19", 160000), "C20": cont("c20", 160000), "C21": cont("c21", 300000), "C22": cont("c22", 140000),
    "C23": cont("c23", 110000), "C24": cont("c24", 140000),
    "C25": [U("c25", ["c25.cpp", "heap.cpp", "pbt.cpp"], 2000000)],
    "C26": [U(f"c26_{b}", ["c26.cpp", "heap.cpp", "pbt.cpp"], 100000, flags=f"-DBACKEND={b}") for b in range(4)],
    "C27": [],
    "C28": zoo("c28", 160000),
    "C30": [],
    "C31": [U("c31", ["c31.cpp"] + ZOO, 100000, gen="gen", flags="-DZOO_THROW")],
    "C32": cont("c32", 160000),
    "C33": [U("c33", ["c33.cpp"] + DRV, 80000)],
    "C34": [U("c34", ["c34.cpp"] + DRV, 60000, gen="c34gen", counts=((160, 8), (480, 24)))],
    "C35": cont("c35", 30000),
    "C36": [U("c36", ["c36.cpp"] + DRV, 60000, gen="c36gen", counts=((80, 8), (320, 16)))],
    "C37": [U("c37", ["c36.cpp"] + DRV, 60000, gen="c37gen", flags="-DALIASES", counts=((80, 8), (320, 16)))],
    "C29": [U("c29", ["c29.cpp", "c29_b.cpp", "heap.cpp", "pbt.cpp"], 300000, link="-pthread")],
}
DIFF_SRC = ["c27.cpp", "cont.cpp"] + ZOO
DIFF_QUICK = [("g++", "-std=c++17 -O0 -DKTL_DEBUG_ASSERT"), ("g++", "-std=c++20 -O2"), ("clang++", "-std=c++17 -O2"), ("clang++", "-std=c++20 -O0 -DKTL_DEBUG_ASSERT")]
DIFF_ALL = [(c, f"-std={s} {o}{a}") for c in ("g++", "clang++") for s in ("c++17", "c++20") for o in ("-O0", "-O2", "-O3") for a in ("", " -DKTL_DEBUG_ASSERT")]

def sh(cmd, timeout=None, env=None, stdin=None):
    e = dict(os.environ); e["LC_ALL"] = "C.UTF-8"; e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, input=stdin)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode(errors="replace") + "\n(time limit)"

def digest_tree(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".inl", ".cpp")):
                    p = os.path.join(root, f)
                    if d == H and f.endswith(".cpp"): continue
                    h.update(os.path.relpath(p, d).encode() + b"\0"); h.update(open(p, "rb").read())
    return h.hexdigest()

class CompileError(Exception): pass
class ToolError(Exception): pass

class Builder:
    def __init__(s):
        os.makedirs(BUILD, exist_ok=True)
        s.tree = digest_tree([INC, H]); s.pool = cf.ThreadPoolExecutor(NCPU); s.jobs = {}
        s.compiled = 0; s.t = 0.0
    def object(s, src, cxx, flags):
        path = src if os.path.isabs(src) else os.path.join(H, src)
        key = hashlib.sha256("\0".join([s.tree, cxx, flags, INC, open(path).read()]).encode()).hexdigest()[:24]
        if key not in s.jobs: s.jobs[key] = s.pool.submit(s.compile, path, cxx, flags, os.path.join(BUILD, f"{os.path.basename(src)[:-4]}-{key}.o"))
        return s.jobs[key]
    def compile(s, path, cxx, flags, out):
        if os.path.exists(out): os.utime(out); return out
        s.compiled += 1
        cmd = [cxx] + flags.split() + ["-w", "-fno-builtin-malloc", f"-I{INC}", f"-I{H}", "-c", path, "-o", out + f".tmp{os.getpid()}"]
        for _ in range(3):
            rc, log = sh(cmd, timeout=600)
            if rc == 0: os.replace(out + f".tmp{os.getpid()}", out); return out
            if rc > 0 and rc != 124 and "Killed" not in log and "internal compiler error" not in log and "cannot allocate" not in log.lower(): break
            time.sleep(2)
        raise CompileError(" ".join(cmd) + "\n" + log[-20000:])
    def link(s, objs, cxx, flags, wrap, extra, out):
        cmd = [cxx] + [f for f in flags.split() if f.startswith(("-fsanitize", "-O"))] + objs + [f"-Wl,--wrap={w}" for w in wrap] + extra.split() + ["-o", out]
        rc, log = sh(cmd, timeout=300)
        if rc: raise CompileError(" ".join(cmd) + "\n" + log[-20000:])
        return out
    def executable(s, name, srcs, cxx, flags, wrap, extra, optional=()):
        """optional sources are left out if they do not compile"""
        js = [s.object(x, cxx, flags) for x in srcs]; js2 = [(x, s.object(x, cxx, flags)) for x in optional]
        dropped = []; objs = [j.result() for j in js]
        for x, j in js2:
            try: objs.append(j.result())
            except CompileError as e: dropped.append(str(e)[-3000:])
        key = hashlib.sha256("\0".join(objs + [cxx, flags, extra] + list(wrap)).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, f"{name}-{key}")
        if not os.path.exists(out):
            s.link(objs, cxx, flags, wrap, extra, out + f".tmp{os.getpid()}"); os.replace(out + f".tmp{os.getpid()}", out)
        return out, dropped

def toolchain_works():
    """compiles something that does not involve KTL, with both compilers"""
    d = os.path.join(BUILD, f"probe{os.getpid()}"); os.makedirs(d, exist_ok=True)
    try:
        open(d + "/p.cpp", "w").write("#include <memory>\n#include <vector>\n#include <map>\n#include <cstdio>\nint main() { std::map<int, std::vector<int>> m; m[1].push_back(2); printf(\"%zu\\n\", m.size()); }\n")
        for cxx in ("g++", "clang++"):
            rc, log = sh([cxx, "-std=c++20", "-fsanitize=address,undefined", d + "/p.cpp", "-o", d + "/p"], timeout=120)
            if rc: return False, log
            rc, log = sh([d + "/p"], timeout=60)
            if rc: return False, log
        return True, ""
    finally: shutil.rmtree(d, ignore_errors=True)

def prune():
    """keep the build cache below 3 GB"""
    try:
        fs = sorted((os.stat(os.path.join(BUILD, f)).st_mtime, os.stat(os.path.join(BUILD, f)).st_size, os.path.join(BUILD, f)) for f in os.listdir(BUILD) if os.path.isfile(os.path.join(BUILD, f)))
    except OSError: return
    total = sum(x[1] for x in fs)
    for m, n, p in fs:
        if total < 3 << 30 or time.time() - m < 1800: break
        try: os.unlink(p); total -= n
        except OSError: pass

ENV = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0", "UBSAN_OPTIONS": "print_stacktrace=0", "TSAN_OPTIONS": "halt_on_error=1:report_signal_unsafe=0"}

class Check:
    def __init__(s, pid, tier, seed):
        s.id, s.tier, s.seed, s.b = pid, tier, seed, Builder()
        s.t0 = time.time(); s.runs = []; s.hashes = {}; s.rules = {}; s.samples = []; s.labels = {}; s.notes = []; s.violation = None; s.gens = []
        os.makedirs(REPLAY, exist_ok=True); os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        s.work = os.path.join(BUILD, f"work-{pid}-{os.getpid()}"); shutil.rmtree(s.work, ignore_errors=True); os.makedirs(s.work)
    def violate(s, message, text=None, path=None):
        if s.violation: return
        if not path:
            path = os.path.join(REPLAY, f"{s.id}-{s.tier}-{s.seed}.replay")
            open(path, "w").write(text)
        s.violation = path
        print(f"{s.id}: {message[:3000]}")
        print(f"VIOLATION property={s.id} replay={path}", flush=True)
    def gensrc(s, k, count, files=2, mod="gen"):
        gen = GENS[mod]; seed = s.seed * 1000 + k; d = os.path.join(BUILD, f"{mod}-{seed}-{count}-{hashlib.sha256(open(f'{H}/{mod}.py').read().encode()).hexdigest()[:8]}"); os.makedirs(d, exist_ok=True)
        fs = [f"{d}/zoo_gen{i}.cpp" for i in range(files)]
        if not all(os.path.exists(f) for f in fs): gen.main(seed, count, d, files)
        s.gens += [c for c in gen.compositions(seed, count) if c not in s.gens]
        return fs
    def build(s, u, cfg, genfiles=()):
        cxx, flags = CONFIGS[cfg]
        return s.b.executable(u.name, *u.sources(genfiles)[:1], cxx, (flags + " " + u.flags).strip(), u.wrap, u.link, *u.sources(genfiles)[1:])
    def prefetch(s, u, cfg, genfiles=()):
        cxx, flags = CONFIGS[cfg]
        for x in list(u.src) + list(genfiles): s.b.object(x, cxx, (flags + " " + u.flags).strip())
    def note_samples(s, unit, j):
        for x in j.get("samples", []):
            if sum(1 for y in s.samples if y["unit"] == unit) < 2: s.samples.append({"unit": unit, "case": x[:1500]})
    def take_hashes(s, unit, path):
        if os.path.exists(path):
            a = array.array("Q"); a.frombytes(open(path, "rb").read()); s.hashes.setdefault(unit, set()).update(a); os.unlink(path)
    def drive(s, exe, u, cfg, cases, seed, secs, header):
        out, hs, rp = f"{s.work}/out.json", f"{s.work}/hashes", f"{s.work}/replay"
        for f in (out, hs, rp):
            if os.path.exists(f): os.unlink(f)
        workers = max(2, NCPU)
        cmd = [exe, "--seed", str(seed), "--cases", str(cases), "--workers", str(workers), "--time", str(secs), "--shrink-time", "40", "--case-cpu", str(u.casecpu), "--out", out, "--hashes", hs, "--replay-out", rp]
        rc, log = sh(cmd, timeout=secs * 2 + 200, env=ENV)
        if not os.path.exists(out): return None, log, rc
        j = json.load(open(out)); j["log"] = log
        s.take_hashes(u.name, hs); s.note_samples(u.name, j)
        s.rules.update({f"{u.name}/{k}": v for k, v in j["rules"].items()})
        for k, v in j["labels"].items(): s.labels[k] = s.labels.get(k, 0) + v
        s.runs.append({"unit": u.name, "config": cfg, "flags": " ".join(CONFIGS[cfg]) + " " + u.flags, "seed": seed, "cases": j["cases"], "nontrivial": j["nontrivial"], "seconds": j["run_s"], "cut_by_time": j["budget_cut"]})
        if j["status"] == 1 and os.path.exists(rp):
            dst = os.path.join(REPLAY, f"{s.id}-{s.tier}-{s.seed}-{u.name}-{cfg}.replay")
            open(dst, "w").write(header + open(rp).read())
            _, log2 = sh([exe, "--replay", dst], timeout=200, env=ENV)
            ls = log2.splitlines(); k = next((i for i, l in enumerate(ls) if "ERROR: " in l or "runtime error:" in l or "WARNING: ThreadSanitizer" in l), None)
            extra = "" if k is None else "\n  " + "\n  ".join(ls[k:k + 12])
            s.violate(f"[{u.name}/{j['subprop']}, {cfg}] {j['message']}\n  minimal case: {j['trace']}{extra}", path=dst)
        return j, log, rc
    def unit(s, u, cfg, cases, seed, secs, genfiles=()):
        exe, dropped = s.build(u, cfg, genfiles)
        for d in dropped: s.notes.append("a generated composition did not compile and was left out: " + d[-800:])
        header = f"check {s.id}\nunit {u.name}\nconfig {cfg}\nseed {s.seed}\ngen {','.join(os.path.relpath(g, BUILD) for g in genfiles) or '-'}\n"
        if u.name == "c15t" and not s.tsan_works(cfg): s.notes.append(f"ThreadSanitizer cannot run here ({cfg}): its part was skipped"); return
        for attempt in (1, 2):
            j, log, rc = s.drive(exe, u, cfg, cases, seed, secs, header)
            if s.violation or (j and j["status"] == 0): return
            why = (j or {}).get("message") or log[-500:]
            if attempt == 1: s.notes.append(f"{u.name}/{cfg}: a run gave no verdict ({why}); repeated"); continue
            s.notes.append(f"{u.name}/{cfg}: the repetition gave none either ({why})")
            if j and "not reproducible" in why:      # fails every time, but never from the case alone
                s.violate(f"[{u.name}, {cfg}] two campaigns with the same seed failed, no single case reproduces it: {why}", text=header + f"campaign --seed {seed} --cases {cases}\nmessage {why}\n")
    def tsan_works(s, cfg):
        src = f"{s.work}/t.cpp"; open(src, "w").write("#include <thread>\n#include <mutex>\nint x; std::mutex m; int main() { std::thread a([] { std::lock_guard<std::mutex> l(m); x++; }); { std::lock_guard<std::mutex> l(m); x++; } a.join(); return x - 2; }\n")
        cxx, flags = CONFIGS[cfg]
        rc, _ = sh([cxx] + flags.split() + [src, "-pthread", "-o", f"{s.work}/t"], timeout=120)
        return rc == 0 and sh([f"{s.work}/t"], timeout=60, env=ENV)[0] == 0
    def fuzz(s, u, secs, genfiles=()):
        """coverage-guided campaign over the same case space"""
        src, optional = u.sources(genfiles); exe, _ = s.b.executable(u.name + "-fuzz", src, *CONFIGS["fuzz"][:1], (CONFIGS["fuzz"][1] + " " + u.flags).strip(), u.wrap, u.link + " -fsanitize=fuzzer", optional)
        d = f"{s.work}/fuzz-{u.name}"; os.makedirs(d + "/corpus")
        procs = [subprocess.Popen([exe, d + "/corpus", f"-max_total_time={secs}", "-max_len=4096", "-len_control=20", "-reload=5", f"-seed={s.seed * 100 + i + 1}", f"-artifact_prefix={d}/a{i}-", "-timeout=60", "-rss_limit_mb=3000", "-print_final_stats=1", "-detect_leaks=0"],
                                  stdout=subprocess.DEVNULL, stderr=open(f"{d}/log{i}", "wb"), env={**os.environ, **ENV}) for i in range(NCPU)]
        end = time.time() + secs + 120
        for p in procs:
            try: p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired: p.kill(); p.wait()
        execs = 0; cov = 0
        for i in range(NCPU):
            for line in open(f"{d}/log{i}", errors="replace"):
                if line.startswith("stat::number_of_executed_units:"): execs += int(line.split()[-1])
                if " cov: " in line:
                    try: cov = max(cov, int(line.split(" cov: ")[1].split()[0]))
                    except ValueError: pass
        s.runs.append({"unit": u.name, "config": "libFuzzer", "flags": " ".join(CONFIGS["fuzz"]), "cases": execs, "seconds": secs, "edges_covered": cov, "corpus": len(os.listdir(d + "/corpus"))})
        arts = [f for f in sorted(os.listdir(d)) if f.startswith("a") and ("crash-" in f or "timeout-" in f)]
        if arts:
            cfg = "gcc17" if "gcc17" in u.thorough else u.thorough[0]
            plain, _ = s.build(u, cfg, genfiles)
            for a in arts:
                dst = os.path.join(REPLAY, f"{s.id}-{s.tier}-{s.seed}-{u.name}-fuzz.replay")
                rc, log = sh([plain, "--bytes", f"{d}/{a}", "--replay-out", dst], timeout=200, env=ENV)
                if rc == 1:
                    body = open(dst).read(); open(dst, "w").write(f"check {s.id}\nunit {u.name}\nconfig {cfg}\nseed {s.seed}\ngen {','.join(os.path.relpath(g, BUILD) for g in genfiles) or '-'}\n" + body)
                    rc2, log2 = sh([plain, "--replay", dst], timeout=200, env=ENV)
                    s.violate(f"[{u.name}, libFuzzer] {log2[-3000:]}", path=dst); return
                s.notes.append(f"a libFuzzer artifact did not reproduce: {a}")

    # ---- C27 ------------------------------------------------------------------------------------------
    def differential(s):
        quick = s.tier == "quick"; cfgs = DIFF_QUICK if quick else DIFF_ALL
        gens = s.gensrc(0, 12 if quick else 40)
        batch = [cfgs] if quick else [cfgs[:1] + cfgs[i:i + 6] for i in range(1, len(cfgs), 6)]
        cases = 250000 if quick else 3000000; exes = {}
        rounds = [(b, s.seed + 77 * r) for r in range(1 if quick else 3) for b in batch]
        for c in cfgs:
            for x in DIFF_SRC + gens: s.b.object(x, *c)
        for group, seed in rounds:
            if not quick and time.time() - s.t0 > 700: s.notes.append("time budget: not every round was run"); break
            res = {}; base = group[0]
            for c in group:
                exe, dropped = s.b.executable("c27", DIFF_SRC, *c, WRAP, "", gens)
                if dropped: s.notes.append("generated compositions left out: " + dropped[0][-500:]); exe, _ = s.b.executable("c27", DIFF_SRC, *c, WRAP, "", ())
                exes[c] = exe
            if len({os.path.basename(e) and c for c, e in exes.items()}) and s.notes and any("left out" in n for n in s.notes):
                for c in group: exes[c], _ = s.b.executable("c27", DIFF_SRC, *c, WRAP, "", ())
            for c in group:
                out, hs = f"{s.work}/o.json", f"{s.work}/h"
                for f in (out, hs):
                    if os.path.exists(f): os.unlink(f)
                t = time.time()
                rc, log = sh([exes[c], "--digest", "--seed", str(seed), "--cases", str(cases), "--workers", str(NCPU), "--time", "60", "--out", out, "--hashes", hs], timeout=400, env=ENV)
                if not os.path.exists(out): s.notes.append(f"{c}: no output ({rc}) {log[-300:]}"); continue
                j = json.load(open(out)); s.note_samples("c27", j); s.take_hashes("c27", hs); s.rules.update({f"c27/{k}": v for k, v in j["rules"].items()})
                res[c] = {int(a): (int(o), d) for a, o, d in (l.split() for l in log.splitlines() if l.count(" ") == 2)}
                s.runs.append({"unit": "c27", "config": " ".join(c), "seed": seed, "cases": j["cases"], "nontrivial": j["nontrivial"], "seconds": round(time.time() - t, 2), "failed_or_died": sum(1 for o, _ in res[c].values() if o)})
            if base not in res: continue
            for c in res:
                traps = [i for i, (o, _) in sorted(res[c].items()) if o == 1000 + 5 - 1]
                for i in traps[:3]:
                    if s.compare(exes[c], exes[c], c, c, seed, i, gens, trap=True): return
                if c == base: continue
                diff = [i for i in sorted(res[c]) if i in res[base] and res[c][i] != res[base][i]]
                s.pairs = getattr(s, "pairs", 0) + len(res[c])
                for i in diff[:5]:
                    if s.compare(exes[base], exes[c], base, c, seed, i, gens): return
    def compare(s, ea, eb, ca, cb, seed, i, gens, trap=False):
        """confirm and shrink a case on which two builds differ (or one hits a debug assertion)"""
        def serve(e): return subprocess.Popen([e, "--serve", "--seed", str(seed), "--case-cpu", "20"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env={**os.environ, **ENV}, text=True, errors="replace")
        pa, pb = serve(ea), serve(eb)
        def ask(p, req):
            p.stdin.write(req + "\n"); p.stdin.flush(); f = p.stdout.readline().split(); msg = p.stdout.readline().strip(); tr = p.stdout.readline().strip()
            n = int(f[4]); m = int(f[5 + n]); sp = f[6 + n:6 + n + 2 * m]
            return {"o": f[0], "d": f[1], "prop": int(f[2]), "size": int(f[3]), "c": [int(x) for x in f[5:5 + n]], "sp": [(int(sp[2 * k]), int(sp[2 * k + 1])) for k in range(m)], "msg": msg, "tr": tr}
        def key(x): return (x["o"], x["d"]) if x["o"] == "0" else (x["o"], "".join(ch for ch in x["msg"] if ch not in "0123456789abcdefx"))
        def bad(c, prop, size):
            req = f"r {prop} {size} {len(c)} " + " ".join(map(str, c)); a = ask(pa, req)
            if trap: return a if "debug assertion" in a["msg"] else None
            b = ask(pb, req); return a if key(a) != key(b) else None
        try:
            first = ask(pa, f"c {i}"); prop, size = first["prop"], first["size"]
            # the generated choices are those of the first build; both run exactly these
            cur = bad(first["c"], prop, size)
            if not cur and not trap:
                fb = ask(pb, f"c {i}")
                if key(fb) == key(first): s.notes.append(f"case {i}: {ca} and {cb} differed once, not when repeated"); return False
                cur = bad(fb["c"], prop, size); first = fb
                if not cur: s.notes.append(f"case {i}: {ca} and {cb} differ, but not on the recorded choices"); return False
            if not cur: s.notes.append(f"case {i}: assertion in {ca} not reproduced"); return False
            c = first["c"]; end = time.time() + 40; progress = True
            while progress and time.time() < end:
                progress = False
                x = bad(c, prop, size); sp = sorted(set((a, min(b, len(c))) for a, b in x["sp"] if a < min(b, len(c)))) if x else []
                for a, b in reversed(sp):
                    if time.time() > end: break
                    n = c[:a] + c[b:]
                    if len(n) < len(c) and bad(n, prop, size): c = n; progress = True
                w = max(1, len(c) // 2)
                while w >= 1 and time.time() < end:
                    k = 0
                    while k + w <= len(c) and time.time() < end:
                        n = c[:k] + c[k + w:]
                        if bad(n, prop, size): c = n; progress = True
                        else: k += w
                    w //= 2
                for k in range(len(c)):
                    if time.time() > end: break
                    for v in (0, c[k] // 2, c[k] - 1):
                        if 0 <= v < c[k] and bad(c[:k] + [v] + c[k + 1:], prop, size): c = c[:k] + [v] + c[k + 1:]; progress = True; break
            req = f"r {prop} {size} {len(c)} " + " ".join(map(str, c)); a, b = ask(pa, req), ask(pb, req)
            what = "a debug assertion fires" if trap else "two builds give different results"
            pos = next((k for k in range(min(len(a["tr"]), len(b["tr"]))) if a["tr"][k] != b["tr"][k]), min(len(a["tr"]), len(b["tr"])))
            text = (f"check {s.id}\nunit c27\nseed {s.seed}\ngen {','.join(os.path.relpath(g, BUILD) for g in gens) or '-'}\nbuild {' '.join(ca)}\nbuild {' '.join(cb)}\n"
                    f"first {a['o']} {a['msg']} ... {a['tr'][max(0, pos - 200):pos + 200]}\nsecond {b['o']} {b['msg']} ... {b['tr'][max(0, pos - 200):pos + 200]}\ntrace {a['tr'][:6000]}\nrequest {req}\n")
            s.violate(f"{what}: {' '.join(ca)} | {' '.join(cb)}\n  case: {a['tr'][:1500]}\n  first:  {a['msg']} ...{a['tr'][max(0, pos - 100):pos + 100]}\n  second: {b['msg']} ...{b['tr'][max(0, pos - 100):pos + 100]}", text=text)
            return True
        except (IndexError, ValueError, BrokenPipeError) as e:
            s.notes.append(f"case {i}: comparison failed ({e})"); return False
        finally:
            for p in (pa, pb): p.kill(); p.wait()

    # ---- C30 ------------------------------------------------------------------------------------------
    def headers(s):
        quick = s.tier == "quick"; r = random.Random(s.seed); n = 0; t0 = time.time(); budget = 110 if quick else 700
        singles = [c for c in c30.singles() if not quick or c["std"] != "c++23"]
        cases = singles + [c30.generate(r) for _ in range(160 if quick else 6000)]
        s.rules["c30"] = "a program is non-trivial if it includes at least two different headers and uses one of them or has several translation units"
        done = 0; nt = set(); failed = None
        def one(k):
            if failed or time.time() - t0 > budget: return None
            try: return k, c30.evaluate(cases[k], INC, s.work, f"t{k}")
            except c30.NoVerdict as e: s.notes.append(f"no verdict: {e}"[:300]); return None
        for res in s.b.pool.map(one, range(len(cases))):
            if not res: continue
            k, why = res; done += 1
            if c30.nontrivial(cases[k]): nt.add(int.from_bytes(hashlib.sha256(c30.show(cases[k]).encode()).digest()[:8], "little"))
            if why and not failed: failed = (k, why)
        s.hashes["c30"] = nt
        for c in cases[len(singles):len(singles) + 6]: s.samples.append({"unit": "c30", "case": c30.show(c)[:1500]})
        for name, f in (("programs of one header", lambda c: sum(len(t["inc"]) for t in c["tus"]) == 1), ("several translation units", lambda c: len(c["tus"]) > 1), ("signatures through forward headers", lambda c: any(t["fwd"] for t in c["tus"])), ("min and max are macros", lambda c: any("windows" in t["pre"] for t in c["tus"]))):
            s.labels[name] = sum(1 for c in cases[:done] if f(c))
        s.runs.append({"unit": "c30", "config": "g++ and clang++, C++17 to C++23", "seed": s.seed, "cases": done, "nontrivial": len(nt), "seconds": round(time.time() - t0, 1), "cut_by_time": done < len(cases)})
        if failed:
            k, why = failed
            ok, log = toolchain_works()
            if not ok: raise ToolError(log)
            def bad(c):
                try: return c30.evaluate(c, INC, s.work, "shrink")
                except c30.NoVerdict: return None
            again = bad(cases[k])
            if not again: s.notes.append("a failure did not reproduce: " + why[:300]); return
            c = c30.shrink(cases[k], bad, time.time() + 60)
            s.violate(f"{bad(c)}\n  minimal program: {c30.show(c)}", text=f"check {s.id}\nunit c30\nseed {s.seed}\ncase {json.dumps(c)}\n")

    # ---- whole check ----------------------------------------------------------------------------------
    def explore(s):
        us = CHECKS[s.id]; quick = s.tier == "quick"
        if s.id == "C27": return s.differential()
        if s.id == "C30": return s.headers()
        plan = []
        for u in us:
            for k, cfg in enumerate(u.quick if quick else u.thorough):
                plan.append((u, cfg, s.seed * 10 + k, s.gensrc(k, *u.counts[not quick], u.gen) if u.gen else []))
        for u, cfg, seed, g in plan: s.prefetch(u, cfg, g)
        if quick:
            for u, cfg, seed, g in plan:
                if s.violation: return
                s.unit(u, cfg, u.cases, seed, 100, g)
            return
        per = max(20, 420 // len(plan)); fz = [u for u in us if u.fuzz]
        for u, cfg, seed, g in plan:
            if s.violation: return
            s.unit(u, cfg, u.cases * 200, seed, per, g)
        for u in fz:
            if s.violation: return
            s.fuzz(u, max(30, 180 // len(fz)), s.gensrc(9, 20, mod=u.gen) if u.gen else [])
    def run(s):
        try:
            try: s.explore()
            except CompileError as e:
                ok, log = toolchain_works()
                if not ok: raise ToolError(log)
                s.violate("the harness, which uses only the library's documented interface, does not compile or link against this tree:\n" + str(e)[-2500:], text=f"check {s.id}\nbuild failure\n{e}\n")
        finally:
            s.b.pool.shutdown(wait=True, cancel_futures=True)
            shutil.rmtree(s.work, ignore_errors=True)
            prune()
        for line in known_findings(s.id): print(f"KNOWN-FINDING: property={s.id} {line}")
        ev = sum(r["cases"] for r in s.runs); dn = sum(len(v) for v in s.hashes.values())
        rule = "Cases are generated as choice sequences (random structured histories, see harness/). " + "; ".join(f"{k}: {v}" for k, v in sorted(s.rules.items()))
        cov = {"evaluations": ev, "distinct_nontrivial": dn, "rule": rule, "samples": s.samples[:6], "runs": s.runs, "labels": s.labels, "objects_compiled": s.b.compiled}
        if s.gens: cov["generated_compositions"] = s.gens[:80]
        if getattr(s, "pairs", 0): cov["compared_pairs"] = s.pairs
        if s.notes: cov["notes"] = s.notes[:20]
        json.dump({"property": s.id, "tier": s.tier, "seed": s.seed, "level": "exploration", "coverage": cov, "assumptions": ASSUME.get(s.id, []) + ASSUME["*"], "wall_s": round(time.time() - s.t0, 2), "violations": 1 if s.violation else 0},
                  open(os.path.join(HERE, "evidence", s.id + ".json"), "w"), indent=1)
        print(f"{s.id} {s.tier}: {ev} cases, {dn} distinct non-trivial, {len(s.runs)} runs, {time.time() - s.t0:.1f} s" + (f"; {len(s.notes)} notes" if s.notes else ""))
        for n in s.notes[:5]: print("  note: " + n[:400])
        return 1 if s.violation else 0

ASSUME = {"*": ["the harness's models and test doubles (harness/leaf.*, heap.*, cont.*) are right", "gcc 13 / clang 18 and their sanitizers on x86-64 Linux"],
          "C15": ["scheduling points are atomic operations (shared<A, Atomic> with an instrumented Atomic), lock operations and calls into the underlying allocator; weaker memory orders and the real std::atomic are covered by the ThreadSanitizer part only"]}

def known_findings(pid):
    p = os.path.join(HERE, "known_findings.txt"); out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f"open: property={pid} "): out.append(l.split(" ", 2)[2].strip())
    return out

def replay(path):
    f = {}
    text = open(path).read()
    for l in text.splitlines():
        k, _, v = l.partition(" "); f.setdefault(k, []).append(v)
    pid = f["check"][0]; c = Check(pid, "quick", int(f.get("seed", ["1"])[0]))
    try:
        if "build" in f and f["build"][0] == "failure":
            c.explore(); return 1 if c.violation else 0
        if f["unit"][0] == "c30":
            case = json.loads(f["case"][0]); why = c30.evaluate(case, INC, c.work, "replay")
            for k in range(len(case["tus"])): print(f"--- unit {k}\n{c30.source(case, k)}")
            print(("FAILED: " + why) if why else "passed"); return 1 if why else 0
        gens = []
        if f.get("gen", ["-"])[0] != "-":
            for g in f["gen"][0].split(","):
                p = os.path.join(BUILD, g)
                if not os.path.exists(p):
                    mod, sd, cnt, _ = os.path.dirname(g).split("-"); os.makedirs(os.path.dirname(p), exist_ok=True)
                    GENS[mod].main(int(sd), int(cnt), os.path.dirname(p), f["gen"][0].count(",") + 1)
                gens.append(p)
        if f["unit"][0] == "c27":
            outs = []
            for b in f["build"]:
                cxx, _, flags = b.partition(" "); exe, _ = c.b.executable("c27", DIFF_SRC, cxx, flags, WRAP, "", gens)
                rc, log = sh([exe, "--serve"], env=ENV, stdin=(f["request"][0] + "\n").encode(), timeout=200); ls = log.splitlines()
                print(b, "->", ls[0].split()[:2], ls[1], "\n   ", ls[2][:3000]); outs.append((ls[0].split()[:2], ls[1]))
            differ = outs[0] != outs[1] or "debug assertion" in outs[0][1]
            print("FAILED" if differ else "passed"); return 1 if differ else 0
        u = next(u for u in CHECKS[pid] if u.name == f["unit"][0]); exe, _ = c.build(u, f["config"][0], gens)
        args = f["campaign"][0].split() if "campaign" in f else ["--replay", path]
        rc, log = sh([exe] + args, env=ENV, timeout=900); print(log[-6000:]); return rc
    finally:
        c.b.pool.shutdown(wait=True); shutil.rmtree(c.work, ignore_errors=True)

def main():
    a = argparse.ArgumentParser(); a.add_argument("id", nargs="?"); a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1"))); a.add_argument("--replay")
    x = a.parse_args()
    if x.replay: sys.exit(replay(x.replay))
    if x.id not in CHECKS: a.error("no such check")
    try: sys.exit(Check(x.id, x.tier, x.seed).run())
    except ToolError as e:
        print("the toolchain does not work here: " + str(e)[-2000:]); sys.exit(2)

if __name__ == "__main__": main()
