#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <optional>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt
{
    static Shared* mapShared()
    {
        void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); exit(3); }
        return static_cast<Shared*>(p);
    }
    Shared* g = nullptr;
    bool g_fuzz = false;
    static bool g_isNontrivial;
    static uint64_t g_hash;

    static inline uint64_t mix(uint64_t z)
    {
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31);
    }
    uint64_t Src::rnd() { st += 0x9e3779b97f4a7c15ULL; return mix(st); }

    uint64_t Src::draw(uint64_t bound)
    {
        uint64_t v = 0;
        if (mode == Gen) v = rnd();
        else if (mode == Replay) v = pos < in->size() ? (*in)[pos++] : 0;
        else if (bound != 1)
        {
            size_t k = bound == 0 || bound > 65536 ? 8 : bound > 256 ? 2 : 1;
            for (size_t i = 0; i < k && pos < n; i++) v |= uint64_t(d[pos++]) << (8 * i);
        }
        if (bound) v %= bound;
        if (g->nChoices < Shared::MAXC) g->choices[g->nChoices++] = v;
        g_hash = mix(g_hash ^ (v + 0x1234567));
        return v;
    }

    void log(const char* fmt, ...)
    {
        if (g->nText + 400 > Shared::MAXT) return;
        va_list ap; va_start(ap, fmt);
        int k = vsnprintf(g->text + g->nText, 380, fmt, ap);
        va_end(ap);
        if (k > 379) k = 379;
        g->nText += k;
        g->text[g->nText++] = ';'; g->text[g->nText++] = ' '; g->text[g->nText] = 0;
    }
    void label(const char* name)
    {
        if (g_fuzz) return;
        for (uint64_t i = 0; i < g->nLabels; i++) if (!strcmp(g->labels[i].name, name)) { g->labels[i].count++; return; }
        if (g->nLabels < Shared::MAXL) { strncpy(g->labels[g->nLabels].name, name, 71); g->labels[g->nLabels++].count = 1; }
    }
    void nontrivial() { g_isNontrivial = true; }
    void fail(const char* fmt, ...)
    {
        char buf[4000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        throw Fail{buf};
    }
    void observe(uint64_t v) { g->digest = mix(g->digest * 0x100000001b3ULL ^ v); }

    static unsigned nProps() { unsigned n = 0; while (props[n].name) n++; return n; }
    static int only = -1;

    // Runs one case on the given source; returns true if it passed.
    static bool runOne(unsigned prop, Src& s)
    {
        g->nChoices = g->nSpans = g->nText = 0; g->text[0] = 0; g->digest = 0x1505;
        g_isNontrivial = false; g_hash = prop + 1;
        // the sub-property is part of the case
        try { reset(); props[prop].fn(s); reset(); }
        catch (const Fail& f) { g->failed = 1; strncpy(g->failMsg, f.msg.c_str(), sizeof g->failMsg - 1); return false; }
        catch (const std::exception& e) { g->failed = 1; snprintf(g->failMsg, sizeof g->failMsg, "unexpected C++ exception: %s", e.what()); return false; }
        catch (...) { g->failed = 1; snprintf(g->failMsg, sizeof g->failMsg, "unexpected exception of unknown type"); return false; }
        g->casesDone++;
        if (g_isNontrivial)
        {
            g->nontrivial++;
            if (!g_fuzz && g->nHashes < Shared::MAXH) g->hashes[g->nHashes++] = g_hash;
            if (!g_fuzz && g->nSamples < 3 && g->nText > 60 && g->nText < 1900)
                snprintf(g->samples[g->nSamples++], 2048, "[%s] %s", props[prop].name, g->text);
        }
        return true;
    }

    // Case i of a campaign with this seed: which sub-property, which size, which generator seed.
    static unsigned caseProp(uint64_t seed, uint64_t i)
    {
        if (only >= 0) return only;
        unsigned sum = 0, n = nProps(); for (unsigned k = 0; k < n; k++) sum += props[k].weight;
        uint64_t r = mix(seed * 0x9e3779b97f4a7c15ULL + i * 7919 + 3) % sum;
        for (unsigned k = 0; k < n; k++) { if (r < props[k].weight) return k; r -= props[k].weight; }
        return 0;
    }
    static unsigned caseSize(uint64_t i) { return 4 + unsigned(i % 61); }
    static Src caseSrc(uint64_t seed, uint64_t i) { return Src(mix(seed ^ mix(i + 0x51ed27)), caseSize(i)); }

    static unsigned g_caseCpuSec = 30;
    static void armTimer()
    {
        itimerval tv{}; tv.it_value.tv_sec = g_caseCpuSec;
        setitimer(ITIMER_PROF, &tv, nullptr);      // CPU time, not wall clock
    }
    static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

    // A process that is blocked for good uses no CPU, so the CPU limit never ends it: a process is taken to hang when all of its threads
    // were found sleeping (waiting, so neither running nor runnable nor in I/O) in every sample over a while, and not one of them was scheduled in between.
    struct Watch
    {
        pid_t pid = 0; uint64_t switches = 0; double since = 0;
        bool hung(pid_t p, double secs)
        {
            char name[64]; snprintf(name, sizeof name, "/proc/%d/task", int(p));
            uint64_t sum = 0; bool asleep = true; unsigned n = 0;
            DIR* d = opendir(name); if (!d) return false;
            while (dirent* e = readdir(d))
            {
                if (e->d_name[0] == '.') continue;
                char file[400]; snprintf(file, sizeof file, "%s/%s/status", name, e->d_name);
                FILE* f = fopen(file, "r"); if (!f) { asleep = false; continue; }
                char line[256], st = 0; unsigned long long v; unsigned got = 0;
                while (fgets(line, sizeof line, f))
                {
                    if (sscanf(line, "State: %c", &st) == 1) continue;
                    if (sscanf(line, "voluntary_ctxt_switches: %llu", &v) == 1 || sscanf(line, "nonvoluntary_ctxt_switches: %llu", &v) == 1) { sum += v; got++; }
                }
                fclose(f); n++;
                if (st != 'S' || got != 2) asleep = false;
            }
            closedir(d);
            if (pid != p || !asleep || !n || sum != switches) { pid = p; switches = sum; since = now(); return false; }
            return now() - since > secs;
        }
    };
    constexpr int HungSignal = SIGUSR2;      // what ends such a process
    struct Ticks     // wakes waitpid (with EINTR) twice a second
    {
        static void nothing(int) {}
        Ticks()
        {
            struct sigaction sa{}; sa.sa_handler = nothing; sigaction(SIGALRM, &sa, nullptr);
            itimerval tv{}; tv.it_value.tv_usec = tv.it_interval.tv_usec = 500000; setitimer(ITIMER_REAL, &tv, nullptr);
        }
        ~Ticks() { itimerval tv{}; setitimer(ITIMER_REAL, &tv, nullptr); }
    };
    // waitpid for one (or any, only == -1) of these children, ending those that hang
    static pid_t waitWatched(pid_t only, const std::vector<pid_t>& pids, std::vector<Watch>& watch, int* st, double secs)
    {
        watch.resize(pids.size());
        for (;;)
        {
            pid_t p = waitpid(only, st, 0);
            if (p >= 0 || errno != EINTR) return p;
            for (size_t i = 0; i < pids.size(); i++) if (pids[i] && watch[i].hung(pids[i], secs)) kill(pids[i], HungSignal);
        }
    }

    static void worker(uint64_t seed, uint64_t first, uint64_t step, uint64_t cases, double deadline)
    {
        armTimer();
        for (uint64_t i = first; i < cases; i += step)
        {
            g->caseIndex = i;
            if (((i / step) & 31) == 0) { armTimer(); if (now() > deadline) { g->finished = 2; _exit(0); } }
            Src s = caseSrc(seed, i);
            if (!runOne(caseProp(seed, i), s)) _exit(77);
        }
        g->finished = 1;
        _exit(0);
    }

    // Runs f in a child; returns 0 = passed, 1 = failed (message in msg), 2 = inconclusive
    template<typename F> static int inChild(Shared* sh, F f, std::string& msg, bool quiet = true)
    {
        sh->failed = 0; sh->failMsg[0] = 0;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            g = sh;
            if (quiet) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); }
            armTimer();
            bool ok = f();
            _exit(ok ? 0 : 77);
        }
        int st = 0;
        { Ticks t; std::vector<Watch> w; waitWatched(pid, {pid}, w, &st, 4); }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { msg = "killed"; return 2; }
        if (sh->failed) msg = sh->failMsg;
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) msg = "no progress: CPU time limit of one case exceeded";
        else if (WIFSIGNALED(st) && WTERMSIG(st) == HungSignal) msg = "no progress: every thread waits for ever";
        else if (WIFSIGNALED(st)) msg = std::string("crashed with signal ") + strsignal(WTERMSIG(st)) + (WTERMSIG(st) == SIGTRAP ? " (library debug assertion)" : "");
        else msg = "sanitizer or library aborted the process (exit " + std::to_string(WEXITSTATUS(st)) + ")";
        return 1;
    }

    struct Case { unsigned prop; unsigned size; std::vector<uint64_t> c; };

    static int runCase(Shared* sh, const Case& k, std::string& msg, bool quiet = true)
    {
        return inChild(sh, [&] { Src s(k.c, k.size); return runOne(k.prop, s); }, msg, quiet);
    }

    static void shrink(Shared* sh, Case& k, std::string& msg, double deadline, unsigned& tried)
    {
        auto attempt = [&](std::vector<uint64_t> c)
        {
            if (now() > deadline) return false;
            // "smaller": shorter, or lexicographically lower at equal length
            if (c.size() > k.c.size() || (c.size() == k.c.size() && !(c < k.c))) return false;
            tried++;
            Case n{k.prop, k.size, std::move(c)}; std::string m;
            if (runCase(sh, n, m) != 1) return false;
            // what was really drawn may be shorter than the candidate
            if (sh->nChoices < n.c.size()) n.c.assign(sh->choices, sh->choices + sh->nChoices);
            k = n; msg = m; return true;
        };
        bool progress = true;
        while (progress && now() < deadline)
        {
            progress = false;
            // drop trailing choices
            while (!k.c.empty() && k.c.back() == 0 && attempt(std::vector<uint64_t>(k.c.begin(), k.c.end() - 1))) progress = true;
            for (size_t cut = k.c.size() / 2; cut >= 1; cut /= 2)
                if (k.c.size() > cut && attempt(std::vector<uint64_t>(k.c.begin(), k.c.end() - cut))) { progress = true; }
            // delete runs of spans, then single spans
            std::string m; runCase(sh, k, m);
            std::vector<std::pair<uint32_t, uint32_t>> sp;
            for (uint64_t i = 0; i < sh->nSpans; i++)
                sp.push_back({sh->spans[i].a, std::min<uint32_t>(sh->spans[i].b, (uint32_t)k.c.size())});
            for (size_t run = std::max<size_t>(1, sp.size() / 2); run >= 1; run /= 2)
            {
                for (size_t i = 0; i + run <= sp.size();)
                {
                    uint32_t a = sp[i].first, b = sp[i + run - 1].second;
                    for (size_t j = i; j < i + run; j++) b = std::max(b, sp[j].second);
                    if (a >= b || b > k.c.size()) { i++; continue; }
                    std::vector<uint64_t> c(k.c.begin(), k.c.begin() + a);
                    c.insert(c.end(), k.c.begin() + b, k.c.end());
                    if (attempt(c))
                    {
                        progress = true;
                        std::string m2; runCase(sh, k, m2); sp.clear();
                        for (uint64_t q = 0; q < sh->nSpans; q++)
                            sp.push_back({sh->spans[q].a, std::min<uint32_t>(sh->spans[q].b, (uint32_t)k.c.size())});
                    }
                    else i += run;
                    if (now() > deadline) return;
                }
                if (run == 1) break;
            }
            // delete chunks of raw choices
            for (size_t w : {8, 4, 2, 1})
                for (size_t i = 0; i + w <= k.c.size();)
                {
                    std::vector<uint64_t> c(k.c.begin(), k.c.begin() + i);
                    c.insert(c.end(), k.c.begin() + i + w, k.c.end());
                    if (attempt(c)) progress = true; else i++;
                    if (now() > deadline) return;
                }
            // lower values
            for (size_t i = 0; i < k.c.size(); i++)
            {
                if (k.c[i] == 0) continue;
                auto with = [&](uint64_t v) { auto c = k.c; c[i] = v; return c; };
                if (attempt(with(0))) { progress = true; continue; }
                uint64_t lo = 0;
                while (i < k.c.size() && k.c[i] - lo > 1)
                {
                    uint64_t mid = lo + (k.c[i] - lo) / 2;
                    if (attempt(with(mid))) progress = true; else lo = mid;
                    if (now() > deadline) return;
                }
                if (i < k.c.size() && k.c[i] > 0 && attempt(with(k.c[i] - 1))) progress = true;
            }
        }
    }

    static std::string jstr(const std::string& s)
    {
        std::string o = "\"";
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (c == '\n') o += "\\n";
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += c;
        }
        return o + "\"";
    }

    static std::vector<uint64_t> readChoices(const char* path, unsigned& prop, unsigned& size, std::string& batch)
    {
        FILE* f = fopen(path, "r"); if (!f) { perror(path); exit(3); }
        char word[64], name[128] = ""; std::vector<uint64_t> c; prop = 0; size = 16;
        while (fscanf(f, "%63s", word) == 1)
        {
            if (!strcmp(word, "prop")) { if (fscanf(f, "%127s", name) != 1) exit(3); bool found = false; for (unsigned i = 0; i < nProps(); i++) if (!strcmp(props[i].name, name)) { prop = i; found = true; } if (!found) { fprintf(stderr, "no such sub-property %s\n", name); exit(3); } }
            else if (!strcmp(word, "size")) { if (fscanf(f, "%u", &size) != 1) exit(3); }
            else if (!strcmp(word, "batch")) { char b[128]; if (fscanf(f, "%127s", b) != 1) exit(3); batch = b; }
            else if (!strcmp(word, "choices")) { unsigned long long v; while (fscanf(f, "%llu", &v) == 1) c.push_back(v); }
            else { char line[8192]; if (!fgets(line, sizeof line, f)) break; }
        }
        fclose(f);
        return c;
    }

    static int mainImpl(int argc, char** argv)
    {
        uint64_t seed = 1, cases = 1000; unsigned workers = 1; double budget = 60, shrinkSec = 40;
        const char* out = nullptr; const char* replay = nullptr; const char* replayOut = nullptr; const char* bytes = nullptr; const char* hashOut = nullptr; bool digest = false, serve = false;
        for (int i = 1; i < argc; i++)
        {
            std::string a = argv[i];
            auto val = [&] { return argv[++i]; };
            if (a == "--seed") seed = strtoull(val(), 0, 10);
            else if (a == "--cases") cases = strtoull(val(), 0, 10);
            else if (a == "--workers") workers = atoi(val());
            else if (a == "--time") budget = atof(val());
            else if (a == "--shrink-time") shrinkSec = atof(val());
            else if (a == "--case-cpu") g_caseCpuSec = atoi(val());
            else if (a == "--out") out = val();
            else if (a == "--replay") replay = val();
            else if (a == "--replay-out") replayOut = val();
            else if (a == "--bytes") bytes = val();
            else if (a == "--digest") digest = true;
            else if (a == "--serve") serve = true;
            else if (a == "--hashes") hashOut = val();
            else if (a == "--only") { std::string n = val(); for (unsigned k = 0; k < nProps(); k++) if (n == props[k].name) only = k; if (only < 0) { fprintf(stderr, "no such sub-property\n"); return 3; } }
            else if (a == "--list") { for (unsigned k = 0; k < nProps(); k++) printf("%s\n", props[k].name); return 0; }
            else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
        }
        Shared* scratch = mapShared();
        if (bytes)      // convert a libFuzzer artifact into a replay file
        {
            FILE* f = fopen(bytes, "rb"); if (!f) { perror(bytes); return 3; }
            std::vector<uint8_t> b; int ch; while ((ch = fgetc(f)) != EOF) b.push_back((uint8_t)ch);
            fclose(f);
            if (b.empty()) return 3;
            unsigned prop = b[0] % nProps(); if (only >= 0) prop = only;
            std::string msg;
            int r = inChild(scratch, [&] { Src s(b.data() + 1, b.size() - 1, 40); return runOne(prop, s); }, msg);
            Case k{prop, 40, std::vector<uint64_t>(scratch->choices, scratch->choices + scratch->nChoices)};
            if (replayOut)
            {
                FILE* o = fopen(replayOut, "w");
                fprintf(o, "prop %s\nsize %u\nchoices", props[k.prop].name, k.size);
                for (uint64_t v : k.c) fprintf(o, " %llu", (unsigned long long)v);
                fprintf(o, "\n"); fclose(o);
            }
            return r;
        }
        if (replay)
        {
            Case k; std::string batch; k.c = readChoices(replay, k.prop, k.size, batch); std::string msg;
            if (!batch.empty())
            {
                unsigned long long s, a, b, st; if (sscanf(batch.c_str(), "%llu:%llu:%llu:%llu", &s, &a, &b, &st) != 4) return 3;
                int r = inChild(scratch, [&] { for (uint64_t i = a; i <= b; i += st) { Src src = caseSrc(s, i); if (!runOne(caseProp(s, i), src)) return false; } return true; }, msg, false);
                printf("%s\n", r == 1 ? ("FAILED: " + msg).c_str() : r == 0 ? "passed" : "inconclusive");
                return r;
            }
            int r = runCase(scratch, k, msg, false);
            printf("[%s] %s\n", props[k.prop].name, scratch->text);
            printf("%s\n", r == 1 ? ("FAILED: " + msg).c_str() : r == 0 ? "passed" : "inconclusive");
            return r;
        }
        if (digest)     // one line per case: number, outcome (0 passed, 1 check failed, else died), digest of its observations
        {
            struct Res { uint64_t digest; uint32_t outcome; };
            size_t bytes = sizeof(Res) * (cases ? cases : 1);
            Res* res = static_cast<Res*>(mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
            if (res == MAP_FAILED) { perror("mmap"); return 3; }
            double t0 = now();
            std::vector<Shared*> sh; std::vector<pid_t> pids(workers, 0); std::vector<uint64_t> next(workers); unsigned alive = 0, deaths = 0;
            auto start = [&](unsigned w)
            {
                fflush(nullptr); alive++;
                pid_t pid = pids[w] = fork();
                if (pid) return;
                g = sh[w]; armTimer(); int dn = open("/dev/null", O_WRONLY); dup2(dn, 2);
                for (uint64_t i = next[w]; i < cases; i += workers)
                {
                    g->caseIndex = i; if (((i / workers) & 31) == 0) { armTimer(); if (now() > t0 + budget) { g->finished = 2; _exit(0); } }
                    Src s = caseSrc(seed, i);
                    if (!runOne(caseProp(seed, i), s)) { uint64_t h = 7; for (char* c = g->failMsg; *c; c++) if (!isxdigit((unsigned char)*c)) h = mix(h * 31 + uint64_t(*c)); res[i] = {h, 2}; _exit(77); }
                    res[i] = {g->digest, 1};
                }
                g->finished = 1; _exit(0);
            };
            for (unsigned w = 0; w < workers; w++) { sh.push_back(mapShared()); next[w] = w; start(w); }
            bool killed = false; Ticks ticks; std::vector<Watch> watch;
            while (alive)
            {
                int st; pid_t p = waitWatched(-1, pids, watch, &st, 10); if (p < 0) break;
                for (unsigned w = 0; w < workers; w++) if (pids[w] == p)
                {
                    pids[w] = 0; alive--;
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { killed = true; continue; }
                    uint64_t i = sh[w]->caseIndex;
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 77)) res[i] = {0, uint32_t(WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : 2000 + WEXITSTATUS(st))};
                    next[w] = i + workers;
                    if (++deaths < 400 && next[w] < cases) start(w);
                }
            }
            for (uint64_t i = 0; i < cases; i++) if (res[i].outcome) printf("%llu %u %016llx\n", (unsigned long long)i, res[i].outcome - 1, (unsigned long long)res[i].digest);
            FILE* o = out ? fopen(out, "w") : nullptr;
            if (o)
            {
                uint64_t done = 0, nontriv = 0; std::unordered_set<uint64_t> d; std::vector<std::string> samples;
                for (auto* q : sh) { done += q->casesDone; nontriv += q->nontrivial; d.insert(q->hashes, q->hashes + q->nHashes); for (uint64_t i = 0; i < q->nSamples && samples.size() < 4; i++) samples.push_back(q->samples[i]); }
                if (hashOut) if (FILE* o = fopen(hashOut, "wb")) { for (uint64_t h : d) fwrite(&h, 8, 1, o); fclose(o); }
                fprintf(o, "{\"cases\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"rules\": {", (unsigned long long)done, (unsigned long long)nontriv, (unsigned long long)d.size());
                for (unsigned i = 0; i < nProps(); i++) fprintf(o, "%s%s: %s", i ? ", " : "", jstr(props[i].name).c_str(), jstr(props[i].rule).c_str());
                fprintf(o, "}, \"samples\": [");
                for (size_t i = 0; i < samples.size(); i++) fprintf(o, "%s%s", i ? ", " : "", jstr(samples[i]).c_str());
                fprintf(o, "], \"killed\": %s}\n", killed ? "true" : "false"); fclose(o);
            }
            return killed ? 2 : 0;
        }
        if (serve)      // requests on stdin: "c <case>" or "r <prop> <size> <n> <choices...>"; answer: outcome digest, choices, spans, trace length, trace
        {
            char kind;
            while (scanf(" %c", &kind) == 1)
            {
                Case k; std::string msg; int r;
                if (kind == 'c') { unsigned long long i; if (scanf("%llu", &i) != 1) return 3; k.prop = caseProp(seed, i); k.size = caseSize(i); r = inChild(scratch, [&] { Src s = caseSrc(seed, i); return runOne(k.prop, s); }, msg); }
                else { size_t n; if (scanf("%u %u %zu", &k.prop, &k.size, &n) != 3) return 3; for (size_t i = 0; i < n; i++) { unsigned long long v; if (scanf("%llu", &v) != 1) return 3; k.c.push_back(v); } r = runCase(scratch, k, msg); }
                for (char& c : msg) if (c == '\n') c = ' ';
                printf("%d %016llx %u %u %llu", r, (unsigned long long)scratch->digest, k.prop, k.size, (unsigned long long)scratch->nChoices);
                for (uint64_t i = 0; i < scratch->nChoices; i++) printf(" %llu", (unsigned long long)scratch->choices[i]);
                printf(" %llu", (unsigned long long)scratch->nSpans);
                for (uint64_t i = 0; i < scratch->nSpans; i++) printf(" %u %llu", scratch->spans[i].a, (unsigned long long)std::min<uint64_t>(scratch->spans[i].b, scratch->nChoices));
                printf("\n%s\n", msg.c_str());
                std::string t = scratch->text; for (char& c : t) if (c == '\n') c = ' ';
                printf("%s\n", t.c_str()); fflush(stdout);
            }
            return 0;
        }

        double t0 = now();
        std::vector<Shared*> sh; std::vector<pid_t> pids;
        for (unsigned w = 0; w < workers; w++) sh.push_back(mapShared());
        for (unsigned w = 0; w < workers; w++)
        {
            fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) { g = sh[w]; worker(seed, w, workers, cases, t0 + budget); }
            pids.push_back(pid);
        }
        int failedWorker = -1; bool killed = false; unsigned alive = workers; std::optional<Ticks> ticks(std::in_place); std::vector<Watch> watch;
        while (alive)
        {
            int st; pid_t p = waitWatched(-1, pids, watch, &st, 10);
            if (p < 0) break;
            for (unsigned w = 0; w < workers; w++) if (pids[w] == p)
            {
                pids[w] = 0; alive--;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
                {
                    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { if (failedWorker < 0) killed = true; }
                    else if (failedWorker < 0)
                    {
                        failedWorker = w;
                        for (unsigned v = 0; v < workers; v++) if (pids[v]) kill(pids[v], SIGKILL);
                    }
                }
            }
        }
        ticks.reset();
        uint64_t done = 0, nontriv = 0; std::map<std::string, uint64_t> labels; std::unordered_set<uint64_t> hashes; std::vector<std::string> samples; bool cut = false;
        for (auto* s : sh)
        {
            done += s->casesDone; nontriv += s->nontrivial; if (s->finished == 2) cut = true;
            for (uint64_t i = 0; i < s->nLabels; i++) labels[s->labels[i].name] += s->labels[i].count;
            hashes.insert(s->hashes, s->hashes + s->nHashes);
            for (uint64_t i = 0; i < s->nSamples && samples.size() < 4; i++) samples.push_back(s->samples[i]);
        }
        if (hashOut) if (FILE* o = fopen(hashOut, "wb")) { for (uint64_t h : hashes) fwrite(&h, 8, 1, o); fclose(o); }
        double tRun = now() - t0;

        int status = 0; std::string msg, trace; unsigned tried = 0; std::string subprop; int reproduced = 0;
        if (failedWorker >= 0)
        {
            Shared* f = sh[failedWorker];
            uint64_t idx = f->caseIndex;
            Case k{caseProp(seed, idx), caseSize(idx), std::vector<uint64_t>(f->choices, f->choices + f->nChoices)};
            std::string first = f->failed ? f->failMsg : "";
            for (int i = 0; i < 3; i++) { std::string m; int r = runCase(scratch, k, m); if (r == 1) { reproduced++; msg = m; } }
            std::string batch;
            if (reproduced)
            {
                shrink(scratch, k, msg, now() + shrinkSec, tried);
                std::string m; runCase(scratch, k, m); trace = scratch->text; if (!m.empty()) msg = m;
                status = 1;
            }
            else
            {
                // state carried between cases of one worker process? replay the worker's prefix
                uint64_t a = failedWorker;
                for (int i = 0; i < 3; i++)
                {
                    std::string m;
                    int r = inChild(scratch, [&] { for (uint64_t q = a; q <= idx; q += workers) { Src src = caseSrc(seed, q); if (!runOne(caseProp(seed, q), src)) return false; } return true; }, m);
                    if (r == 1) { reproduced++; msg = m + " (only after the preceding cases in one process)"; trace = scratch->text; }
                }
                if (reproduced)
                {
                    status = 1;
                    char b[128]; snprintf(b, sizeof b, "%llu:%llu:%llu:%u", (unsigned long long)seed, (unsigned long long)a, (unsigned long long)idx, workers);
                    batch = b;
                }
                else { status = 2; msg = "not reproducible: " + (first.empty() ? std::string("worker died") : first); }
            }
            subprop = props[k.prop].name;
            if (status == 1 && replayOut)
            {
                FILE* o = fopen(replayOut, "w");
                if (!o) { perror(replayOut); return 3; }
                fprintf(o, "prop %s\nsize %u\n", subprop.c_str(), k.size);
                if (!batch.empty()) fprintf(o, "batch %s\n", batch.c_str());
                std::string one = msg; for (char& c : one) if (c == '\n') c = ' ';
                fprintf(o, "message %s\ntrace %s\nchoices", one.c_str(), trace.substr(0, 7000).c_str());
                for (uint64_t v : k.c) fprintf(o, " %llu", (unsigned long long)v);
                fprintf(o, "\n"); fclose(o);
            }
        }
        else if (killed) { status = 2; msg = "a worker was killed"; }

        if (out)
        {
            FILE* o = fopen(out, "w"); if (!o) { perror(out); return 3; }
            fprintf(o, "{\"status\": %d, \"cases\": %llu, \"requested\": %llu, \"budget_cut\": %s, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"run_s\": %.2f, \"message\": %s, \"trace\": %s, \"subprop\": %s, \"reproduced\": %d, \"shrink_runs\": %u,\n \"rules\": {",
                status, (unsigned long long)done, (unsigned long long)cases, cut ? "true" : "false", (unsigned long long)nontriv, (unsigned long long)hashes.size(), tRun,
                jstr(msg).c_str(), jstr(trace).c_str(), jstr(subprop).c_str(), reproduced, tried);
            for (unsigned i = 0; i < nProps(); i++) fprintf(o, "%s%s: %s", i ? ", " : "", jstr(props[i].name).c_str(), jstr(props[i].rule).c_str());
            fprintf(o, "},\n \"labels\": {");
            bool f = true; for (auto& [n, c] : labels) { fprintf(o, "%s%s: %llu", f ? "" : ", ", jstr(n).c_str(), (unsigned long long)c); f = false; }
            fprintf(o, "},\n \"samples\": [");
            for (size_t i = 0; i < samples.size(); i++) fprintf(o, "%s%s", i ? ", " : "", jstr(samples[i]).c_str());
            fprintf(o, "]}\n"); fclose(o);
        }
        if (status == 1) printf("FAILED [%s] %s\n  trace: %s\n", subprop.c_str(), msg.c_str(), trace.c_str());
        else if (status == 2) printf("INCONCLUSIVE %s\n", msg.c_str());
        else printf("ok: %llu cases, %zu distinct non-trivial, %.1fs%s\n", (unsigned long long)done, hashes.size(), tRun, cut ? " (time budget)" : "");
        return status;
    }
#ifdef PBT_FUZZ
    static int fuzzOne(const uint8_t* d, size_t n)
    {
        if (!g) { g = mapShared(); g_fuzz = true; }
        if (n < 2) return 0;
        Src s(d + 1, n - 1, 40);
        unsigned prop = d[0] % nProps();
        if (!runOne(prop, s)) { fprintf(stderr, "FAILED [%s] %s\n  trace: %s\n", props[prop].name, g->failMsg, g->text); abort(); }
        return 0;
    }
    static int call(const uint8_t* d, size_t n) { return fuzzOne(d, n); }
#endif
    int callMain(int argc, char** argv) { return mainImpl(argc, argv); }
#ifdef PBT_FUZZ
    int callFuzz(const uint8_t* d, size_t n) { return call(d, n); }
#endif
}

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) { return pbt::callFuzz(d, n); }
#else
int main(int argc, char** argv) { return pbt::callMain(argc, argv); }
#endif
