#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
ps = [json.loads(l) for l in open("properties.jsonl")]
model = {
 "C01": ("stateful PBT over a zoo of compositions", "every fresh block is compared with all live blocks and their fill patterns are verified after every step; leaf allocators hand out exact-size heap blocks, so ASan sees every stray byte"),
 "C02": ("stateful PBT with accounting test doubles", "leaf doubles check every deallocation for instance, size and liveness; balances at the end of each history"),
 "C03": ("metamorphic PBT with refusal and heap-fault injection", "a history with refused requests is compared with the same history without them, and vice versa"),
 "C04": ("model-based stateful PBT", "reference model of a bump buffer: least service, most service, exact recovery"),
 "C05": ("stateful PBT with address probes", "owns() asked for all live and many foreign addresses after every step"),
 "C06": ("stateful PBT", "max_size() asked at every point and requests around it made; exact values for compositions where it is pinned down"),
 "C07": ("model-based stateful PBT", "reference model of the set of free blocks"),
 "C08": ("model-based stateful PBT", "reference model of the set of instances, observed through counting leaf doubles"),
 "C09": ("model-based stateful PBT", "event log of probe allocators against the routing rule"),
 "C10": ("model-based stateful PBT", "event log of probe allocators against the routing rule"),
 "C11": ("differential PBT (builder alias against a flat list)", "event logs of probe allocators compared with a reference search in the flat list, builders of 2 to 8 entries"),
 "C12": ("model-based PBT with injected corruption", "reports parsed and compared with the bytes really modified"),
 "C13": ("model-based stateful PBT", "reports parsed and compared with reference counters"),
 "C14": ("model-based stateful PBT", "reference ownership graph of handles; lifetime recorded by leaf doubles"),
 "C15": ("PBT over schedules (controlled scheduler) plus ThreadSanitizer stress", "random and PCT-like schedules at lock operations, shrunk; data races and memory orders only through TSan on real threads"),
 "C16": ("model-based stateful PBT", "equality matrix of all instances against a reference notion of identity, cross-deallocation"),
 "C17": ("stateful PBT with counting doubles", "constructor, destructor and construct/destroy calls counted per object and per leaf"),
 "C18": ("differential PBT against std::allocator", "std containers on KTL allocators compared with the same containers on std::allocator after every operation"),
 "C19": ("differential PBT against std::vector", "model comparison after every operation; lifetimes of storage through an accounting allocator"),
 "C20": ("model-based stateful PBT", "model comparison after every operation"),
 "C21": ("model-based stateful PBT", "model comparison, alignment and surroundings"),
 "C22": ("model-based stateful PBT", "multiset model with element identities"),
 "C23": ("stateful PBT with lifetime-tracking elements", "every construction, destruction, read and move of an element checked against the set of live objects"),
 "C24": ("stateful PBT with an accounting allocator", "every allocation and deallocation of the containers checked for instance, count and liveness"),
 "C25": ("model-based PBT", "pointer/integer pairs at the extremes of every alignment and width"),
 "C26": ("stateful PBT over all heap back ends with fault injection", "interposed malloc family; platform alignment simulated by skewed blocks; back ends selected by the library's own macros"),
 "C27": ("differential PBT between builds (gcc/clang, C++17/20, -O0/-O2/-O3, assertions on/off)", "digest of all observations of every case compared between builds; any SIGTRAP is a violation"),
 "C28": ("model-based stateful PBT", "footprint (blocks, heap, instances) of source and destination before and after every move"),
 "C30": ("PBT over generated programs (header subsets, orders, translation units)", "programs are generated, compiled with gcc and clang in three language levels, linked and run; a failing program is shrunk"),
 "C31": ("stateful PBT with exception injection, differential against a history without it", "the k-th call that can throw throws, for k = 1, 2, ...; identity of the exception, balances, ownership and later results compared with a twin that met none; an exception reaching a noexcept function aborts"),
 "C32": ("model-based stateful PBT with exception injection", "the k-th allocation, copy or move within a container operation throws; live elements, blocks and contents compared with the model afterwards"),
 "C33": ("model-based stateful PBT", "leaf doubles with 8, 16 and 32 bit size types record the sizes they are really asked for; blocks are exact, so ASan sees a truncated request"),
 "C34": ("PBT over generated programs", "leaves record the constructor that ran, its arguments and their value categories; expectations come from the generator; the programs of a seed are 160 per configuration"),
 "C35": ("stateful PBT with accounting allocators, comparators and elements", "allocations, addresses, comparisons and element moves of every operation against bounds (growth factor at least 1.2, four times the logarithm)"),
 "C36": ("metamorphic PBT over generated pairs of compositions", "the calls that reach the leaf doubles, and all results, are the same for both of a pair; the pairs of a seed are 80 per configuration"),
 "C37": ("differential PBT over generated aliases", "alias and spelled composition side by side on recording leaf doubles; 80 instances of aliases per configuration and seed"),
 "C29": ("model-based stateful PBT", "reference and global against the object they denote, from two translation units and several threads"),
}
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "none", "enable": "no hooks: the harness uses the library's public interface only", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "run.py builds harness/*.cpp from /repo/include in several configurations and drives them; see DESIGN.md. run.py --replay FILE repeats a violation."}
for p in ps:
    t, n = model[p["id"]]
    m["checks"].append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']}", "thorough_cmd": f"python3 run.py {p['id']} --tier thorough", "evidence_file": f"evidence/{p['id']}.json",
        "technique": "property-based testing: " + t, "level": "exploration",
        "level_note": n + ". Held on all generated cases; no claim beyond them. Trusts the harness's models and doubles, and the sanitizers."})
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
