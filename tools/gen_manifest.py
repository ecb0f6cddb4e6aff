"""Writes MANIFEST.json from properties.jsonl and the list of reasons in gen_properties.py."""
import json, runpy, os
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
g=runpy.run_path(os.path.join(here,"gen_properties.py"))
TECH={
"C01":"deterministic simulation: storage faults at the include seam, refinement against an executable assembly model",
"C02":"deterministic simulation: storage faults at the include seam, refinement against an executable assembly model",
"C03":"deterministic simulation: storage faults at the include seam, recorded call history against an executable model",
"C04":"deterministic simulation: parser histories with restrictions and storage faults, refinement against an attribute store model",
"C05":"deterministic simulation: seeded parser histories, each parse compared with a new parser in its own process",
"C06":"deterministic simulation: injected crashes in callbacks, recovery compared with a new parser and an attribute store model",
"C07":"deterministic simulation: re-entrant parses injected in callbacks, compared with runs without them",
"C08":"deterministic simulation: seeded scheduler over all threads at every basic block, atomic operation, allocation, lock and callback; results compared with each client alone",
"C09":"deterministic simulation: the same plan under controlled hash seeds, heap layouts, clocks, orders and process histories",
"C10":"deterministic simulation: damaged, torn, swapped and cyclic storage with bounded time, stack and memory; positions checked as invariants",
"C11":"deterministic simulation: documents re-read after every later step of a history and from other threads",
"C12":"deterministic simulation: fault phases followed by healed storage, compared with a new parser",
"C13":"deterministic simulation: storage faults at the include seam, compared with a parse of the assembled text as one file",
"C14":"deterministic simulation: seeded histories with faults and crashes repeated up to 256 times, memory in use measured at the allocator seam",
"C15":"deterministic simulation: seeded documents, stores and histories made 16 and 64 times longer, the work of each parse counted in executed basic blocks and allocated bytes",
"S01":"deterministic simulation: the real tool under a system call shim with seeded listing order, split I/O and errors; output against a model",
}
NOTE={
"C14":"Seeded search. Growth is reported when memory in use increases at every one of five doublings up to 256 repetitions although the attribute values stay the same size; slower growth is not seen.",
"C01":"Seeded search over documents, stores and faults: what was not drawn was not explored. Trusts the assembly model in sim/src/model.rs, whose limits DESIGN.md lists.",
"C04":"Seeded search. The value of every attribute is decided for documents in a structured grammar that the model follows completely; other documents are skipped and counted.",
"C08":"Seeded search over interleavings at every basic block of the library, atomic operation, allocation, lock operation and callback (sequentially consistent memory; the dependencies regex and memchr run between their own allocations and locks without interruption).",
"C15":"Seeded search. Work inside of the regex, memchr and standard library code that is not compiled into the library is not counted; a constant factor is never a violation.",
"S01":"Seeded search. System calls on paths under the tree and on standard output are simulated; names are UTF-8.",
}
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
ids=[p["id"] for p in props]
claimed=[i for i in ids if i in TECH]
m={"version":1,"setup_cmd":"bash build.sh",
"checks":[{"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough","technique":TECH[i],"level":"exploration",
 "level_note":NOTE.get(i,"Seeded search over plans: what was not drawn was not explored. Every run is exactly repeatable from its seed; the oracle's limits are listed in DESIGN.md.")} for i in claimed],
"not_applicable":[x for x in g["NA"] if x["property"] not in claimed],
"hooks":{"guard":"none","enable":"No hooks: the seams are the library's own traits, its thread and memory primitives (interposed by the simulator's executable; a compiler wrapper of the simulator, sim/wrap.sh, adds a call to every basic block and atomic operation of the library in the simulator's own build) and the tool's system calls (interposed by a preloaded shim).","source_commits":[]},
"notes":"See DESIGN.md. Replay a violation with: sim/target/release/adsim replay FILE."}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
