#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
PURE="a pure function of its inputs: no schedule, clock, I/O, fault or other nondeterminism for a simulator to decide; "
NA={
"C30":PURE+"the laws need input generation or proof, a different technique. What the operations do with user functions that fail or panic is covered under C20 and C22.",
"C31":PURE+"associativity and identity need input generation or proof; combination under failing clones is covered under C22.",
"C32":PURE+"the laws need input generation or proof; calls, panics and sharing of composed optics are covered under C21.",
"C33":PURE+"the parts in which user code runs and fails are covered under C13, C20 and C22.",
"C34":PURE+"the parts in which user code runs and fails are covered under C20 and C22.",
"C35":PURE+"round trips need input generation.",
"C36":PURE+"it is a round trip of derived code, behind a feature.",
"C37":PURE+"lazy contexts and pipelines, where user code runs, are covered under C20.",
"C38":PURE+"the laws need input generation or proof; calls, panics and sharing of composed functions are covered under C21.",
"C39":PURE+"the laws need input generation or proof; logs under failing functions and clones are covered under C22.",
}
NOTE="Seeded search over schedules, workloads and faults on the real library code in one process; every run is a pure function of its seed and replays exactly. It samples: a quiet run is evidence, not proof. Sequentially consistent memory is assumed; preemption happens at basic blocks of library code and at every futex, sleep, clock and thread call of std and tokio."
EXTRA={
"C12":" The real tokio runtime runs on simulated threads; its own code is not preempted between synchronisation operations.",
"C10":" The real tokio runtime runs on simulated threads; its own code is not preempted between synchronisation operations.",
"C04":" Futures are polled by a simulated executor that keeps exactly to the Future contract.",
"C20":" There is no schedule here: the searched space is the injected failures and panics of user code against a counting reference model.",
"C22":" The library code here is sequential and has no clock or I/O: threads only share the carriers; the searched space is the histories and the injected failures and panics of user functions and of clones.",
"C21":" The library code here is sequential and has no clock or I/O: threads only share the composed values; the searched space is the programs and the injected panics of user code.",
}
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in NA: na.append({"property":i,"reason":NA[i]}); continue
    checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}",
      "evidence_file":f"evidence/{i}.json","technique":"deterministic simulation with fault injection (seeded schedules and faults, reference models, shrunk replays)",
      "level":"exploration","level_note":NOTE+EXTRA.get(i,"")})
m={"version":1,"setup_cmd":"./check.sh build","checks":checks,"not_applicable":na,
"notes":"No hooks: /repo is compiled unchanged. The seams are the entry points of libc that std and tokio use (threads, futexes, clocks, sleeping, randomness), the wakers and futures given to the library, and the callbacks it calls; preemption inside library code uses compiler instrumentation that the harness build adds. './check.sh replay FILE' re-runs a recorded violation."}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
print(len(checks),len(na))
