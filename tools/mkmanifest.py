#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C21"]
GEN = ["C11", "C12", "C13", "C14", "C15", "C16", "C17", "C22"]
have_gensim = os.path.exists(os.path.join(V, "gensim", "check.py"))
RT_NOTE = ("Seeded sampling, no proof: random configurations (symbols, types, options, formats, C and C++, optimisation, sanitizers) of the generated loader code, built from the working tree, run under a simulated dynamic loader, "
           "process map, exit machinery and allocator with injected failures; a reference model checks every step. Trusted: the simulated loader's behaviour, the model, gcc. Windows, AIX and other platform paths run with stand-in headers and a host compiler.")
GEN_NOTE = ("Seeded sampling of inputs, options and fault plans, no proof: the real generator runs with every system call answered by a simulated file system and clock, faults injected at chosen calls; oracles compare with an undisturbed run and a reference file-system model. "
            "Trusted: the simulated kernel, libstdc++/libc, gcc. POSIX code paths only.")
checks = []
for p in RT + (GEN if have_gensim else []):
    d = "rtsim" if p in RT else "gensim"
    checks.append({"property": p, "quick_cmd": "python3 %s/check.py %s" % (d, p), "thorough_cmd": "VERIF_TIER=thorough python3 %s/check.py %s" % (d, p), "evidence_file": "evidence/%s.json" % p,
                   "technique": "deterministic simulation with fault injection: seeded histories against a simulated dynamic loader, checked step by step with a reference model" if p in RT else
                                ("deterministic simulation with fault injection: two generator processes on one simulated kernel under a seeded scheduler that passes the turn at system calls, kills and failing calls included; compared with each run alone" if p == "C22" else
                                "deterministic simulation with fault injection: the generator on a simulated kernel (files, clock, memory), seeded fault plans, differential and model oracles"),
                   "level": "exploration", "level_note": RT_NOTE if p in RT else GEN_NOTE})
na = [{"property": "C18", "reason": "pure function of the input text: no schedule, clock, I/O or fault in it, so it is not a simulation target"},
      {"property": "C19", "reason": "pure function of the options and the input: no schedule, clock, I/O or fault in it"},
      {"property": "C20", "reason": "pure function of the template text: no schedule, clock, I/O or fault in it"}]
if not have_gensim: na += [{"property": p, "reason": "simulator under construction"} for p in GEN]
json.dump({"version": 1, "setup_cmd": "mkdir -p evidence replays", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the seams are object-file symbol renaming (rtsim) and system-call interception (gensim), so the shipped sources are checked as they are. Replay files are written to /verif/replays; `python3 <tool>/check.py --replay FILE` reproduces one."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
