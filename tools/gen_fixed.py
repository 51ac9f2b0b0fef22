#!/usr/bin/env python3
"""Adds the "fixed" entries of known_findings.json from /repo's fix commits (developer tool)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [  # (start of the subject after "fix: ", property)
 ("conjugate the bra", "C02"), ("drop cached qubits", "C07"), ("add the given bit", "C07"), ("accept a single bit with value 0", "C10"),
 ("treat a variable with value 0", "C11"), ("keep evaluated parameters of parametric", "C11"), ("apply circuits containing operations with several", "C10"),
 ("apply circuits containing measurements", "C10"), ("keep conditions of operations", "C10"), ("keep parameter values when applying", "C11"),
 ("only delay resetting", "C11"), ("keep qubits and bits of operations when evaluating", "C11"), ("stay frozen", "C06"),
 ("slice registers", "C08"), ("define the frozen attribute", "C08"), ("look up non-finite", "C08"), ("only report the latest", "C04"),
 ("respect little_endian", "C02"), ("raise the intended error", "C01"), ("simulate operations with real", "C01"),
 ("do not return outdated unitaries", "C14"), ("matrices of controlled operations in a context", "C12"),
 ("evaluate parametric controlled operations while", "C12"), ("build unitaries of circuits with parametric", "C14"),
 ("match parameters of custom", "C13"), ("compare parametric with", "C21"), ("always check the number", "C21"),
 ("update control and target", "C21"), ("use circuit-wide qubit", "C16"), ("declare external", "C16"), ("compile external", "C16"),
 ("skip identity", "C16"), ("load QIR operations with several", "C17"), ("load QIR measurements", "C17"), ("load unused QIR", "C17"),
 ("keep the order of operations and", "C17"), ("keep external instructions", "C16"), ("only add OpenQASM", "C15"),
 ("do not export conditional", "C15"), ("search qubits and bits", "C07"), ("avoid default register", "C07"),
 ("do not add a register when", "C07"), ("normalize density", "C22"), ("remove the simulated state", "C04"),
 ("accept a single qubit index", "C05"), ("block operations conditioned", "C03"), ("clear previously measured", "C04"),
 ("refuse simulating operations with an unsupported", "C01"), ("clear states recorded", "C04"), ("keep bits and variables which are equal", "C08"),
 ("allow arbitrarily large", "C08"), ("relabel and remove", "C08"), ("grow parameter registers", "C09"),
 ("matrices of parametric controlled operations without", "C12"), ("refuse negative qubit", "C14"),
 ("keep the parameters of custom operations when exporting", "C15"), ("refuse register labels", "C15"),
 ("OpenQASM definition of the controlled", "C15"), ("update the number of qubits when", "C21"),
 ("check the number of control and target", "C21"), ("keep the parameters of operations which cannot", "C21"),
]
EXTRA = os.path.join(V, "tools", "fixed_more.json")
if os.path.exists(EXTRA):
    PROP += [tuple(x) for x in json.load(open(EXTRA))]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
out, miss = [], []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    m = [p for k, p in PROP if s[5:].startswith(k)]
    if len(m) != 1:
        miss.append((s, m))
        continue
    out.append("fixed: property=%s %s %s" % (m[0], h, s[5:]))
path = os.path.join(V, "known_findings.json")
d = json.load(open(path))
d["fixed"] = out
json.dump(d, open(path, "w"), indent=1)
print(len(out), "missing", miss)
