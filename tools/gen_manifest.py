#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = {}
for l in open(os.path.join(here, "..", "properties.jsonl")):
    x = json.loads(l); props[x["id"]] = x
TECH = {
 "pool": "deterministic simulation of pool participants over a faulty network, in lock step with a reference model of the contract",
 "exec": "deterministic simulation of whole backtests over a simulated market with stalls, ties, gaps and clock jumps, against reference schedules, ledgers and models",
 "app": "deterministic simulation of the whole program on a simulated disk, clock and scheduler with injected I/O faults and crashes",
 "conc": "seeded statement-level interleaving of concurrent runs in one process, compared with solo runs, plus a happens-before race oracle on the simulated schedule",
}
NOTE = {
 "pool": "Seeded exploration, not proof: every operation of every simulated history is compared with an independent big-integer model of the Uniswap v3 core contract. Trusts that model (rt/ref), the instrumenter (yield points only) and math/big; operations the contract itself would refuse are not submitted except the ones the property says must be refused.",
 "exec": "Seeded exploration, not proof: real executor, strategies and pool run; the market, the schedule model, the ledgers and the range formulas are independent. Trusts rt/ref, the oracle in rt/worlds/exec*.go, the instrumenter and math/big.",
 "app": "Seeded exploration, not proof: the real main package runs on a simulated file system, clock, argument list and scheduler. Trusts the disk model (POSIX-like, non-atomic writes, power loss keeps only synced data as an option) and the instrumenter.",
 "conc": "Seeded exploration of schedules at statement granularity (random walk, priority, round robin, stalls), not proof; races are judged by the Go race detector on the simulated schedule with the simulator's own synchronisation hidden.",
}
WORLD = {}
for i in range(1, 8): WORLD["C%02d" % i] = "pool"
WORLD["C18"] = "pool"
for i in range(12, 18): WORLD["C%02d" % i] = "exec"
WORLD.update(json.load(open(os.path.join(here, "claimed_extra.json"))) if os.path.exists(os.path.join(here, "claimed_extra.json")) else {})
NA = {
 "C20": "pure function of its operands: no schedule, clock, fault or interleaving for a simulation to decide (its use inside the pool is covered by C01-C06)",
 "C21": "pure function of its input: no schedule, clock, fault or interleaving for a simulation to decide (its use inside the pool is covered by C01 and C16)",
}
m = {"version": 1, "setup_cmd": "./check --build",
     "checks": [{"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "./check " + p + " --thorough", "evidence_file": "evidence/%s.json" % p,
                 "technique": TECH[WORLD[p]], "level": "exploration", "level_note": NOTE[WORLD[p]]} for p in sorted(WORLD)],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check under construction")} for p in sorted(props) if p not in WORLD],
     "notes": "Every check rebuilds an instrumented copy of /repo's working tree (build tag verif) in a scratch directory and simulates seeds in parallel workers. A replay file is repeated with ./check --replay FILE. See DESIGN.md."}
hooks = os.path.join(here, "hooks.json")
if os.path.exists(hooks): m["hooks"] = json.load(open(hooks))
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(m["checks"]))
except ImportError:
    print("written")
