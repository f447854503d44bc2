#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
NA={
"C20":"pure functions of their arguments: no schedule, clock, I/O, randomness, crash or other party takes part, so simulation with fault injection has nothing to control; what users observe of this algebra is decided through C01, C02 and C17",
"C21":"the simulator replaces time and the machine by its own; execution time and memory access patterns of the real processor are exactly what it does not reproduce",
"C22":"a statement about distributions against every polynomial adversary; sampling executions cannot decide it (the parts that failures of randomness, clocks and restarts can break are decided by C10 and C11)",
}
NOTE={
"C01":"nodes, network, clocks, entropy, restarts and interleavings are simulated around the real prover and verifier",
"C02":"verdicts are compared with an independent reference verifier; cheating provers come from the reference prover",
"C03":"statement-level interleavings of the real code; results compared with the same call executed alone; unsynchronised accesses to maps and multi-word memory are found by happens-before tracking, effects of weak memory on single words are outside",
"C04":"aggregates are compared with formal sums kept by the simulator",
"C05":"the adversary combines observed material only by the listed derivations; one known finding (known discrete logarithm of the message hash) is excluded by its exact form",
"C06":"all live objects are compared with formal values after every step",
"C07":"verdicts compared with an independent reference verifier; ring rotation and repetition are known findings, recognised by their exact form",
"C08":"verdicts compared with an independent reference verifier; ring rotation and repetition are known findings, recognised by their exact form",
"C09":"images compared over histories; cheating signers come from the reference signer",
"C10":"statistical: decides bias detectable within the runs, threshold beyond 1e-12 per test",
}
claimed=os.environ.get('CLAIM','').split() or [p['id'] for p in props if p['id'] not in NA]
checks=[]
for p in props:
    if p['id'] not in claimed: continue
    checks.append({"property":p['id'],"quick_cmd":"bash /verif/check.sh %s quick"%p['id'],"thorough_cmd":"bash /verif/check.sh %s thorough"%p['id'],
     "technique":"deterministic simulation with fault injection (seeded search over schedules and faults, replayable)",
     "level":"exploration",
     "level_note":"Seeded random exploration, not exhaustive. "+NOTE.get(p['id'],"real library code in a simulated environment, judged by independent reference models").capitalize()[:1]+NOTE.get(p['id'],"real library code in a simulated environment, judged by independent reference models")[1:]+". Trusted: the instrumenter, the simulator, go-ristretto/bn256/x-crypto arithmetic and the Go runtime."})
na=[{"property":k,"reason":v} for k,v in NA.items()]
for p in props:
    if p['id'] not in NA and p['id'] not in claimed: na.append({"property":p['id'],"reason":"check not built yet"})
m={"version":1,"setup_cmd":"true","checks":checks,"not_applicable":na,
"notes":"No hooks in /repo: every seam is added by instrumenting a copy of the working tree at check time (statement counters, clock, entropy, sync, goroutines, package variables)."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
