import json,sys
NA={
"C17":"pure function of one string: no schedule, time, I/O, fault or multi-party behaviour for a simulator to control; input generation alone would be fuzzing, another technique",
"C18":"a hardness assumption and a statement about running time on real hardware: no execution of a simulator decides either",
}
T={
"C01":"deterministic simulation of authorities, users and storage with seeded faults and collusion, checked against a reference model",
}
N={}
claimed=sys.argv[1:]
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in claimed:
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i}","thorough_cmd":f"bash check.sh {i}","evidence_file":f"evidence/{i}.json",
          "technique":TECH[i] if False else "deterministic simulation with fault injection: "+{
"C08":"seeded scheduler at every memory access of the native interface, history checked for linearizability against a registry model",
"C09":"seeded multi-thread histories with every cached call paired with its one-shot form",
"C10":"seeded multi-thread histories checked against a per-thread last-error model and against solo executions",
"C11":"seeded histories with faulted buffer sizes over guard-paged buffers",
"C13":"seeded histories with failing calls, comparison with solo executions, live-memory accounting over repetitions",
"C14":"seeded interleavings compared with solo executions, outputs searched for other calls' secrets",
"C15":"seeded interleavings with stalls and spurious wake-ups, deadlock and bounded-progress detection",
"C16":"seeded multi-party histories with misrouted, stale and malformed requests",
"C06":"seeded storage and transmission damage to every stored artefact",
"C07":"seeded block reordering, substitution and cross-resource mixes",
"C12":"simulated entropy source with faults, sensitivity of every output to the drawn bytes, process duplication",
"C01":"seeded multi-party histories with collusion checked against a reference model",
"C02":"seeded multi-party histories checked against a reference model",
"C03":"seeded rotation histories with stale and reordered policies checked against a reference model",
"C04":"seeded delegation chains checked against a reference model",
"C05":"seeded crash-restart at any point and exchange between interfaces",
}[i],
          "level":"exploration","level_note":"seeded search over histories, schedules and faults: a pass means no violation in the executions listed in the evidence file; it proves nothing about unexplored ones. Trusts the simulator, its reference model and, where stated in the evidence, the group stub."})
    else:
        na.append({"property":i,"reason":NA.get(i,"check under construction")})
m={"version":1,"setup_cmd":"bash setup.sh","hooks":{"guard":"none","enable":"no hooks in /repo: the simulator uses the crate's public interfaces, compiler instrumentation and interposed system calls","source_commits":[]},"checks":checks,"not_applicable":na,
"notes":"See DESIGN.md. Replay a violation with: target/sim/release/sim replay FILE (after any check has built the simulator)."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
