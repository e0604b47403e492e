# writes /verif/MANIFEST.json (run with python3-vt)
import json
ids=[f"C{i:02d}" for i in range(1,17)]
tech={
"C01":"deterministic simulation: seeded I/O faults on an in-memory file system, refinement against a reference model of the include tree",
"C02":"deterministic simulation: seeded failing files, error set and locations compared with a reference model",
"C03":"deterministic simulation: one ledger under many seeded hash keys, listing orders and read fragmentations, results compared",
"C04":"deterministic simulation: seeded histories after the simulated disk was changed or removed, compared with a fresh process",
"C05":"deterministic simulation: real threads under a seeded scheduler (switches at system calls, allocations, locks, basic blocks and accesses to shared memory) with faults, compared with each running alone",
"C06":"deterministic simulation: seeded faulty writers, output compared with a perfect writer",
"C07":"deterministic simulation: seeded ledgers with failing and repeated includes, every span compared with a reference model",
"C08":"deterministic simulation: seeded histories of synthetic spans, compared with a reference model",
"C09":"deterministic simulation: seeded storage corruption, each run isolated with step, memory and CPU budgets",
"C10":"deterministic simulation: seeded include graphs with aliases and cycles, compared with a reference model",
"C11":"deterministic simulation: seeded include trees, listing orders and hash keys, order compared with a reference model",
"C12":"deterministic simulation: seeded pushes and pops over include trees, compared with a reference model",
"C13":"deterministic simulation: seeded options over include trees under varying hash keys, compared with a reference model",
"C14":"deterministic simulation: every system call of seeded runs with faults checked against what the ledger permits; budgets on calls, descriptors and stack",
"C15":"deterministic simulation: seeded histories of attempts with faults that come and go, each compared with a fresh process",
"C16":"deterministic simulation: files replaced at seeded system calls during the load, history checked for one version per file",
}
note="Seeded search, no proof: a clean run says the property held in the runs counted in the evidence. The library and its dependencies run as built; the file system, hash keys, writers and (C05) the scheduler are simulated. One seed is one execution; failures are minimised into a replay file ('limasim replay FILE'). Trusts the reference model and generator in /verif/sim."
m=dict(version=1,
 setup_cmd="./setup.sh",
 checks=[dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",technique=tech[i],level="exploration",level_note=note) for i in ids],
 not_applicable=[
  dict(property="N01",reason="a pure function of one text: no concurrency, time, I/O, history or fault it could depend on; sampling inputs would be property testing, not simulation. (Values as written are compared in every C01 run, but the grammar is not explored for its own sake.)"),
  dict(property="N02",reason="pure arithmetic on one expression, independent of schedules, faults and histories"),
  dict(property="N03",reason="a pure round trip on one value, independent of schedules, faults and histories"),
  dict(property="N04",reason="pure validation of one string, independent of schedules, faults and histories"),
  dict(property="N05",reason="a pure function of one text, and error recovery is heuristic: after one syntax error the parser skips tokens until something parses, so which later text is recognised is not specified"),
 ],
 notes="No hooks in /repo: the seam is libc, whose file, directory, random and futex calls the simulator binaries define themselves. The commits in /repo are repairs ('fix:').")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
