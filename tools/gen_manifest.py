"""Writes MANIFEST.json from properties.jsonl and vx/plan.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'vx')); sys.dont_write_bytecode = True
import plan
NA = {
 'C25': 'A property of all schedules of several threads: the locks are std::sync::Mutex (and Arc), which the verifiers here take only as trusted contracts without an order of acquisition; Verus has no way to state "no schedule deadlocks" about safe std locks, Kani has no threads. Lock order and contention outcomes of single calls are covered under C24.',
 'C26': 'A property of all interleavings of an asynchronous signal handler with the reading thread: a static AtomicUsize written by the handler and swapped by the reader. A contract sees the handler only as an unknown writer; with the single slot of the code the property is in fact false by design (two signals between two reads leave one), and no contract within reach expresses the intended history property.',
}
LV = {'proof': 'Contracts on the functions of /repo listed in the evidence file, all obligations discharged by Verus/Z3 for all inputs on every run from the current source; bounded search over the real crate covers what lies outside the contracts and gives a failing input when an obligation fails. Trusted: Verus, Z3, the extractor, the assumed contracts listed.',
      'exploration': 'Bounded: a search over the real crate (exhaustive on the small spaces named in the evidence, seeded random beyond) against an independent reference. Not proved.'}
def main():
    props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
    checks = []
    for p in props:
        i = p['id']
        if i in NA: continue
        P = plan.PLAN[i]
        checks.append(dict(property=i, quick_cmd=f'./check {i} --tier quick', thorough_cmd=f'./check {i} --tier thorough', evidence_file=f'evidence/{i}.json',
            technique=P.get('technique') or ('contracts on the extracted code, deductive verification (Verus, Z3); bounded replay search' if P['units'] else 'bounded search against a reference (stand-in)'),
            level=P['level'], level_note=P.get('note') or LV[P['level']]))
    m = dict(version=1, setup_cmd='bash refuter/build.sh && test -x refuter/target/release/refuter', checks=checks,
        hooks=dict(guard='mortal_verif', enable='RUSTFLAGS="--cfg mortal_verif"', source_commits=['77f8d0a']),
        not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
        notes='Known findings and repairs: known-findings.txt. Verdicts: see DESIGN.md.')
    json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
main()
