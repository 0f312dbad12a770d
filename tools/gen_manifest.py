import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'C20': 'privacy is a statement about distributions of views over two executions with different secrets; function contracts in reach (pre/post conditions of one execution of async code) cannot express it without a relational/probabilistic verifier for Rust, which is not installed',
 'C21': 'delivery, framing and absence of deadlock of the QUIC/tokio stack are whole-history, scheduling and liveness properties of concurrent code and of third-party crates (quinn, rustls, tokio); contract-based verification here has no thread or async-runtime support',
 'C22': 'a probability bound over the verification randomness (2^-40) is not a pre/postcondition; detection for generic randomness is decided by C15, the numeric bound is not',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in plan.PLAN:
        q = plan.PLAN[i]
        checks.append(dict(property=i, quick_cmd=f'python3 tools/run.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3 tools/run.py {i}', evidence_file=f'evidence/{i}.json',
            technique=q.get('technique', 'contracts on the real protocol code, verification conditions by symbolic execution, discharged by a ring/ANF normaliser and z3'), level=q['level'],
            level_note=(q.get('note') or q['explain']) + ' Assumes: ' + '; '.join(q['assume'] + (plan.ASSUME_COMMON[:2] if q.get('proto', True) else []))))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', hooks=dict(guard='cfg(vp_hooks)', enable='cargo rustc ... -- --cfg vp_hooks with VP_HOOKS_DIR=/verif/hooks (RUSTFLAGS="--cfg vp_hooks" for the Kani build); see tools/run.py', source_commits=['865c542', 'd6a0074']), checks=checks, not_applicable=na,
  notes='Known findings and repairs: KNOWN_FINDINGS.txt. Design: DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
