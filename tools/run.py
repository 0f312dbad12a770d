#!/usr/bin/env python3
"""run.py <property>: decides one property on /repo's current working tree.

Exit 0: every obligation that could be decided holds (evidence/<id>.json says what was decided and how).
Exit 1: a VIOLATION line names the failed obligation and the replay file.
Exit 2: the machinery gave no answer.
"""
import fcntl, glob, json, os, re, shutil, subprocess, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan, kani_job, verus_job

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
PID = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
try: SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError: SEED = 1
T0 = time.time()

def log(*a): print(*a, flush=True)

def env_build():
    # same settings as /opt/vp/env.sh, so that compiled dependencies found in /repo/target can be reused
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='1',
             CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_PROFILE_DEV_OPT_LEVEL='1', RUSTC_WRAPPER='',
             CARGO_TARGET_DIR=os.path.join(BUILD, 'native'), VP_HOOKS_DIR=os.path.join(VERIF, 'hooks'), VP_GEN_DIR=os.path.join(BUILD, 'gen', PID))
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    for k in ('RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS'): e.pop(k, None)
    return e

def native_build(layers):
    """the real crate plus the obligations as a shared library; returns (path or None, log)"""
    e = env_build()
    td = e['CARGO_TARGET_DIR']
    if not os.path.isdir(os.path.join(td, 'debug')):
        src = os.path.join(REPO, 'target', 'debug')
        os.makedirs(os.path.join(td, 'debug'), exist_ok=True)
        for d in ('deps', 'build', '.fingerprint'):
            if os.path.isdir(os.path.join(src, d)):
                subprocess.run(['cp', '-a', '--reflink=auto', os.path.join(src, d), os.path.join(td, 'debug')], check=False)
    cfgs = ['--cfg', 'vp_hooks', '--cfg', 'vp_' + PID.lower()]
    for l in layers: cfgs += ['--cfg', 'vp_layer_' + l]
    kj = plan.PLAN[PID].get('kani')
    if kj:
        kani_job.native_gen(VERIF, e['VP_GEN_DIR'], PID, kj)
        cfgs += ['--cfg', 'vp_kn']
    # force the obligations to be recompiled (cargo does not track the included files of other runs)
    so = os.path.join(td, 'debug', 'libiris_mpc.so')
    for f in glob.glob(os.path.join(td, 'debug', 'libiris_mpc.*')): os.remove(f)
    opt = plan.PLAN[PID].get('opt', 0)
    e['CARGO_INCREMENTAL'] = '0' if opt else '1'
    cmd = ['cargo', 'rustc', '-p', 'iris-mpc', '--lib', '--locked', '--offline', '--crate-type', 'cdylib', '--'] + cfgs + \
          [f'-Copt-level={opt}', '-Cdebuginfo=0', '-Cmetadata=vp' + PID + '_'.join(layers), '-Awarnings']
    r = subprocess.run(cmd, cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (so if r.returncode == 0 and os.path.exists(so) else None), r.stdout

def native_run(so, only=None, timeout=820):
    e = dict(os.environ)
    e['VERIF_SEED'] = str(SEED); e['VERIF_TIER'] = TIER
    e['VP_ONLY'] = only or os.environ.get('VP_ONLY', '')
    if TIER == 'thorough': e.setdefault('VP_OB_TIMEOUT', '7200'); e.setdefault('VP_SMT_TIMEOUT', '3000')
    code = f"import ctypes,sys; ctypes.CDLL({so!r}).vp_main()"
    res, start, total = {}, {}, None
    err = ''
    try:
        p = subprocess.Popen([sys.executable, '-c', code], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
        tm = threading.Timer(timeout if TIER == 'quick' else 40000, p.kill); tm.start()
        errb = []
        th = threading.Thread(target=lambda: errb.append(p.stderr.read())); th.start()
        for l in p.stdout:
            l = l.strip()
            if not l.startswith('{'): continue
            try: j = json.loads(l)
            except ValueError: continue
            if 'total' in j: total = j['total']
            elif 'start' in j: start[j['k']] = j
            else: res[j['k']] = j
        p.wait(); tm.cancel(); th.join()
        err = ''.join(errb)
        rc = p.returncode
    except Exception as ex:
        rc, err = 99, str(ex)
    return res, start, total, rc, err

def native():
    """list of obligation results, list of notes"""
    notes = []
    so, out = None, ''
    for layers in (['b'], []):
        so, out = native_build(layers)
        if so: break
        notes.append('the obligations over private items (layer B) do not compile against this tree: they were not generated' if layers else 'the obligations do not compile against this tree')
        i = max(out.find('\nerror'), 0)
        notes.append(out[i:i + 1500] if i else out[-1500:])
        if not any(re.search(r'error', x) for x in out.splitlines()): break
    if not so:
        return None, notes
    res, start, total, rc, err = native_run(so)
    if total is None:
        return None, notes + ['the runner did not start: ' + err[-500:]]
    L = list(res.values())
    if rc != 0 and rc != 3:
        # the process died: find the obligation that kills it by running the unfinished ones alone
        for k, j in start.items():
            if k in res: continue
            r1, s1, t1, rc1, e1 = native_run(so, only='=' + j['name'], timeout=300)
            if r1: L += list(r1.values())
            elif rc1 and rc1 != -9:
                L.append(dict(j, status='fail', detail=f'the process running the real code ends abnormally (exit {rc1}) {e1[-300:]}', vcs=0, ring=0, ground=0, smt=0, smt_ms=0, evals=0, notes='', ms=0))
            else:
                L.append(dict(j, status='timeout', detail='no result', vcs=0, ring=0, ground=0, smt=0, smt_ms=0, evals=0, notes='', ms=0))
        notes.append(f'runner exit {rc}: {err[-300:]}')
    if len(L) < total: notes.append(f'{total - len(L)} of {total} native obligations gave no result')
    for j in L:
        # an obligation that takes seconds on the unchanged tree and never comes back here has a
        # concrete execution of the real code that does not terminate
        if j['status'] == 'timeout': j['status'] = 'hang' if j['kind'] in ('bounded', 'exhaustive') else 'undecided'
        j['backend'] = 'SYM' if j['kind'] == 'proved' else 'execution'
        if j['status'] == 'hang': j['status'] = 'fail'
    return L, notes

def known():
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    for l in open(p):
        m = re.match(r'finding: property=(\S+) obligation="([^"]*)" match="([^"]*)" (.*)', l.strip())
        if m: out.append(m.groups())
    return out

def main():
    P = plan.PLAN[PID]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'replay'), exist_ok=True)
    for f in glob.glob(os.path.join(BUILD, 'replay', PID + '-*')): os.remove(f)
    # one check at a time per build directory
    lock = open(os.path.join(BUILD, '.lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    jobs, results, notes, answered = [], {}, [], []
    def do(name, f):
        try: results[name] = f()
        except Exception as ex:
            import traceback
            results[name] = (None, [f'{name}: {ex}', traceback.format_exc()[-800:]])
    if P.get('native', True): jobs.append(('native', native))
    if P.get('kani'): jobs.append(('kani', lambda: kani_job.run(VERIF, REPO, BUILD, PID, P['kani'], TIER)))
    if P.get('verus'): jobs.append(('verus', lambda: verus_job.run(VERIF, REPO, BUILD, PID, P['verus'], TIER)))
    ts = [threading.Thread(target=do, args=j) for j in jobs]
    for t in ts: t.start()
    for t in ts: t.join()
    obs = []
    for n, _ in jobs:
        L, nt = results[n]
        notes += nt
        if L is not None: obs += L; answered.append(n)
    fails = [o for o in obs if o['status'] == 'fail']
    if os.environ.get('VP_TIMES'):
        for o in sorted(obs, key=lambda o: -o.get('ms', 0))[:int(os.environ['VP_TIMES'])]: log(f'{o["ms"]} ms {o["name"]} {o["status"]}')
    und = [o for o in obs if o['status'] not in ('ok', 'fail')]
    ok = [o for o in obs if o['status'] == 'ok']
    kf, viol, kfhit = known(), [], []
    for o in fails:
        hit = [k for k in kf if k[0] == PID and k[1] == o['name'] and k[2] in o['detail']]
        (kfhit if hit else viol).append((o, hit[0] if hit else None))
    for o, k in kfhit: log(f'KNOWN-FINDING: property={PID} {k[3]} [{o["name"]}]')
    # obligations: those meant as proofs for all values; the bounded stand-ins are counted apart
    proved_kind = [o for o in obs if o['kind'] == 'proved']
    exh = [o for o in obs if o['kind'] == 'exhaustive']
    bnd = [o for o in obs if o['kind'] == 'bounded']
    s = lambda L, k: sum(o.get(k, 0) for o in L)
    dis = lambda L: [o for o in L if o['status'] == 'ok']
    by = {}
    for o in obs: by.setdefault(o.get('backend', '?'), [0, 0, 0]); by[o.get('backend', '?')][0] += 1; by[o.get('backend', '?')][1] += o['status'] == 'ok'; by[o.get('backend', '?')][2] += o.get('ms', 0)
    cov = dict(
        obligations=len(proved_kind) + len(exh), discharged=len(dis(proved_kind)) + len(dis(exh)),
        checker_cmd=f'python3 tools/run.py {PID}', trusted_base=P['trusted'] + (plan.TRUSTED_COMMON if P.get('proto', True) else plan.TRUSTED_TYPES),
        functions_under_contract=P['functions'],
        obligations_for_all_values=len(proved_kind), obligations_exhaustive_over_a_finite_domain=len(exh),
        bounded_standins=dict(total=len(bnd), ok=len(dis(bnd)), note='bounded: never counted as proved'),
        verification_conditions=dict(total=s(obs, 'vcs'), ring_normaliser=s(obs, 'ring'), ground_evaluation=s(obs, 'ground'), smt_z3=s(obs, 'smt'), cbmc_checks=s(obs, 'cbmc'), verus_functions=s(obs, 'verus')),
        solver_ms=dict(z3_on_sym_terms=s(obs, 'smt_ms'), per_backend={k: v[2] for k, v in by.items()}),
        by_backend={k: dict(obligations=v[0], discharged=v[1]) for k, v in by.items()},
        undecided=[dict(name=o['name'], why=o.get('detail', '')[:300]) for o in und],
        concrete_executions=s(obs, 'evals'),
        samples=[f'{o["kind"]}: {o["name"]} [{o["scope"]}] -> {o["status"]}' for o in (proved_kind[:6] + exh[:4] + bnd[:4])],
        scopes=sorted({f'{o["kind"]}: {o["scope"]}' for o in obs})[:60],
        machinery_notes=[n[:600] for n in notes],
        explanation=P['explain'], exhaustive=False)
    level = P['level']
    if level == 'exploration':
        cov.update(evaluations=cov.pop('concrete_executions'), distinct_nontrivial=len({(o['name']) for o in bnd + exh}),
                   rule='evaluations: executions of the real code with seeded boundary-biased operands, fresh secrets, splittings and PRF seeds each; distinct_nontrivial: distinct (operation, engine, type, shape) obligations among them')
    ev = dict(property=PID, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=P['assume'] + (plan.ASSUME_COMMON if P.get('proto', True) else []),
              wall_s=round(time.time() - T0, 2), violations=len(viol))
    with open(os.path.join(VERIF, 'evidence', PID + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    log(f'{PID}: {len(obs)} obligations: {len(dis(proved_kind))}/{len(proved_kind)} proved, {len(dis(exh))}/{len(exh)} exhaustive, {len(dis(bnd))}/{len(bnd)} bounded; {len(und)} undecided; {ev["wall_s"]} s')
    for o in und[:10]: log('  undecided:', o['name'], '-', o.get('detail', '')[:200])
    for n in notes[:6]: log('  note:', n[:400])
    if viol:
        # lead with a concrete failing input where there is one
        viol.sort(key=lambda v: (v[0].get('noinput', False), {'bounded': 0, 'exhaustive': 0, 'proved': 1}[v[0]['kind']]))
        for i, (o, _) in enumerate(viol[:40]):
            rp = os.path.join(BUILD, 'replay', f'{PID}-{i}.json')
            with open(rp, 'w') as f:
                json.dump(dict(property=PID, obligation=o['name'], kind=o['kind'], scope=o['scope'], backend=o.get('backend'), failing_input=None if o.get('noinput') else o['detail'], failed=o['detail'],
                               output=o.get('output', ''), rerun=o.get('rerun', f'cd /verif && VERIF_SEED={SEED} VERIF_TIER={TIER} VP_ONLY="={o["name"]}" python3 tools/run.py {PID}')), f, indent=1)
            if i < 5:
                log(f'  failed obligation: {o["name"]}: {o["detail"][:300]}')
                log(f'VIOLATION property={PID} replay={rp}' + (' no-failing-input-found' if o.get('noinput') else ''))
        return 1
    if not obs or not ok or not answered:
        log('no answer: nothing could be decided')
        return 2
    if P.get('native', True) and 'native' not in answered:
        log('no answer: the native obligations could not be generated')
        return 2
    return 0

sys.exit(main())
