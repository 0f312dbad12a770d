"""Kani back end: function contracts as harnesses over the real crate, all inputs within the stated scope.

The harness crate (kani/<name>.rs) has a path dependency on /repo's crates; nothing of them is copied.
"""
import os, re, shutil, subprocess, sys, time

def crate(verif, repo, build, name, deps):
    d = os.path.join(build, 'kani', name)
    os.makedirs(d, exist_ok=True)
    if not os.path.isdir(d + '/vendor/bytes'):
        subprocess.run([sys.executable, verif + '/tools/vendor_kani.py', d + '/vendor'], check=True)
    dep = {'iris-mpc': f'iris-mpc = {{ path = "{repo}/iris-mpc" }}', 'plain-reference': f'plain-reference = {{ path = "{repo}/plain-reference" }}',
           'mpc-net': f'mpc-net = {{ path = "{repo}/mpc-net" }}', 'num-traits': 'num-traits = "0.2"', 'bytes': 'bytes = "1.5"', 'serde': 'serde = "1"'}
    patch = '[patch.crates-io]\nbacktrace = { path = "vendor/backtrace" }\n' + ('bytes = { path = "vendor/bytes" }\n' if set(deps) & {'iris-mpc', 'mpc-net', 'bytes'} else '')
    t = f'[package]\nname = "vp_{name}"\nversion = "0.1.0"\nedition = "2021"\n[lib]\npath = "{verif}/kani/{name}.rs"\n[dependencies]\n' + '\n'.join(dep[x] for x in deps) + f'\n{patch}[workspace]\n'
    p = d + '/Cargo.toml'
    if not os.path.exists(p) or open(p).read() != t: open(p, 'w').write(t)
    shutil.copy(repo + '/Cargo.lock', d + '/Cargo.lock')
    return d

def env(verif, extra=''):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN'): e.pop(k, None)
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTFLAGS=('--cfg vp_hooks ' + extra).strip(), VP_HOOKS_DIR=verif + '/hooks')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    return e

def native_gen(verif, out, pid, spec):
    """the harness bodies as ordinary functions, executed on sampled or enumerated values by hooks/kn_shim.rs"""
    os.makedirs(out, exist_ok=True)
    top = []
    for job in (spec if isinstance(spec, list) else [spec]):
        name = job['name']
        if job.get('nonative'): continue
        s = open(f'{verif}/kani/{name}.rs').read()
        mods = re.search(r'^// MODULES: (.*)$', s, re.M).group(1).split()
        def close(i):  # index after the brace block opening at or after i
            i = s.index('{', i); d = 0
            while True:
                if s[i] == '{': d += 1
                elif s[i] == '}':
                    d -= 1
                    if d == 0: return i
                i += 1
        edits = []
        for m in re.finditer(r'\bmod \$?\w+ \{', s):
            e = close(m.start())
            body = s[m.end():e]
            if re.search(r'\bmod \$?\w+ \{', body): continue
            fns = re.findall(r'#\[kani::proof\](?:\s*#\[[^\]]*\])*\s*(?:pub )?fn (\w+)', body)
            edits.append((e, ' pub fn vp_all() -> Vec<(&\'static str, fn())> { vec![' + ', '.join(f'("{f}", {f} as fn())' for f in fns) + '] } '))
        for e, t in sorted(edits, reverse=True): s = s[:e] + t + s[e:]
        s = re.sub(r'#\[kani::[^\]]*\]', '', s)
        s = re.sub(r'\bmod (\$?\w+) \{', r'pub mod \1 {', s).replace('pub pub', 'pub')
        s = s.replace('iris_mpc::', 'crate::').replace('#![', '// #![')
        s = 'use crate::vp_hooks::kn_shim as kani;\n' + s
        open(f'{out}/{name}.rs', 'w').write(s)
        top.append(f'pub mod {name} {{ include!(concat!(env!("VP_GEN_DIR"), "/{name}.rs")); pub fn vp_list() -> Vec<(String, fn())> {{ let mut v = vec![]; ' +
                   ' '.join(f'for (n, f) in {m}::vp_all() {{ v.push((format!("{m}::{{}}", n), f)); }}' for m in mods) + ' v } }')
    col = 'pub fn collect(obs: &mut super::ob::Obs) { ' + ' '.join(f'super::kn_shim::collect(obs, "{pid}", "{j["name"]}", {j["name"]}::vp_list());' for j in (spec if isinstance(spec, list) else [spec]) if not j.get('nonative')) + ' }'
    open(f'{out}/kn.rs', 'w').write('\n'.join(top) + '\n' + col + '\n')

TOOL_LIMIT = re.compile(r'unwinding assertion|not currently supported|is unsupported|unsupported construct|recursion unwinding|unreachable code|reachable foreign|inline assembly', re.I)

def declared(path):
    """harness name -> (kind, scope) from the source text"""
    out, stack, s = {}, [], open(path).read()
    return len(re.findall(r'#\[kani::proof\]', s))

def run(verif, repo, build, pid, spec, tier):
    obs, notes = [], []
    for job in (spec if isinstance(spec, list) else [spec]):
        o, n = run1(verif, repo, build, pid, job, tier)
        obs += o; notes += n
    return obs, notes

EXTRA = {}

def run1(verif, repo, build, pid, job, tier):
    EXTRA[job['name']] = job.get('rustflags', '')
    if job.get('tier') == 'thorough' and tier == 'quick': return [], []
    name, deps = job['name'], job['deps']
    d = crate(verif, repo, build, name, deps)
    limit = job.get('timeout', 600) if tier == 'quick' else 20000
    cmd = ['cargo', 'kani', '-j', str(job.get('jobs', 8)), '--output-format', 'terse'] + job.get('args', [])
    if tier == 'quick': cmd += ['-Z', 'unstable-options', '--harness-timeout', f'{job.get("harness_timeout", 300)}s']
    for h in job.get('harness', []): cmd += ['--harness', h]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=d, env=env(verif, EXTRA.get(name, '')), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit, errors='replace')
        out = r.stdout
    except subprocess.TimeoutExpired as ex:
        out = (ex.stdout or b'').decode(errors='replace') if isinstance(ex.stdout, bytes) else (ex.stdout or '')
        out += '\nTIMEOUT'
    # thread-prefixed reports: "Thread k: Checking harness X..." followed later by a block of that thread
    started, done, cur, blk, th = {}, {}, {}, [], None
    cur_thread = None
    for l in out.splitlines():
        m = re.match(r'(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.', l)
        if m:
            cur[m.group(1) or '0'] = m.group(2); started[m.group(2)] = 1
            if not m.group(1): cur_thread = '0'
            continue
        m = re.match(r'Thread (\d+): ?(.*)', l)
        if m: cur_thread = m.group(1); l = m.group(2)
        if cur_thread in cur: done.setdefault(cur[cur_thread], []).append(l)
    expected = declared(f'{verif}/kani/{name}.rs') if not job.get('expect') else job['expect']
    obs = []
    if not started:
        tail = '\n'.join(x for x in out.splitlines() if re.match(r'error|.*cannot find', x))[:600] or out[-600:]
        return [], [f'kani {name}: no harness was checked (the harnesses do not compile against this tree or the tool failed): {tail}']
    for h in started:
        b = '\n'.join(done.get(h, []))
        base = dict(name=f'contract {name}::{h}', kind=job.get('kinds', {}).get(h, job.get('kind', 'proved')), scope=job.get('scopes', {}).get(h, job.get('scope', 'all inputs')), backend='Kani/CBMC')
        m = re.search(r'Verification Time: ([\d.]+)s', b)
        base['ms'] = int(float(m.group(1)) * 1000) if m else 0
        m = re.search(r'\*\* (\d+) of (\d+) failed', b)
        base['cbmc'] = int(m.group(2)) if m else 0
        cov = re.search(r'\*\* (\d+) of (\d+) cover properties satisfied', b)
        if 'VERIFICATION:- SUCCESSFUL' in b:
            if not m or int(m.group(2)) == 0: obs.append(dict(base, status='undecided', detail='no checks were generated'))
            elif not cov: obs.append(dict(base, status='undecided', detail='no reachability check'))
            elif cov.group(1) != cov.group(2): obs.append(dict(base, status='undecided', detail='the precondition excludes a case that must be reachable'))
            else: obs.append(dict(base, status='ok', detail=''))
        elif 'VERIFICATION:- FAILED' in b and 'timed out' not in b.lower():
            fc = re.findall(r'Failed Checks: (.*)', b)
            loc = re.findall(r'File: "?([^"\n]*)"?, line (\d+)', b)
            real = [f for f in fc if not TOOL_LIMIT.search(f)]
            if real and not any(TOOL_LIMIT.search(f) for f in fc):
                at = ', '.join(f'{a}:{l}' for a, l in loc[:4])
                f = dict(base, status='fail', detail=f'contract violated: {"; ".join(real[:5])} [{at}]', noinput=True, output=b[-3000:], rerun=f'python3 tools/run.py {pid}')
                obs.append(f)
            else:
                obs.append(dict(base, status='undecided', detail='the verifier stopped at: ' + '; '.join(fc[:4])[:300]))
        else:
            obs.append(dict(base, status='undecided', detail='no result (time limit)'))
    if len(started) < expected_count(job, expected): notes = [f'kani {name}: {len(started)} harnesses checked, {expected} expected']
    else: notes = []
    # counterexamples: replay the verifier's values against the compiled real code
    for f in [o for o in obs if o['status'] == 'fail'][:2]:
        if time.time() - t0 > (500 if tier == 'quick' else 5000): break
        replay(verif, d, name, f)
    return obs, notes

def expected_count(job, n): return job.get('min_harnesses', 1)

def replay(verif, d, name, f):
    """ask Kani for concrete values and run the harness natively on them"""
    h = f['name'].split('::', 1)[1]
    try:
        r = subprocess.run(['cargo', 'kani', '--harness', h, '--exact', '-Z', 'concrete-playback', '--concrete-playback=print'], cwd=d, env=env(verif, EXTRA.get(name, '')), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=180, errors='replace')
        m = re.search(r'#\[test\]\s*\n(fn (kani_concrete_playback_\w+).*?\n\})', r.stdout, re.S)
        if not m: return
        test, tname = m.group(1), m.group(2)
        vals = re.findall(r'//\s*(.*)', test)
        src = open(f'{verif}/kani/{name}.rs').read()
        path = h.split('::')
        pd = d + '_playback'
        os.makedirs(pd, exist_ok=True)
        call = re.search(r'kani::concrete_playback_run\((\w+),', test).group(1) if re.search(r'kani::concrete_playback_run\((\w+),', test) else None
        # harnesses are private to their module: make them reachable and call by path
        src = re.sub(r'#\[kani::proof\]((?:\s*#\[[^\]]*\])*)\s*fn ', r'#[kani::proof]\1 pub fn ', src)
        src = re.sub(r'\bmod (\$?\w+) \{', r'pub mod \1 {', src).replace('pub pub', 'pub')
        test = re.sub(r'kani::concrete_playback_run\(\w+', 'kani::concrete_playback_run(crate::' + '::'.join(path), test, count=1)
        open(pd + '/lib.rs', 'w').write(src + '\n#[cfg(test)]\nmod playback {\n#[test]\n' + test + '\n}\n')
        t = open(d + '/Cargo.toml').read().replace(f'path = "{verif}/kani/{name}.rs"', f'path = "{pd}/lib.rs"').replace('path = "vendor/', f'path = "{d}/vendor/')
        open(pd + '/Cargo.toml', 'w').write(t)
        shutil.copy(d + '/Cargo.lock', pd + '/Cargo.lock')
        p = subprocess.run(['cargo', 'kani', 'playback', '-Z', 'concrete-playback', '--', tname], cwd=pd, env=env(verif, EXTRA.get(name, '')), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240, errors='replace')
        if re.search(r'test .*' + tname + r' \.\.\. FAILED', p.stdout):
            pan = re.search(r'panicked at (.*?)\n(.*)', p.stdout)
            f['noinput'] = False
            f['detail'] += ' | counterexample replayed on the compiled code: ' + ', '.join(vals[:20]) + (f' -> panic at {pan.group(1)} {pan.group(2)}' if pan else '')
            f['output'] = f.get('output', '') + '\n' + test
    except Exception as ex:
        f['output'] = f.get('output', '') + f'\nreplay: {ex}'
