"""Verus back end: functions are copied out of /repo's current source on every run, contracts and loop
invariants are attached at stated anchors, and Verus discharges every obligation.

Template directives (in verus/<name>.rs):
  //@ each a b | x1 y1 | x2 y2        repeat the following block with $a, $b replaced
  //@ done
  //@ include FILE                    text of verus/FILE
  //@ extract FILE fn|struct|enum NAME [in "IMPL HEADER"] [via MACRO]
                                      via: the function is one of those an invocation of MACRO expands to
  //@ re "REGEX" => "TEXT"            must match exactly once in the extracted text, else the anchor is lost
  //@ all "REGEX" => "TEXT"           any number of matches
  //@ end
The extraction drops comments and attributes; everything else is the text of /repo except for the listed rules.
A lost anchor or text that Verus cannot read gives no verdict for that function (undecided), never an alarm: its
contract is then assumed by the others, whose obligations are still decided, and the run says so.
"""
import json, os, re, subprocess, time

class Lost(Exception): pass

def strip(s):
    """without comments and attributes"""
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if s.startswith('//', i):
            j = s.find('\n', i); i = n if j < 0 else j
        elif s.startswith('/*', i):
            j = s.find('*/', i); i = n if j < 0 else j + 2
        elif c == '"':
            j = i + 1
            while j < n and s[j] != '"': j += 2 if s[j] == '\\' else 1
            out.append(s[i:j + 1]); i = j + 1
        elif s.startswith('#[', i) or s.startswith('#![', i):
            d, j = 0, s.index('[', i)
            while True:
                if s[j] == '[': d += 1
                if s[j] == ']':
                    d -= 1
                    if d == 0: break
                j += 1
            i = j + 1
        else:
            out.append(c); i += 1
    return ''.join(out)

def block(s, i):
    b = s.index('{', i); d = 0
    for j in range(b, len(s)):
        if s[j] == '{': d += 1
        if s[j] == '}':
            d -= 1
            if d == 0: return j + 1
    raise Lost('unbalanced braces')

def expand(s, macro):
    """the items produced by the invocations of a macro of the form ($([$a:ident, ...]),*) => { $( BODY )* };"""
    m = re.search(r'macro_rules!\s*' + macro + r'\s*\{', s)
    if not m: raise Lost(f'no macro {macro}')
    d = s[m.start():block(s, m.start())]
    h = re.search(r'\{\s*\(\$\(\[(.*?)\]\),\*\)\s*=>\s*\{\s*\$\((.*)\)\*\s*\};?\s*\}\s*$', d, re.S)
    if not h: raise Lost(f'macro {macro} is not a list of rows')
    keys = re.findall(r'\$(\w+):ident', h.group(1))
    o = ''
    for inv in re.finditer(r'(?<!rules! )\b' + macro + r'!\((.*?)\);', s, re.S):
        for row in re.findall(r'\[(.*?)\]', inv.group(1), re.S):
            v = [x.strip() for x in row.split(',') if x.strip()]
            if len(v) != len(keys): raise Lost(f'rows of {macro}')
            b = h.group(2)
            for k, x in zip(keys, v): b = re.sub(r'\$' + k + r'\b', x, b)
            o += b
    return o

def extract(src, name, impl, kind='fn', via=None):
    s = strip(src)
    if via: s = expand(s, via)
    if impl:
        pat = r'\s*'.join(re.escape(t) for t in re.findall(r'\w+|[^\w\s]', impl)) + r'\s*(?:where[^{]*)?\{'
        ms = [m for m in re.finditer(pat, s)]
        hit = []
        for m in ms:
            body = s[m.start():block(s, m.start())]
            if re.search(r'\bfn ' + name + r'\b', body): hit.append(body)
        if len(hit) != 1: raise Lost(f'{len(hit)} blocks "{impl}" with fn {name}')
        s = hit[0]
    ms = list(re.finditer(r'\b(?:pub(?:\([a-z]+\))? )?(?:async )?' + kind + ' ' + name + r'\b', s))
    if len(ms) != 1: raise Lost(f'{len(ms)} items {kind} {name}')
    t = s[ms[0].start():block(s, ms[0].start())]
    return re.sub(r'\n\s*\n+', '\n', t)

def generate(verif, repo, name, stubs={}):
    t = open(f'{verif}/verus/{name}.rs').read()
    t = re.sub(r'//@ include (\S+)\n', lambda m: open(f'{verif}/verus/{m.group(1)}').read(), t)
    def each(m):
        keys = m.group(1).split()
        rows = m.group(2).split('|')[1:]
        o = ''
        for r in rows:
            v = r.split()
            b = m.group(3)
            for k, x in zip(keys, v): b = re.sub(r'\$' + k + r'\b', x, b)
            o += b
        return o
    t = re.sub(r'//@ each ([^|\n]*)(\|[^\n]*)\n(.*?)//@ done\n', each, t, flags=re.S)
    fns, lost = [], []
    count = [0]
    def ext(m):
        path, kind, fn, impl, via, rules = m.groups()
        count[0] += 1
        k = count[0]
        what = f'{path} {impl + " " if impl else ""}{kind} {fn}'
        rs = re.findall(r'//@ (re|all) "((?:[^"\\]|\\.)*)" => "((?:[^"\\]|\\.)*)"', rules)
        un = lambda to: to.replace('\\n', '\n').replace('\\"', '"')
        try:
            if k in stubs: raise Lost(stubs[k])
            x = extract(open(f'{repo}/{path}').read(), fn, impl, kind, via)
            for how, pat, to in rs:
                to = un(to)
                x, c = re.subn(pat.replace('\\"', '"'), lambda mm: re.sub(r'\\(\d)', lambda g: mm.group(int(g.group(1))), to), x, flags=re.S)
                if how == 're' and c != 1: raise Lost(f'anchor {pat!r} found {c} times')
            fns.append(what)
        except (Lost, FileNotFoundError) as ex:
            # the contract stays, so that the other functions are still decided
            h = un(rs[0][2]) if kind == 'fn' and rs and r'\bfn' in rs[0][1] else ''
            d, e = 0, -1
            for p, c in enumerate(h):
                if c in '([': d += 1
                if c in ')]': d -= 1
                if c == '{' and d == 0: e = p; break
            if e < 0 or re.search(r'\\\d', h[:e]): raise Lost(f'{what}: {ex}')
            lost.append((what, str(ex)))
            x = '#[verifier::external_body] ' + h[:e] + '{ unimplemented!() }'
        return f'// from {path} #{k}\n' + x + f'\n// end #{k}\n'
    t = re.sub(r'//@ extract (\S+) (fn|struct|enum) (\w+)(?: in "([^"]*)")?(?: via (\w+))?\n((?://@ (?:re|all)[^\n]*\n)*)//@ end\n', ext, t)
    if '//@' in t: raise Lost('template directive left over: ' + t[t.index('//@'):][:100])
    return t, fns, lost

def run(verif, repo, build, pid, spec, tier):
    obs, notes = [], []
    for job in (spec if isinstance(spec, list) else [spec]):
        o, n = run1(verif, repo, build, pid, job, tier)
        obs += o; notes += n
    return obs, notes

def run1(verif, repo, build, pid, job, tier):
    name = job['name']
    base = dict(kind='proved', scope=job.get('scope', 'all inputs, all iterations'), backend='Verus/Z3', noinput=True)
    d = os.path.join(build, 'verus'); os.makedirs(d, exist_ok=True)
    p = f'{d}/{name}.rs'
    e = dict(os.environ); e.pop('RUSTUP_TOOLCHAIN', None); e.pop('RUSTFLAGS', None)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    cmd = ['verus', p, '--output-json', '--time-expanded', '--multiple-errors', '5', '--triggers-mode', 'silent', '--num-threads', '4', '--rlimit', str(job.get('rlimit', 60))]
    stubs = {}
    t0 = time.time()
    while True:
        try: t, fns, lost = generate(verif, repo, name, stubs)
        except (Lost, FileNotFoundError, ValueError, IndexError) as ex:
            return [dict(base, name=f'Verus {name}', status='undecided', detail=f'the functions could not be extracted: {ex}', ms=0)], []
        open(p, 'w').write(t)
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=job.get('timeout', 500))
        except subprocess.TimeoutExpired:
            return [dict(base, name=f'Verus {name}', status='undecided', detail='time limit', ms=int(1000 * (time.time() - t0)))], []
        try: j = json.loads(r.stdout[r.stdout.index('{'):])
        except ValueError: j = {}
        vr = j.get('verification-results', {})
        n, bad = vr.get('verified', 0), vr.get('errors', 0)
        if not (vr.get('encountered-vir-error') or (not vr.get('success') and not bad)): break
        # text that Verus does not read: set that function aside and decide the others
        lines = t.split('\n'); new = False
        why = (re.findall(r'error[^\n]*', r.stderr) or [''])[0][:200]
        for ln in re.findall(r'-->\s*[^\n]*' + re.escape(name) + r'\.rs:(\d+)', r.stderr):
            k = None
            for q in range(min(int(ln), len(lines)) - 1, -1, -1):
                if lines[q].startswith('// end #'): break
                mm = re.match(r'// from \S+ #(\d+)$', lines[q])
                if mm: k = int(mm.group(1)); break
            if k and k not in stubs: stubs[k] = 'outside what Verus reads: ' + why; new = True
        if not new or len(stubs) > 12 or time.time() - t0 > 240:
            return [dict(base, name=f'Verus {name}', status='undecided', detail='the extracted text is outside what Verus reads: ' + why, ms=int(1000 * (time.time() - t0)))], [f'Verus {name}: {r.stderr[:600]}']
    ms = int(1000 * (time.time() - t0))
    obs = []
    # per function
    per = {}
    for m in (j.get('times-ms', {}).get('smt', {}) or {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []): per[f['function']] = f
    for f, x in per.items():
        obs.append(dict(base, name=f'Verus {name}::{f.split("::", 1)[-1]}', status='ok' if x.get('success', True) else 'fail', detail='', ms=int(x.get('time', 0)), verus=1))
    if not obs:
        obs = [dict(base, name=f'Verus {name}', status='ok' if not bad else 'fail', detail='', ms=ms, verus=n)]
    for what, why in lost:
        obs.append(dict(base, name=f'Verus {name}: contract of {what}', status='undecided', detail=f'assumed by its callers, not decided: {why}', ms=0))
    errs = re.split(r'\n(?=error)', r.stderr)
    for o in obs:
        if o['status'] == 'fail':
            o['detail'] = 'contract not discharged: ' + ' | '.join(x.strip()[:300] for x in errs if x.startswith('error') and 'aborting' not in x)[:900]
            o['output'] = r.stderr[:6000]
            if re.search(r'rlimit|resource limit', r.stderr, re.I): o['status'] = 'undecided'
    return obs, ['Verus %s: extracted %s; %d functions verified, %d not' % (name, ', '.join(sorted(set(fns))), n, bad)]
