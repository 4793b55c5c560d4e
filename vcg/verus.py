"""Emits obligations as Verus proof functions and runs Verus on them (in parallel processes)."""
import json, os, re, subprocess, time, concurrent.futures as cf

VERUS = os.environ.get('VERUS', 'verus')
SYM = re.compile(r'\bv\d+_[A-Za-z0-9_]+')
HERE = os.path.dirname(os.path.abspath(__file__))
NPROC = int(os.environ.get('VERIF_JOBS', '8'))

class SpecLib:
    """specification files (vcg/spec/*.rs) and the broadcast groups that obligations use"""
    def __init__(self, files, groups, extra='', dump=None):
        self.dump = dump; self.files = list(files); self.groups = list(groups); self.extra = extra
    def text(self):
        # one module per file: verus keeps only what a module needs, and checks modules in parallel
        body = ''
        use = '#[allow(unused_imports)] use vstd::prelude::*; use vstd::seq::*; use vstd::map::*; use vstd::set::*; use vstd::pervasive::*;'
        for i, f in enumerate(self.files):
            # a generated part is a function that returns its text
            body += 'pub mod m%d { %s use super::*;\n' % (i, use)
            body += (f(self.dump) if f.__code__.co_argcount else f()) + '\n' if callable(f) else '// ---- %s\n' % f + open(os.path.join(HERE, 'spec', f)).read() + '\n'
            body += '}\npub use m%d::*;\n' % i
        return 'pub mod sp {\n%s\n' % use + body + self.extra + '\n}\n'

HEAD = '#![allow(unused_imports, unused_parens, non_snake_case, unused_variables, dead_code, unused_braces)]\nuse vstd::prelude::*;\nfn main() {}\nverus! {\n'

def fn_text(name, o, decl):
    used = []
    seen = set()
    hints = []
    for h in o.hints:
        if h: hints.append(h)
    for t in list(o.pc) + [o.goal] + hints:
        for m in SYM.findall(t):
            if m not in seen and m in decl: seen.add(m); used.append(m)
    params = ', '.join('%s: %s' % (u, decl[u]) for u in used)
    lines = ['proof fn %s(%s)' % (name, params)]
    if o.pc:
        lines.append('  requires')
        for p in o.pc: lines.append('    %s,' % p)
    lines.append('{')
    for h in hints: lines.append('  ' + (h if h.rstrip().endswith((';', '}')) else h + ';'))
    lines.append('  assert(%s);' % o.goal)
    lines.append('}')
    return lines

def canon(o, decl):
    """text of an obligation up to the names of its symbols"""
    names = {}
    def rn(m):
        x = m.group(0)
        if x not in decl: return x
        if x not in names: names[x] = 'v%d' % len(names)
        return names[x] + ':' + decl[x]
    return SYM.sub(rn, '\n'.join(list(o.pc) + ['|-', o.goal] + [h for h in o.hints if h]))

def build(lib, items):
    """items: [(name, obl, decl)] -> (text, [(first line, last line, name)])"""
    text = HEAD + lib.text()
    pre = 'mod vc {\nuse vstd::prelude::*; use vstd::seq::*; use vstd::map::*; use vstd::set::*; use vstd::pervasive::*;\nuse super::sp::*;\n'
    if lib.groups: pre += 'broadcast use {%s};\n' % ', '.join(lib.groups)
    text += pre
    n = text.count('\n') + 1
    spans = []; out = []
    for name, o, decl in items:
        ls = fn_text(name, o, decl)
        ls = [x for l in ls for x in l.split('\n')]
        spans.append((n, n + len(ls) - 1, name)); n += len(ls)
        out.extend(ls)
    text += '\n'.join(out) + '\n}\n}\n'
    return text, spans

def run_verus(path, module, rlimit, timeout, extra=(), threads=1):
    t = time.time()
    cmd = [VERUS, path] + (module if isinstance(module, list) else ['--verify-only-module', module]) + ['--rlimit', str(rlimit), '--num-threads', str(threads), '--triggers-mode', 'silent', '--output-json', '--error-format=json'] + list(extra)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True)
    except subprocess.TimeoutExpired:
        return {'timeout': True, 'diags': [], 'json': None, 'wall': time.time() - t, 'rc': None, 'cmd': cmd}
    diags = []
    for l in p.stderr.splitlines():
        l = l.strip()
        if l.startswith('{'):
            try: diags.append(json.loads(l))
            except ValueError: pass
    js = None
    i = p.stdout.find('{')
    if i >= 0:
        try: js = json.loads(p.stdout[i:])
        except ValueError: pass
    return {'timeout': False, 'diags': diags, 'json': js, 'wall': time.time() - t, 'rc': p.returncode, 'cmd': cmd, 'stderr': p.stderr}

def classify(msg):
    m = msg.lower()
    if 'rlimit' in m or 'resource limit' in m: return 'rlimit'
    return 'fail'

def check_file(args):
    lib, items, path, rlimit, timeout = args[:5]
    extra = args[5] if len(args) > 5 else ()
    res = {}
    detail = {}
    items = list(items)
    solver = 0.0
    for rnd in range(6):
        text, spans = build(lib, items)
        open(path, 'w').write(text)
        r = run_verus(path, 'vc', rlimit, timeout, extra)
        if r['timeout']:
            if len(items) > 1:
                h = len(items) // 2
                for part in (items[:h], items[h:]):
                    a, b, c_ = check_file((lib, part, path, rlimit, timeout, extra))
                    res.update(a); detail.update(b); solver += c_
                return res, detail, solver
            res[items[0][0]] = 'rlimit'; detail[items[0][0]] = 'verus timed out'
            return res, detail, solver
        js = r['json']
        solver += r['wall']
        vr = (js or {}).get('verification-results', {})
        errs = [d for d in r['diags'] if d.get('level') == 'error']
        hit = {}
        loose = []
        for d in errs:
            lines = [s['line_start'] for s in d.get('spans', []) if s.get('is_primary')] or [s['line_start'] for s in d.get('spans', [])]
            nm = None
            for ln in lines:
                for a, b, name in spans:
                    if a <= ln <= b: nm = name
            if nm: hit.setdefault(nm, []).append(d)
            elif d.get('spans') or 'aborting' not in d.get('message', ''): loose.append(d)
        if vr.get('encountered-vir-error') or 'verified' not in vr or (r['rc'] not in (0, 1)) or (vr.get('verified', 0) + vr.get('errors', 0) == 0 and errs):
            # a term that does not type-check: a tool error for that obligation; drop it and go on
            if not hit: 
                for nm, _, _ in items: res[nm] = 'error'; detail[nm] = (loose or [{'rendered': r.get('stderr', '')[-2000:]}])[0].get('rendered', '')
                return res, detail, solver
            for nm, ds in hit.items(): res[nm] = 'error'; detail[nm] = ds[0].get('rendered', '')
            items = [x for x in items if x[0] not in hit]
            if not items: return res, detail, solver
            continue
        for nm, _, _ in items:
            if nm in hit:
                kinds = [classify(d['message']) for d in hit[nm]]
                res[nm] = 'rlimit' if 'rlimit' in kinds else 'fail'
                detail[nm] = '\n'.join(d.get('rendered', d['message']) for d in hit[nm])
            else: res[nm] = 'ok'
        # every function must be accounted for
        if vr.get('verified', 0) + vr.get('errors', 0) < len(items):
            for nm, _, _ in items:
                if res.get(nm) == 'ok': res[nm] = 'error'; detail[nm] = 'verus checked fewer functions than were given to it: %r' % vr
        return res, detail, solver
    for nm, _, _ in items: res.setdefault(nm, 'error')
    return res, detail, solver

def check(lib, items, work, rlimit=30, timeout=600, nproc=None, retries=3):
    """-> ({name: status}, {name: detail}, cpu seconds, wall)"""
    os.makedirs(work, exist_ok=True)
    t = time.time()
    nproc = nproc or NPROC
    if not items: return {}, {}, 0.0, 0.0
    rep = {}; same = {}; uniq = []
    for it in items:
        k = canon(it[1], it[2])
        if k in rep: same[it[0]] = rep[k]
        else: rep[k] = it[0]; uniq.append(it)
    items = uniq
    k = max(1, min(nproc * 2, (len(items) + 19) // 20))
    parts = [items[i::k] for i in range(k)]
    jobs = [(lib, p, os.path.join(work, 'o%d.rs' % i), rlimit, timeout) for i, p in enumerate(parts) if p]
    res, det, cpu = {}, {}, 0.0
    with cf.ThreadPoolExecutor(nproc) as ex:
        for a, b, c in ex.map(check_file, jobs):
            res.update(a); det.update(b); cpu += c
    # resource limit: try again alone, with other random seeds (an answer is an answer whatever the seed)
    again = [it for it in items if res.get(it[0]) == 'rlimit']
    if again and retries:
        jobs2 = [(lib, [it], os.path.join(work, 'r%d_%d.rs' % (i, k)), rlimit * 2, timeout, ('--smt-option', 'smt.random_seed=%d' % (17 * k + 3)))
                 for i, it in enumerate(again[:60]) for k in range(retries)]
        with cf.ThreadPoolExecutor(nproc) as ex:
            for job, (a, b, c) in zip(jobs2, ex.map(check_file, jobs2)):
                n = job[1][0][0]; cpu += c
                if a.get(n) == 'ok': res[n] = 'ok'
                elif a.get(n) == 'fail' and res[n] != 'ok': res[n] = 'fail'; det[n] = b.get(n, '')
    for n, r in same.items():
        res[n] = res[r]
        if r in det: det[n] = det[r]
    return res, det, cpu, time.time() - t

def check_lib(lib, work, rlimit=60, timeout=600):
    os.makedirs(work, exist_ok=True)
    path = os.path.join(work, 'lib.rs')
    open(path, 'w').write(HEAD + lib.text() + '}\n')
    r = run_verus(path, [m for i in range(len(lib.files)) for m in ('--verify-only-module', 'sp::m%d' % i)], rlimit, timeout, threads=NPROC)
    vr = ((r['json'] or {}).get('verification-results') or {})
    ok = (not r['timeout']) and vr.get('success') is True
    return ok, vr, r
