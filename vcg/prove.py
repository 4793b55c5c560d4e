"""Runs a proof unit on /repo's current sources: extract, generate obligations, discharge them."""
import json, os, re, subprocess, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE); BUILD = os.path.join(ROOT, 'build')
sys.path.insert(0, HERE)
import sym, engine, stdlib, verus, bv, units

DUMP = os.path.join(BUILD, 'cxxdump')

def build_tools():
    src = os.path.join(ROOT, 'tools', 'cxxdump.cpp')
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(DUMP) and os.path.getmtime(DUMP) > os.path.getmtime(src): return
    fl = subprocess.run(['llvm-config-18', '--cxxflags'], capture_output=True, text=True).stdout.split()
    tmp = DUMP + '.%d' % os.getpid()
    subprocess.run(['g++', '-O1', '-fno-rtti'] + fl + [src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM.so.18.1'], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    os.replace(tmp, DUMP)

SAFETY = re.compile(r'^(no use of|no signed|divisor|shift amount|left shift|compared iter|iterator|iterated|no null|subtracted|string index|argument of|dereferenced|vector index|'
                    r'back\(\)|front\(\)|pop_back|erased|inserted|array index|character range|recursion into|loop \d+ terminates|the \d+ bytes that|both positions|some byte is set|bound of less|no exception is thrown)')

def kind(name): return 'safety' if SAFETY.match(name) else 'functional'

class O:   # one obligation and what became of it
    def __init__(s, fn, inst, name, line, status, backend, detail='', goal='', q='', pc=()):
        s.fn = fn; s.inst = inst; s.name = name; s.line = line; s.status = status; s.backend = backend; s.detail = detail; s.goal = goal; s.q = q; s.pc = pc
    @property
    def kind(s): return kind(s.name)
    def label(s): return '%s [%s] :: %s (line %s)' % (s.fn, s.inst, s.name, s.line)

class Result:
    def __init__(s):
        s.obls = []; s.undecided = []; s.fns = []; s.std = set(); s.external = set(); s.inlined = set(); s.vac = 0; s.vac_bad = []
        s.cpu = 0.0; s.wall = 0.0; s.lib = None; s.intr = set(); s.trivial = 0; s.trusted = set(); s.files = set()

def inst_name(f):
    a = f.get('cls', {}).get('a') or f.get('a') or []
    def one(x):
        if 'v' in x: return str(x['v'])
        n = x.get('n') or x.get('k') or '?'
        n = str(n).split('::')[-1]
        if x.get('a'): n += '<' + ','.join(one(y) for y in x['a'] if isinstance(y, dict)) + '>'
        return n
    s = ','.join(one(x) for x in a if isinstance(x, dict))
    pt = ','.join(one(sym_strip(x)) for x in f.get('pt', []))
    return (s + ' ' if s else '') + '(' + pt + ')'
def sym_strip(t):
    return engine.strip(t)

def extract(u, work):
    os.makedirs(work, exist_ok=True)
    out = os.path.join(work, u.name + '.json')
    drv = os.path.join(ROOT, 'drivers', u.driver)
    p = subprocess.run([DUMP, out, drv, '--'] + u.flags, capture_output=True, text=True)
    if p.returncode != 0 or not os.path.exists(out): return None, p.stderr[-3000:]
    return json.load(open(out)), ''

def prove(u, work, select=None, rlimit=30, want=None, log=None, probes=True, lib_check=True):
    """verify every function under contract in unit u; select(contract, f) can restrict"""
    t0 = time.time(); R = Result(); select = select or u.select
    d, err = extract(u, work)
    if d is None:
        R.undecided.append(('extraction', 'the sources do not compile under the extractor: ' + err)); return R
    cs = u.mod.contracts_of(d) if u.mod else u.contracts
    eng = engine.Engine(d, cs, stdlib.Std())
    if u.mod: u.mod.setup_engine(eng, d)
    lib = verus.SpecLib(u.files, u.groups, dump=d)
    items = []; pitems = []; info = {}; probe = {}
    matched = set(); done_q = set()
    for c in cs:
        if hasattr(c, 'external') or c.trusted:
            continue
        for f in d['funcs']:
            if f['id'] not in done_q and not c.matches(f): continue
            if not c.matches(f): continue
            matched.add(id(c))
            if 'body' not in f or (select and not select(c, f)): continue
            if want and f['q'].split('::')[-1] not in want: continue
            inst = inst_name(f)
            for alias in [None] + list(c.aliases):
                try:
                    r = eng.verify(f, c) if alias is None else eng.verify(f, c, alias)
                except sym.Unsupported as e:
                    R.undecided.append((c.name + ' [' + inst + ']', 'not within the verified subset: %s (line %s)' % (str(e)[:300], eng.line))); continue
                except RecursionError:
                    R.undecided.append((c.name + ' [' + inst + ']', 'recursion without a contract')); continue
                except Exception as e:
                    R.undecided.append((c.name + ' [' + inst + ']', 'tool error: ' + ''.join(traceback.format_exception(e))[-600:])); continue
                R.fns.append((r['fn'], inst, len(r['obls']), f.get('file'), f.get('line')))
                if log: log('%s [%s] %d obligations' % (r['fn'], inst, len(r['obls'])))
                for o in r['obls']:
                    n = 'o%d' % len(items); items.append((n, o, r['decl'])); info[n] = (r['fn'], inst, o, f['q'])
                # vacuity: some way out of the function must be reachable
                if probes:
                    ends = sorted(r['ends'], key=lambda x: (isinstance(x[1], engine.Throw), len(x[0])))
                    m = len(ends); ps = []
                    for k, (pc, how) in enumerate(ends[j] for j in sorted({0, m // 4, m // 2, 3 * m // 4, m - 1}) if j < m):
                        n = 'p%d_%d' % (len(probe), k)
                        pitems.append((n, engine.Obl(r['fn'], 'probe', pc, 'false', 0, []), r['decl'])); ps.append(n)
                    if ps: probe[(r['fn'], inst, len(probe))] = ps
                    else: R.vac_bad.append((r['fn'], inst, 'no way out of the function was explored'))
    for fn, inst, o, decl in (u.mod.extra(eng, d) if u.mod and not want else []):
        n = 'o%d' % len(items); items.append((n, o, decl)); info[n] = (fn, inst, o, fn)
    for c in cs:
        if id(c) not in matched and not hasattr(c, 'external') and not c.trusted and not getattr(c, 'optional', False) and not want and not (select and not select(c, None)):
            R.undecided.append((c.name, 'no function under this contract was found in the sources'))
    R.std = set(eng.used_std); R.inlined = set(eng.inlined); R.trivial = getattr(eng, 'trivial', 0)
    names = {c.name: c for c in cs}
    R.trusted = {n for n in eng.used_contracts if n in names and names[n].trusted}
    if items:
        res, det, cpu, wall = verus.check(lib, items, os.path.join(work, 'vc_' + u.name), rlimit=rlimit)
        R.cpu += cpu
        for n, (fn, inst, o, q) in info.items():
            R.obls.append(O(fn, inst, o.name, o.line, res[n], 'verus/z3', det.get(n, ''), o.goal, q, o.pc))
        pres, _, cpu, _ = verus.check(lib, pitems, os.path.join(work, 'pr_' + u.name), rlimit=1, retries=0)
        R.cpu += cpu; res.update(pres)
        for k, ps in probe.items():
            R.vac += len(ps)
            if all(res[p] == 'ok' for p in ps): R.vac_bad.append((k[0], k[1], 'every way out is unreachable under the preconditions'))
        if lib_check:
            ok, vr, r = verus.check_lib(lib, os.path.join(work, 'lib_' + u.name))
            R.lib = (ok, vr.get('verified', 0), vr.get('errors', 0)); R.cpu += r['wall']
            if not ok: R.undecided.append(('specification library', 'lemmas were not accepted: %r' % (vr,)))
    if u.bv:
        rs, uns, used, fns = bv.run(d, os.path.join(work, 'bv_' + u.name))
        R.intr |= set(used)
        for fn, what, line, st, model, secs, solver in rs:
            R.obls.append(O(fn, 'bit-vectors', what, line, st, solver, model, '', fn)); R.cpu += secs
        for x in uns: R.undecided.append((str(x[0]) if isinstance(x, (tuple, list)) else str(x), 'bit-vector back end: %s' % (x,)))
        R.fns += [(x, 'bit-vectors', sum(1 for r in rs if r[0] == x), None, None) for x in fns]
    R.wall = time.time() - t0
    return R

if __name__ == '__main__':
    build_tools()
    u = units.UNITS[sys.argv[1]]
    R = prove(u, os.path.join(BUILD, 'work'), want=set(sys.argv[2:]) or None, log=print if sys.argv[2:] else None, lib_check=not sys.argv[2:])
    from collections import Counter
    print(Counter(o.status for o in R.obls), 'functions', len(R.fns), 'wall %.1f cpu %.1f' % (R.wall, R.cpu), 'lib', R.lib, 'probes', R.vac, R.vac_bad[:5])
    for x in R.undecided: print('UNDECIDED', str(x[0])[:160], str(x[1])[:600])
    k = 0
    for o in R.obls:
        if o.status != 'ok':
            k += 1
            if k <= int(os.environ.get('SHOW', '12')): print('-----', o.status, o.label()[:200]); print('   GOAL', o.goal[:400]); print('  ', o.detail[:600] if o.status == 'error' else '')
