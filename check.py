#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current tree (see DESIGN.md)."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(ROOT, 'vcg'))
import props, prove, units
BUILD = prove.BUILD
GXX = ['g++', '-std=c++17', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-msse4.1', '-DMEOJSON_KEEP_FLOATING_PRECISION', '-DMEOJSON_FS_PATH_EXTENSION', '-I/repo/include', '-w']

def compile_harness(h, work):
    src = os.path.join(ROOT, 'harness', h + '.cpp'); out = os.path.join(work, h)
    err = ''
    for extra in ([], ['-DHX_PUBLIC_ONLY']):
        p = subprocess.run(GXX + extra + [src, '-o', out], capture_output=True, text=True)
        if p.returncode == 0: return out, ' '.join(extra)
        err = p.stderr[-1500:]
    return None, err

def run_harness(binp, h, seconds, seed, outdir, stop):
    os.makedirs(outdir, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1')
    p = subprocess.run([binp, '--seconds', str(seconds), '--seed', str(seed), '--workers', str(os.cpu_count() or 4), '--stop', stop, '--out', outdir], capture_output=True, env=env)
    txt = p.stdout.decode('utf-8', 'replace')
    fails = []; cases = distinct = 0
    for l in txt.splitlines():
        m = re.match(r'FAIL (\S+) (\S+) (.*)', l)
        if m: fails.append((m.group(1), m.group(2), m.group(3)))
        m = re.match(r'DONE cases=(\d+) distinct=(\d+)', l)
        if m: cases, distinct = int(m.group(1)), int(m.group(2))
    return fails, cases, distinct, p.returncode

def known(pid):
    """known findings that are not repaired: lines  known: property=<id> program=<harness> <what fails>"""
    out = []
    for l in open(os.path.join(ROOT, 'known-findings.txt')):
        m = re.match(r'known: property=(\S+) program=(\S+) (.*)', l.strip())
        if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def main():
    pid = sys.argv[1]; P = props.PROPS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick'); tier = 'thorough' if '--thorough' in sys.argv else tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = os.path.join(BUILD, 'run_%s_%d' % (pid, os.getpid())); os.makedirs(work, exist_ok=True)
    rep = os.path.join(ROOT, 'evidence', 'replay', pid); shutil.rmtree(rep, ignore_errors=True); os.makedirs(rep)
    try: return decide(pid, P, tier, seed, t0, work, rep)
    finally: shutil.rmtree(work, ignore_errors=True)

def decide(pid, P, tier, seed, t0, work, rep):
    ex = cf.ThreadPoolExecutor(8)
    hf = {h: ex.submit(compile_harness, h, work) for h in P.harnesses}
    kn = [(h, what, ex.submit(subprocess.run, ['g++', '-std=c++17', '-O0', '-w', '-I/repo/include', os.path.join(ROOT, 'harness', h + '.cpp'), '-o', os.path.join(work, h)], capture_output=True)) for h, what in known(pid)]
    own, base, undecided, res = [], [], [], {}
    tool_error = None
    try:
        if P.units: prove.build_tools()
    except Exception as e: tool_error = 'extractor does not build: %r' % e
    if not tool_error:
        for un, sel in P.units:
            try: R = prove.prove(units.UNITS[un], os.path.join(work, un), select=sel)
            except Exception as e:
                undecided.append((un, 'tool error: %r' % e)); continue
            res[un] = R
            undecided += R.undecided
            for o in R.obls: (own if P.own(o) else base).append(o)
            for fn, inst, why in R.vac_bad: undecided.append(('%s [%s]' % (fn, inst), 'vacuous: ' + why))
    else: undecided.append(('tools', tool_error))
    if P.units and not own and not tool_error: undecided.append((pid, 'no obligation of this property was generated'))
    own_fail = [o for o in own if o.status == 'fail']
    weak = [o for o in own if o.status in ('rlimit', 'error')] + [o for o in base if o.status != 'ok']
    proved = bool(P.units) and not own_fail and not weak and not undecided
    # ---- concrete runs: conformance of the assumed contracts; search for a failing input when the proof is not complete
    secs = {('quick', True): 6, ('quick', False): 90, ('thorough', True): 60, ('thorough', False): 300}[(tier, proved)]
    secs = secs if P.units else {'quick': 25, 'thorough': 240}[tier]
    fails = []; cases = distinct = 0; hnote = []
    for h in P.harnesses:
        b, note = hf[h].result()
        if b is None: hnote.append('%s does not compile against the current tree: %s' % (h, note[-400:])); continue
        if note: hnote.append('%s: public entry points only' % h)
        f, c, d, rc = run_harness(b, h, secs / len(P.harnesses), seed, os.path.join(rep, h), pid)
        fails += [(h,) + x for x in f]; cases += c; distinct += d
        if rc != 0: hnote.append('%s ended with status %s' % (h, rc))
    mine = [f for f in fails if f[1] == pid]
    others = sorted({f[1] for f in fails if f[1] != pid})
    lines = []
    def replay_file(name, txt):
        p = os.path.join(rep, name); open(p, 'w').write(txt); return p
    obl_txt = ''.join('%s\n    status: %s, back end %s\n    goal: %s\n%s\n' % (o.label(), o.status, o.backend, o.goal, '    ' + o.detail.replace('\n', '\n    ')[:3000]) for o in (own_fail + weak)[:30])
    violations = 0
    if mine:
        h, tag, path, msg = mine[0]
        p = replay_file('violation.txt', 'property %s: %s\nfailing case: %s\nagain: build %s with\n  %s\nand run it with --replay %s\n\nother failing cases:\n%s\nobligations not discharged:\n%s' % (
            pid, msg, path, h, ' '.join(GXX + [os.path.join(ROOT, 'harness', h + '.cpp')]), path, ''.join('  %s %s\n' % (x[2], x[3][:200]) for x in mine[1:10]), obl_txt))
        lines.append('VIOLATION property=%s replay=%s' % (pid, p)); violations = len(mine)
        print('%s: %s' % (pid, msg[:500]))
    elif own_fail and not others:
        p = replay_file('violation.txt', 'property %s: obligations that do not follow any more from the current sources (no failing input was found in %d concrete cases):\n\n%s' % (pid, cases, obl_txt))
        for o in own_fail[:5]: print('%s: failed obligation: %s' % (pid, o.label()[:300]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p)); violations = len(own_fail)
    elif own_fail:
        print('%s: %d obligations are not discharged; the failing inputs found violate %s, none violates %s in %d cases' % (pid, len(own_fail), ' '.join(others), pid, cases))
    kf = []
    for h, what, fut in kn:
        if fut.result().returncode != 0: continue
        r = subprocess.run([os.path.join(work, h)], capture_output=True)
        if r.returncode != 0: kf.append(what); print('KNOWN-FINDING: property=%s %s' % (pid, what))
    for x in undecided[:10]: print('%s: UNDECIDED %s: %s' % (pid, str(x[0])[:160], str(x[1])[:300]))
    for o in weak[:5]: print('%s: not discharged (%s): %s' % (pid, o.status, o.label()[:200]))
    for n in hnote: print('%s: note: %s' % (pid, n))
    # ---- evidence
    fns = [x for R in res.values() for x in R.fns]
    std = sorted({x for R in res.values() for x in R.std}); intr = sorted({x for R in res.values() for x in R.intr})
    allo = own + base
    by = {}
    for o in allo:
        if o.status == 'ok': by[o.backend] = by.get(o.backend, 0) + 1
    samples = [o.label() for o in own[:: max(1, len(own) // 6)]][:6]
    cov = {'obligations': len(allo), 'discharged': sum(1 for o in allo if o.status == 'ok'), 'obligations_stating_this_property': len(own),
           'discharged_by': by, 'trivially_true_obligations_not_counted': sum(R.trivial for R in res.values()),
           'functions_under_contract': len(fns), 'functions': sorted({'%s [%s]' % (x[0], x[1]) for x in fns}),
           'functions_inlined': sorted({x for R in res.values() for x in R.inlined}),
           'specification_lemmas_verified': sum((R.lib or (0, 0, 0))[1] for R in res.values()),
           'vacuity_probes': sum(R.vac for R in res.values()), 'solver_cpu_s': round(sum(R.cpu for R in res.values()), 1),
           'checker_cmd': 'python3 /verif/check.py %s  (verus 0.2026.09.13 / z3; z3 4.8.12 and cvc5 1.1.2 for bit-vector obligations)' % pid,
           'trusted_base': ['clang 18 front end and tools/cxxdump.cpp (extraction of the typed AST of /repo/include)', 'vcg/engine.py, vcg/stdlib.py (obligation generator)', 'Verus, Z3, cvc5',
                            'assumed contracts of library functions: ' + ', '.join(std)] + (['assumed contracts of intrinsics/builtins: ' + ', '.join(intr)] if intr else [])
                           + (['contracts taken as assumptions: ' + ', '.join(sorted({x for R in res.values() for x in R.trusted}))] if any(R.trusted for R in res.values()) else []),
           'undecided': ['%s: %s' % (str(x[0])[:200], str(x[1])[:300]) for x in undecided[:40]] + ['%s: %s' % (o.status, o.label()[:200]) for o in (own_fail + weak)[:40]],
           'evaluations': cases, 'distinct_nontrivial': distinct, 'rule': P.rule, 'samples': samples,
           'bounded_stand_in': (P.bounded or '') + ('' if proved or not P.units else ' The proof is incomplete on this tree: the concrete cases are the only (bounded) evidence for the undischarged part.')}
    level = P.level
    if level == 'other': cov['explanation'] = P.explanation
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': P.assumptions + props.COMMON_ASSUMPTIONS, 'wall_s': round(time.time() - t0, 1), 'violations': violations}
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    for l in lines: print(l)
    if not lines:
        shutil.rmtree(rep, ignore_errors=True)
        print('%s: %s: %d of %d obligations discharged (%d functions), %d concrete cases, %.0f s' % (pid, 'proved' if proved else 'no violation found', cov['discharged'], cov['obligations'], len(fns), cases, time.time() - t0))
    if not res and not cases and P.units:
        return 2
    return 1 if lines else 0

if __name__ == '__main__': sys.exit(main())
