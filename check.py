#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's working tree.

1. The verifier (bin/gov, built from tool/) generates the obligations of every
   function under contract for the property from the current source and has
   the solvers discharge them.
2. The replay harness (harness/) runs the real code against the executable
   specification: it searches for a failing input, seeded with the solver's
   counterexamples and the literals of the code, and it is the labelled bounded
   stand-in for what is not under contract.

Exit 0: every obligation discharged and no failing input found. Exit 1: a line
VIOLATION property=ID replay=FILE, with no-failing-input-found at its end when
only an obligation failed.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'scripts'))
import propinfo

def sh(cmd, timeout, env=None, cwd=None, stop=None):
    """Run cmd in its own process group; returns (rc, output)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True)
    end = time.time() + timeout
    try:
        while True:
            try:
                out, _ = p.communicate(timeout=max(0.1, min(2, end - time.time())) if stop else timeout)
                break
            except subprocess.TimeoutExpired:
                if time.time() >= end or (stop and stop()): raise
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        out, _ = p.communicate()
        rc = -9
    return rc, out.decode('utf-8', 'replace')

def build_gov():
    gov = os.path.join(V, 'bin', 'gov')
    src = [os.path.join(V, 'tool', f) for f in os.listdir(os.path.join(V, 'tool')) if f.endswith('.go')]
    if os.path.exists(gov) and all(os.path.getmtime(f) <= os.path.getmtime(gov) for f in src):
        return gov
    os.makedirs(os.path.join(V, 'bin'), exist_ok=True)
    tmp = gov + '.%d' % os.getpid()
    rc, out = sh(['go', 'build', '-mod=vendor', '-o', tmp, '.'], 600, cwd=os.path.join(V, 'tool'))
    if rc != 0:
        print('cannot build the verifier:\n' + out)
        sys.exit(2)
    os.replace(tmp, gov)
    return gov

class Harness:
    """The replay harness for one property."""
    def __init__(self, prop, info, tmp):
        self.prop, self.info, self.tmp = prop, info, tmp
        self.cases = self.nontriv = 0
        self.samples, self.found, self.broken = [], None, None
        self.runs = 0
        self.lock = threading.Lock()
        self.seen = set()
    def build(self):
        args = ['bash', os.path.join(V, 'scripts', 'hbuild.sh'), os.path.join(self.tmp, 'hb')] + self.info['files']
        env = dict(os.environ)
        if self.info.get('race'): env['HRACE'] = '1'
        rc, out = sh(args, 600, env=env)
        if rc != 0:
            self.broken = out
            return False
        return True
    def one(self, seed, ms, strs):
        env = dict(os.environ, H_SEED=str(seed), H_MS=str(ms), H_STRS='\x01'.join(s for s in strs if '\x00' not in s and '\x01' not in s), TMPDIR=self.tmp)
        rc, out = sh([os.path.join(self.tmp, 'hb', 'h.test'), '-test.run', '^Test%s$' % self.prop, '-test.timeout', '%ds' % (ms // 1000 * 4 + 120)], ms / 1000 * 4 + 150, env=env, cwd=self.tmp)
        found = None
        m = re.search(r'^FOUND (.*)$', out, re.M)
        if m: found = m.group(1)
        elif rc != 0: found = 'the run ended badly (exit %d): %s' % (rc, out[-3000:])
        with self.lock:
            self.runs += 1
            m = re.search(r'^HSTATS cases=(\d+) nontrivial=(\d+)', out, re.M)
            if m:
                self.cases += int(m.group(1)); self.nontriv += int(m.group(2))
            for s in re.findall(r'^HSAMPLE (.*)$', out, re.M):
                if len(self.samples) < 6 and s not in self.seen:
                    self.seen.add(s); self.samples.append(s[:500])
        return found
    def search(self, seeds, ms, strs, par):
        """Run several seeds; a finding counts when the same seed shows it again."""
        if self.broken is not None or self.found: return
        hit = []
        with cf.ThreadPoolExecutor(par) as ex:
            futs = {ex.submit(self.one, s, ms, strs): s for s in seeds}
            for f in cf.as_completed(futs):
                if f.result(): hit.append((futs[f], f.result()))
        for seed, what in hit[:3]:
            for _ in range(2):
                again = self.one(seed, 2 * ms + 10000, strs)
                if again:
                    self.found = {'seed': seed, 'ms': 2 * ms + 10000, 'what': again, 'strs': strs}
                    return

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    info = propinfo.INFO[prop]
    t0 = time.time()
    quick = tier != 'thorough'
    gov = build_gov()
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        return run(prop, tier, seed, info, t0, quick, gov, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def run(prop, tier, seed, info, t0, quick, gov, tmp):
    deadline = t0 + (600 if quick else 3000)
    H = Harness(prop, info, tmp)
    lst = os.path.join(tmp, 'list.json')
    rc, out = sh([gov, '-list', lst], 300)
    load_err = None
    L = {'Roots': [], 'Trusted': [], 'Dropped': [], 'Strings': []}
    if rc != 0: load_err = out
    else: L = json.load(open(lst))
    roots = [r for r in (L['Roots'] or []) if prop in (r['Props'] or [])]
    lits = [s for s in (L['Strings'] or []) if s]
    hseeds = [seed * 1000 + i for i in range(info.get('procs', 3) if quick else 8)]
    hms = info.get('ms', 8000) if quick else 120000
    def harness():
        if H.build():
            H.search(hseeds, hms, lits, len(hseeds))
    ht = threading.Thread(target=harness); ht.start()

    def solve(r, j, ms, cand):
        f = os.path.join(tmp, 'r%d.json' % abs(hash((r['Name'], ms))))
        rc, out = sh([gov, '-root', r['Name'], '-prop', prop, '-json', f, '-j', str(j), '-ms', str(ms), '-cand', str(cand)], max(30, deadline - time.time()), stop=lambda: H.found and time.time() > t0 + 60)
        if rc == -9 and H.found:
            return {'Name': r['Name'], 'File': r.get('File', ''), 'Obligs': []}
        if rc != 0:
            return {'Name': r['Name'], 'File': r.get('File', ''), 'Crash': 'verifier ended with %d: %s' % (rc, out[-2000:]), 'Obligs': []}
        return json.load(open(f))
    def fails(res):
        o = []
        if res.get('Bad'): o.append(('contract does not fit: ' + res['Bad'], None))
        if res.get('Crash'): o.append(('verifier cannot handle it: ' + res['Crash'], None))
        for u in res.get('Unsupported') or []: o.append(('outside the verified subset: ' + u, None))
        for x in res.get('Obligs') or []:
            if x['Result'] != 'unsat': o.append(('%s (%s, %s)' % (x['Name'], x['Kind'], x['Pos']), x))
        if res.get('Vacuous') == 'unsat': o.append(('the contract is vacuous: no execution satisfies its assumptions', None))
        return o
    results = {}
    def solve_all(rs, par, j, ms, cand):
        with cf.ThreadPoolExecutor(par) as ex:
            for res in ex.map(lambda r: solve(r, j, ms, cand), rs):
                results[res['Name']] = res
    ms = 8000 if quick else 30000
    solve_all(roots, 4, 3, ms, 2000)
    ht.join()
    bad = [r for r in roots if fails(results[r['Name']])]
    # A slow machine must not look like a broken proof: more time for what the solvers gave up on.
    if bad and not H.found:
        # (a loop invariant given up on can also make a later obligation refutable)
        again = [r for r in bad if any(x for _, x in fails(results[r['Name']]))]
        if again and time.time() < deadline - 60:
            solve_all(again, 1, 8, 4 * ms, 8000)
        bad = [r for r in roots if fails(results[r['Name']])]
    if (bad or load_err or H.broken is not None) and not H.found:
        strs = [s for r in bad for _, x in fails(results[r['Name']]) if x for s in (x.get('Model') or [])]
        if strs: print('counterexample strings for replay: %r' % strs[:20])
        left = deadline - time.time()
        if left > 60:
            H.search([seed * 1000 + 100 + i for i in range(8)], int(min(30000, left * 250)) if quick else 120000, (strs * 3 + lits)[:400], 8)

    viol = None
    os.makedirs(os.path.join(V, 'evidence', 'replay'), exist_ok=True)
    rep = os.path.join(V, 'evidence', 'replay', prop + '.txt')
    if os.path.exists(rep): os.unlink(rep)
    ftext = ''
    nfail = 0
    for r in roots:
        for what, x in fails(results[r['Name']]):
            nfail += 1
            ftext += 'FAILED obligation in %s (%s): %s\n' % (r['Name'], results[r['Name']].get('File', ''), what)
            if x:
                ftext += '  solver answer: %s (%s, %d ms)\n' % (x['Result'], x['Solver'], x['MS'])
                if x.get('Query'): ftext += '  query (SMT-LIB):\n' + x['Query'][:60000] + '\n'
    if load_err:
        nfail += 1
        ftext += 'FAILED: the contracts no longer load against this source:\n' + load_err
    if not roots and not load_err and info['level'] == 'proof':
        nfail += 1
        ftext += 'FAILED: no function is under contract for this property\n'
    if H.broken is not None and (info['level'] != 'proof' or nfail):
        nfail += 1
        ftext += 'FAILED: the replay harness no longer builds against this source:\n' + H.broken[:20000] + '\n'
    if H.found:
        viol = 'VIOLATION property=%s replay=%s' % (prop, rep)
        with open(rep, 'w') as f:
            f.write('property %s: the real code fails on this input\n\n%s\n\n' % (prop, H.found['what']))
            f.write('To run it again: cd /verif && bash scripts/hbuild.sh /tmp/hb %s && H_SEED=%d H_MS=%d /tmp/hb/h.test -test.run "^Test%s$"\n\n' % (' '.join(info['files']), H.found['seed'], H.found['ms'], prop))
            f.write(ftext)
        print('failing input: ' + H.found['what'][:2000])
    elif nfail:
        viol = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rep)
        with open(rep, 'w') as f: f.write(ftext)
    for l in ftext.split('\n'):
        if l.startswith('FAILED'): print(l[:400])

    obl = [x for r in roots for x in (results[r['Name']].get('Obligs') or [])]
    dis = [x for x in obl if x['Result'] == 'unsat']
    by, sms = {}, {}
    for x in dis:
        k = x['Solver'] or 'simplifier'
        by[k] = by.get(k, 0) + 1
    for r in roots:
        for k, v in (results[r['Name']].get('SolverMS') or {}).items(): sms[k] = sms.get(k, 0) + v
    assumed = sorted({a for r in roots for a in (results[r['Name']].get('Assumed') or [])})
    trusted = [t for t in (L['Trusted'] or []) if prop in t]
    cov = {
        'obligations': len(obl), 'discharged': len(dis),
        'checker_cmd': 'bin/gov -root <function> -prop %s -json FILE (SMT-LIB to cvc5 1.1.2 and z3-new), for each function below' % prop,
        'trusted_base': propinfo.TRUSTED + ['trusted contract: ' + t for t in trusted],
        'functions_under_contract': [{'function': r['Name'], 'at': results[r['Name']].get('File', ''), 'obligations': len(results[r['Name']].get('Obligs') or []),
              'discharged': sum(x['Result'] == 'unsat' for x in results[r['Name']].get('Obligs') or []),
              'inlined_callees': results[r['Name']].get('Inlined') or [], 'loop_invariants': len(results[r['Name']].get('Invariants') or [])} for r in roots],
        'discharged_by': by, 'solver_ms': sms,
        'evaluations': H.cases, 'distinct_nontrivial': H.nontriv,
        'rule': 'bounded replay, never counted as proved: %d random runs of the real code against the executable specification (scripted clients, in-memory DNS, scratch files), %d ms each; non-trivial: the case reached the code the property is about (%s)' % (H.runs, hms, info['what']),
        'samples': H.samples or ['(harness did not run)'],
        'bounded_parts': info.get('bounded', ''),
    }
    if info['level'] == 'other': cov['explanation'] = info.get('bounded', '')
    ev = {'property': prop, 'tier': 'quick' if quick else 'thorough', 'seed': seed, 'level': info['level'], 'coverage': cov,
          'assumptions': propinfo.ASSUME + assumed + info.get('assume', []), 'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k in propinfo.known(prop): print('KNOWN-FINDING: ' + k)
    print('%s: %d functions under contract, %d of %d obligations discharged; %d cases replayed; %.1f s' % (prop, len(roots), len(dis), len(obl), H.cases, time.time() - t0))
    if viol:
        print(viol)
        return 1
    return 0

if __name__ == '__main__':
    sys.exit(main())
