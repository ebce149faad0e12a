#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] : decides one property on /repo's current tree.

1. extract the functions under contract from /repo (clang AST), generate and discharge every obligation;
2. build the real library + the property's harness (executable contracts) and run it: it replays refuted
   obligations against the real code and is the labelled bounded stand-in for what step 1 cannot reach;
3. write evidence/<id>.json; exit 0, or exit 1 with a VIOLATION line."""
import sys, os, json, time, threading, importlib, subprocess, argparse, shutil, tempfile, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'dv'))
sys.setrecursionlimit(20000)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-harness', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    import cxx, prove, hbuild
    from spec import Checker, Outcome
    from specs.common import BASEHOOKS, ASSUMED
    mod = importlib.import_module('specs.p_' + a.pid)
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % a.pid)
    res = {}
    hsrc = [os.path.join(HERE, 'harness', h) for h in getattr(mod, 'HARNESS', [])]

    def do_harness():
        try:
            exe = hbuild.build(hsrc, os.path.join(scratch, 'harness'))
            res['built'] = True
            run_harness(exe, res, mod, tier, a.seed, scratch)
        except Exception as e:
            res['error'] = '%s: %s' % (type(e).__name__, e)
            if a.v:
                traceback.print_exc()
    th = None
    if hsrc and not a.no_harness:
        th = threading.Thread(target=do_harness)
        th.start()
    out = Outcome()
    extract_err = None
    if not a.no_proof:
        try:
            prog = cxx.Program()
            prog.preload([os.path.join(cxx.REPO, s) for s in getattr(mod, 'SOURCES', []) if os.path.exists(os.path.join(cxx.REPO, s))] +
                         [os.path.join(HERE, s) for s in getattr(mod, 'CLIENTS', [])])
        except cxx.ExtractError as e:
            extract_err = str(e)
            prog = None
        if prog is not None:
            verify(prog, mod, out, tier, a, BASEHOOKS)
    if th is not None:
        th.join()
    rc = conclude(a, tier, mod, out, res, extract_err, t0, scratch, prove, ASSUMED)
    shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def verify(prog, mod, out, tier, a, BASEHOOKS):
    """every (contract, variant) is verified independently (a callee without a contract is inlined), in parallel processes"""
    import multiprocessing as mp
    tasks = [(i, j) for i, con in enumerate(mod.CONTRACTS) for j in range(len(con.variants or [{}]))]
    global _JOB
    _JOB = (prog, mod, tier, a, BASEHOOKS)
    done = {}
    workers = min(int(os.environ.get('VERIF_JOBS', '7')), len(tasks)) or 1
    if workers == 1:
        done = {t: one(t)[1] for t in tasks}
    else:
        sys.stdout.flush()
        with mp.get_context('fork').Pool(workers, maxtasksperchild=4) as pool:
            for t, r in pool.imap_unordered(one, tasks, 1):
                done[t] = r
    import prove
    okall = {}
    for t in tasks:
        r = done[t]
        con = mod.CONTRACTS[t[0]]
        if a.v:
            print(r['log'], end='')
        out.obs += r['obs']
        out.skipped += r['skipped']
        out.inlined |= r['inlined']
        out.used |= r['used']
        out.functions |= r['functions']
        for k, v in r['guards'].items():
            out.guards[k] = out.guards.get(k, 0) + v
        for k, v in r['stats'].items():
            prove.STATS[k] = prove.STATS.get(k, 0) + v
        okall[con.name] = okall.get(con.name, True) and bool(r['ok'])
    out.verified |= {k for k, v in okall.items() if v}

_JOB = None
def one(t):
    import io, contextlib, copy, prove
    from spec import Checker, Outcome
    prog, mod, tier, a, BASEHOOKS = _JOB
    sys.setrecursionlimit(20000)
    con = copy.copy(mod.CONTRACTS[t[0]])
    if con.variants:
        con.variants = [con.variants[t[1]]]
    hooks = dict(BASEHOOKS if con.base is None else con.base)
    hooks.update(con.hooks or {})
    out = Outcome()
    st0 = dict(prove.STATS)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        try:
            ok = Checker(prog, out, tier, a.seed, a.v).run_contract(con, hooks)
        except BaseException as e:
            ok = None
            out.skipped.append((con.name, 'verifier error %s: %s' % (type(e).__name__, str(e)[:300])))
    for o in out.obs:
        o.detail = None if o.detail is None else str(o.detail)
        o.how = str(o.how)
    return t, {'ok': ok, 'obs': out.obs, 'skipped': [(str(x), str(y)) for x, y in out.skipped], 'inlined': {str(x) for x in out.inlined}, 'used': {str(x) for x in out.used},
               'functions': out.functions, 'guards': out.guards, 'stats': {k: v - st0.get(k, 0) for k, v in prove.STATS.items()}, 'log': buf.getvalue()}

def run_harness(exe, res, mod, tier, seed, scratch):
    env = dict(os.environ, OMP_NUM_THREADS='4', OPENBLAS_NUM_THREADS='1', OMPI_MCA_btl='self,vader', OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',
               OMPI_MCA_plm_rsh_agent='', OMPI_MCA_rmaps_base_oversubscribe='1', HOME=scratch, TMPDIR=scratch)
    iters = getattr(mod, 'ITERS', {'quick': 40, 'thorough': 400})[tier]
    res['runs'] = []
    seeds = [seed] if tier == 'quick' else [seed + 1000 * i for i in range(6)]
    for s in seeds:
        cmd = [exe, '--seed', str(s), '--iters', str(iters), '--tier', tier]
        pre = getattr(mod, 'RUNPREFIX', None)
        try:
            p = subprocess.run((pre or []) + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=scratch, timeout=getattr(mod, 'HTIMEOUT', 420))
            rc, o, e = p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
        except subprocess.TimeoutExpired as ex:
            rc, o, e = 'timeout', (ex.stdout or b'').decode('utf8', 'replace'), ''
        res['runs'].append({'seed': s, 'rc': rc, 'out': o, 'err': e[-4000:]})

def load_known():
    p = os.path.join(HERE, 'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}

def conclude(a, tier, mod, out, res, extract_err, t0, scratch, prove, ASSUMED):
    pid = a.pid
    known = [f for f in load_known().get('findings', []) if f['property'] == pid]
    hits = []            # known findings seen
    viol = []            # (kind, id, text, reproduced)
    hfails, cases, samples, groups = [], 0, [], {}
    herror = res.get('error')
    for r in res.get('runs', []):
        last = None
        for line in r['out'].splitlines():
            if line.startswith('FAIL '):
                hfails.append((r['seed'], line[5:]))
            elif line.startswith('CASES '):
                _, g, nn = line.split(None, 2)
                groups[g] = groups.get(g, 0) + int(nn)
                cases += int(nn)
            elif line.startswith('SAMPLE ') and len(samples) < 6:
                samples.append(line[7:])
            elif line.startswith('AT '):
                last = line[3:]
        if r['rc'] == 'timeout':
            hfails.append((r['seed'], 'hang: the run did not finish at %s' % last))
        elif r['rc'] not in (0, 1):
            hfails.append((r['seed'], 'crash: the run ended with status %s at %s %s' % (r['rc'], last, r['err'][-300:].replace('\n', ' '))))
    def is_known(kind, text):
        for f in known:
            if f.get('kind', kind) == kind and f['match'] in text:
                hits.append(f)
                return True
        return False
    hnew = [(s, t) for s, t in hfails if not is_known('harness', t)]
    refuted = [o for o in out.obs if o.status == 'refuted']
    rnew = []
    for o in refuted:
        if not is_known('obligation', '%s/%s' % (o.contract, o.name)):
            rnew.append(o)
    # a contract on an internal function may legitimately change with a refactoring: its failure is reported as a violation
    # only when the property's public lemmas or the replay on the real code fail as well
    if not hnew and not any(o.root for o in rnew):
        for o in rnew:
            o.status, o.how = 'undecided', 'internal contract no longer holds (public lemmas decide the property): ' + str(o.how)
        rnew = []
    undec = [o for o in out.obs if o.status == 'undecided']
    proved = [o for o in out.obs if o.status == 'proved']
    rc = 0
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    lines = []
    if rnew or hnew:
        rc = 1
        rp = os.path.join(HERE, 'replay', '%s-%s.txt' % (pid, hashlib.sha1(repr([(o.contract, o.name) for o in rnew] + [t for _, t in hnew[:3]]).encode()).hexdigest()[:10]))
        with open(rp, 'w') as f:
            f.write('property %s\n\n' % pid)
            for o in rnew:
                f.write('FAILED OBLIGATION %s / %s\n  kind: %s  line: %s\n  verifier: %s\n  counterexample (values on which actual and specified terms differ): %s\n\n' % (o.contract, o.name, o.kind, o.line, o.how, o.detail))
            for s, t in hnew[:50]:
                f.write('REPLAYED ON THE REAL CODE (harness %s seed %s): %s\n' % (getattr(mod, 'HARNESS', []), s, t))
            f.write('\nto run again: cd /verif && ./check.py %s --tier %s --seed %d\n' % (pid, tier, a.seed))
        for o in rnew[:12]:
            lines.append('failed obligation: %s / %s (%s, line %s) %s' % (o.contract, o.name, o.kind, o.line, o.detail))
        for s, t in hnew[:12]:
            lines.append('failing input: seed=%s %s' % (s, t[:400]))
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if hnew else ' no-failing-input-found'))
    if rc == 0 and herror:
        # the library itself does not build with its public interface any more, or the harness cannot be built
        lines.append('note: harness unavailable: %s' % herror[:600])
    seen = set()
    for f in hits:
        if f['what'] not in seen:
            seen.add(f['what'])
            print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    funcs = sorted(out.functions)
    by_backend = {}
    for o in proved:
        b = 'z3' if o.how.startswith('z3') else ('term normal form' if 'normal form' in o.how else o.how)
        by_backend[b] = by_backend.get(b, 0) + 1
    level = mod.LEVEL
    cov = {
        'obligations': len(out.obs), 'discharged': len(proved),
        'checker_cmd': 'python3-vt /verif/check.py %s --tier %s (clang AST extraction -> /verif/dv VC generator -> normal forms + z3 %s)' % (pid, tier, __import__('z3').get_version_string()),
        'trusted_base': ['/verif/dv verification-condition generator and term normaliser', 'z3', 'clang 18 AST', 'Armadillo operations as specified in dv/expr.py and dv/mats.py'],
        'functions_under_contract': funcs,
        'contracts_discharged': sorted(out.verified),
        'inlined_functions': sorted(str(x) for x in out.inlined),
        'obligations_by_kind': {k: sum(1 for o in out.obs if o.kind == k) for k in sorted({o.kind for o in out.obs})},
        'discharged_by': by_backend,
        'not_discharged': ['%s / %s: %s' % (o.contract, o.name, o.how) for o in undec],
        'outside_verifier_this_run': ['%s: %s' % x for x in out.skipped],
        'vacuity_guards': out.guards,
        'solver': {k: (round(v, 2) if isinstance(v, float) else v) for k, v in prove.STATS.items()},
        'bounded_stand_in': {'label': 'bounded', 'bound': getattr(mod, 'BOUND', ''), 'cases_per_group': groups, 'cases': cases, 'samples': samples,
                             'status': herror or ('ran' if res.get('runs') else 'not run'), 'seeds': [r['seed'] for r in res.get('runs', [])]},
    }
    if extract_err:
        cov['extraction_error'] = extract_err
    if level != 'proof':
        cov.update({'evaluations': cases, 'distinct_nontrivial': cases, 'rule': getattr(mod, 'BOUND', ''), 'samples': samples, 'explanation': getattr(mod, 'NOTE', '')})
    ev = {'property': pid, 'tier': tier, 'seed': a.seed, 'level': level, 'coverage': cov,
          'assumptions': ['double arithmetic treated as real arithmetic; inputs finite', 'unsigned and int arithmetic treated as mathematical integers (no wrap-around) unless an index obligation covers it'] +
                         ['assumed contract %s: %s' % kv for kv in sorted(ASSUMED.items())] + list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(time.time() - t0, 2), 'violations': (len(rnew) + len(hnew)) if rc else 0}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d/%d obligations discharged, %d not discharged, %d contracts out of reach this run; bounded cases %d; %.1fs' %
          (pid, len(proved), len(out.obs), len(undec), len(out.skipped), cases, time.time() - t0))
    for o in undec:
        print('  not discharged: %s / %s (%s)' % (o.contract, o.name, o.how[:160]))
    for s in out.skipped:
        print('  outside verifier: %s: %s' % (s[0], s[1][:200]))
    for l in lines:
        print(l)
    return rc

if __name__ == '__main__':
    main()
