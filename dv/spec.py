"""Contract framework: preconditions, postconditions, obligations, outcome of one verification run."""
import time, traceback, sys
from contract import *
import contract, prove, evalt, terms as T
from evalt import refute_eq

class Ob:
    """a discharged or failed proof obligation"""
    def __init__(self, contract, name, kind, status, how, line=None, detail=None, t=0.0):
        self.contract, self.name, self.kind, self.status, self.how, self.line, self.detail, self.time = contract, name, kind, status, how, line, detail, t
    def __repr__(self):
        return '%s/%s [%s] %s (%s)' % (self.contract, self.name, self.kind, self.status, self.how)

UNKNOWN_PREFIX = ('lost', 'uninit', 'havoc')
_hu = {}
def has_unknown(x):
    """term mentions a value the verifier gave up on"""
    if isinstance(x, P):
        return any(has_unknown(a) for m in x.t for a, e in m)
    if isinstance(x, Atom):
        r = _hu.get(x)
        if r is None:
            r = False
            if x.op == 'app' and isinstance(x.args[0], str) and x.args[0].startswith(UNKNOWN_PREFIX):
                r = True
            elif x.op == 'var' and x.args[0].startswith(UNKNOWN_PREFIX):
                r = True
            else:
                r = any(has_unknown(y) for y in x.args)
            _hu[x] = r
        return r
    if isinstance(x, tuple):
        return any(has_unknown(y) for y in x)
    return False

class Contract:
    """cls::func under contract.  setup(c): requires; ensures(c): postconditions (calls c.eq / c.eqmat / c.holds)"""
    def __init__(self, cls, func, setup=None, ensures=None, hooks=None, sig=None, public=False, variants=None, numfail='never',
                 stop='never', provides=None, tag='', interp=Interp, budget=60, safety=True, dyncls=None, noncount=None, samplers=None,
                 requires_text='', races=True, nothrow=None, throwswhen=None, onmissing=None, samp=None, ignore_races=(), base=None):
        if nothrow is None:      # inputs within the precondition are not rejected (numerical failure has contracts of its own)
            nothrow = numfail == 'never' and throwswhen is None and cls == ''
        self.__dict__.update(locals())
        self.name = '%s::%s%s' % (cls, func, ('#' + tag) if tag else '')
        self.samplers = samplers or samp or {}
    def __repr__(self):
        return self.name

class Outcome:
    def __init__(self):
        self.obs = []
        self.skipped = []       # (contract, reason)
        self.verified = set()
        self.inlined = set()
        self.used = set()
        self.notes = []
        self.guards = {'pre_sat': 0, 'returns': 0, 'perturbed_rejected': 0, 'perturbed_total': 0}
        self.functions = set()

class Checker:
    def __init__(self, prog, out, tier='quick', seed=1, verbose=False):
        self.prog, self.out, self.tier, self.seed, self.verbose = prog, out, tier, seed, verbose

    def add(self, con, name, kind, status, how, line=None, detail=None, t=0.0):
        o = Ob(con.name, name, kind, status, how, line, detail, t)
        o.root = con.cls == '' or con.public
        self.obs.append(o)
        if self.verbose and status != 'proved':
            print('   ', o, detail if status != 'proved' else '')
        return o

    def run_contract(self, con, hooks):
        """verify one contract; returns True when every obligation is proved"""
        ok = True
        self.obs = []
        for var_ in (con.variants or [{}]):
            vt = ','.join('%s=%s' % kv for kv in sorted(var_.items()))
            t0 = time.time()
            try:
                def setup(c):
                    c.var = var_
                    if con.setup:
                        con.setup(c)
                c = contract.run(self.prog, con.cls, con.func, hooks, setup, con.numfail, con.stop, con.sig, con.dyncls, con.safety,
                                 con.noncount, con.budget, con.interp)
                if c is None:
                    self.out.skipped.append((con.name, 'function not found in the current source'))
                    return None
                ok = self.discharge(con, c, vt) and ok
            except (Unsupported, TermLimit, cxx.ExtractError, RecursionError) as e:
                self.out.skipped.append((con.name + (' ' + vt if vt else ''), '%s: %s' % (type(e).__name__, str(e)[:300])))
                if self.verbose:
                    traceback.print_exc(limit=-8)
                ok = None
                break
            except Exception as e:
                self.out.skipped.append((con.name + (' ' + vt if vt else ''), 'verifier error %s: %s' % (type(e).__name__, str(e)[:300])))
                if self.verbose:
                    traceback.print_exc(limit=-4)
                ok = None
                break
            if self.verbose:
                print('  ', con.name, vt, 'ok' if ok else 'NOT OK', '%.2fs' % (time.time() - t0), 'lost', c.ex.lost)
        self.out.obs += self.obs
        if ok:
            self.out.verified.add(con.name)
        return ok

    def discharge(self, con, c, vt):
        ex = c.ex
        self.out.functions.add('%s::%s' % (con.cls, con.func))
        self.out.inlined |= {x for x in ex.inlined}
        self.out.used |= ex.used_contracts
        ok = True
        # vacuity: the precondition is satisfiable
        s = prove.sat(ex.base)
        if s is False:
            raise Unsupported('contradictory precondition')
        self.out.guards['pre_sat'] += 1
        if c.ret is not None:
            fs = list(ex.base) + list(c.post.path)
            if prove.sat(fs) is False:
                c.ret = None
        seen = set()
        for o in ex.obls:
            if o.kind == 'race' and (not con.races or any(x in o.text for x in con.ignore_races)):
                continue
            key = (o.kind, o.text, o.line, o.goal.key, tuple(f.key for f in o.facts))
            if key in seen:
                continue
            seen.add(key)
            t = time.time()
            r = prove.check(o.facts, o.goal)
            if r.ok is True:
                self.add(con, '%s (%s)' % (o.text, o.fn), o.kind, 'proved', 'z3', o.line, t=time.time() - t)
                continue
            status, detail = 'undecided', None
            if not has_unknown(o.goal) and not any(has_unknown(f) for f in o.facts):
                if o.kind == 'race':
                    status, detail = 'refuted', 'overlapping writes'
                else:
                    m, n = refute_eq(o.facts, o.goal, ONE, con.samplers, seed=self.seed, want=6)
                    if m is not None:
                        status, detail = 'refuted', m
            self.add(con, '%s (%s)' % (o.text, o.fn), o.kind, status, 'z3 %s' % r.why, o.line, detail, time.time() - t)
            ok = False
        if con.nothrow:
            live = 0
            for ts, what in c.thrown:
                allf = list(ex.base) + list(ts.path)
                live += 1
                ln = line_of(what) if isinstance(what, dict) else None
                t = time.time()
                r = prove.check(allf, ZERO)
                nm = 'no exception%s' % ((' [%s]' % vt) if vt else '')
                if r.ok is True:
                    self.add(con, nm, 'nothrow', 'proved', 'z3 unsat', ln, t=time.time() - t)
                else:
                    st, det = 'undecided', None
                    if not any(has_unknown(f) for f in allf):
                        m, nn = refute_eq(allf, ZERO, ONE, con.samplers, seed=self.seed, want=6)
                        if m is not None:
                            st, det = 'refuted', m
                    self.add(con, nm, 'nothrow', st, 'z3 ' + r.why, ln, det)
                    ok = False
            if not live:
                self.add(con, 'no exception%s' % ((' [%s]' % vt) if vt else ''), 'nothrow', 'proved', 'no throwing path')
        if con.throwswhen is not None:
            # exceptional postcondition: a call ends in an exception exactly when the stated condition holds
            cond = con.throwswhen(c)
            todo = [('an exception is raised only when %s' % cond[0], list(ts.path), cond[1]) for ts, what in c.thrown]
            if c.ret is not None:
                todo.append(('a normal return implies no case where %s' % cond[0], list(c.post.path), ONE - cond[1]))
            for nm, path, goal in todo:
                nm = nm + ((' [%s]' % vt) if vt else '')
                allf = list(ex.base) + path
                t = time.time()
                S = prove.Simp(list(ex.base))
                fs2 = allf + [S.p(f) for f in path]
                g2 = S.p(goal)
                r = prove.check(fs2, g2)
                if r.ok is True:
                    self.add(con, nm, 'exceptional', 'proved', 'z3 unsat', t=time.time() - t)
                else:
                    st, det = 'undecided', None
                    if not any(has_unknown(f) for f in allf):
                        m, nn = refute_eq(allf, goal, ONE, con.samplers, seed=self.seed, want=6)
                        if m is not None:
                            st, det = 'refuted', m
                    self.add(con, nm, 'exceptional', st, 'z3 ' + r.why, None, det)
                    ok = False
        c.posts = []
        E = Ens(c)
        c.E = E
        if con.ensures:
            con.ensures(c, E)
        if not E.items and not ex.obls and con.ensures:
            raise Unsupported('no obligation generated')
        for (name, kind, facts, a, b) in E.items:
            nm = name + ((' [%s]' % vt) if vt else '')
            t = time.time()
            if kind == 'false':
                self.add(con, nm, 'post', a, b)
                ok = ok and a == 'proved'
                continue
            if kind == 'unreachable':
                if a is None:
                    self.add(con, nm, 'post', 'proved', 'no returning path')
                    continue
                r = prove.check(list(ex.base) + facts, ZERO)
                if r.ok is True:
                    self.add(con, nm, 'post', 'proved', 'z3 unsat', t=time.time() - t)
                else:
                    st, det = 'undecided', None
                    if not any(has_unknown(f) for f in facts):
                        m, nn = refute_eq(list(ex.base) + facts, ZERO, ONE, con.samplers, seed=self.seed, want=6)
                        if m is not None:
                            st, det = 'refuted', m
                    self.add(con, nm, 'post', st, 'z3 ' + r.why, None, det)
                    ok = False
                continue
            allf = list(ex.base) + facts
            if kind == 'eq':
                r, how, model = prove.prove_eq(allf, a, b)
            else:
                rr = prove.check(allf, a, 5000)
                g = a
                if rr.ok is not True and prove.choices([a]):
                    if all(prove.check(fs, q, 5000).ok is True for fs, (q,) in prove.cases(allf, (a,))):
                        rr.ok = True
                if rr.ok is not True:
                    S = prove.Simp(allf)
                    g = S.p(a)
                if rr.ok is True:
                    r, how, model = True, 'z3 unsat', None
                elif g.const() is not None and g.const() != 0:
                    r, how, model = True, 'normal form under path facts', None
                else:
                    rr = prove.check(allf, g)
                    r, how, model = rr.ok, 'z3 ' + rr.why, rr.model
            if r is True:
                self.add(con, nm, 'post', 'proved', how, t=time.time() - t)
                # perturbed specification must be rejected
                self.out.guards['perturbed_total'] += 1
                if kind == 'eq':
                    bad = prove.sat(allf, 800) is False
                else:
                    bad = prove.check(allf, ONE - a, 1500).ok is True
                if not bad:
                    self.out.guards['perturbed_rejected'] += 1
                else:
                    raise Unsupported('vacuous postcondition %s' % nm)
                continue
            status, detail = 'undecided', None
            if not has_unknown(a) and not (b is not None and has_unknown(b)) and not any(has_unknown(f) for f in allf):
                m, n = refute_eq(allf, a, b if kind == 'eq' else ONE, con.samplers, seed=self.seed, want=6, model=model)
                if m is not None:
                    status, detail = 'refuted', m
                else:
                    how += ' (no counterexample on %d small instances)' % n
            self.add(con, nm, 'post', status, how, None, detail, time.time() - t)
            ok = False
        if c.ret is not None:
            self.out.guards['returns'] += 1
        return ok

class Ens:
    def __init__(self, c):
        self.c = c
        self.items = []
    def pathfacts(self):
        return list(self.c.post.path) if self.c.post is not None else []
    def eq(self, name, a, b, facts=()):
        if isinstance(a, Mat):
            a = self.c.ex.scalar(a)
        self.items.append((name, 'eq', self.pathfacts() + list(facts), lift(a), lift(b)))
    def holds(self, name, goal, facts=(), path=True):
        self.items.append((name, 'holds', (self.pathfacts() if path else []) + list(facts), goal, None))
    def fail(self, name, why, status='undecided'):
        self.items.append((name, 'false', [], status, why))
    def ok(self, name, why='syntactic'):
        self.items.append((name, 'false', [], 'proved', why))
    def mat(self, name, a, b, facts=(), dims=True):
        """same size and equal at every element"""
        if not isinstance(a, Mat):
            self.fail(name, 'not a matrix value')
            return
        i, j = var('i#'), var('j#')
        if dims:
            self.eq(name + ': rows', a.nr, b.nr, facts)
            self.eq(name + ': columns', a.nc, b.nc, facts)
        fs = list(facts) + [le(0, i), lt(i, b.nr), le(0, j), lt(j, b.nc)]
        ii = ZERO if b.nr == ONE else i
        jj = ZERO if b.nc == ONE else j
        self.eq(name, a.get(ii, jj), b.get(ii, jj), fs)
    def cube(self, name, a, b, facts=()):
        i, j, k = var('i#'), var('j#'), var('s#')
        self.eq(name + ': rows', a.nr, b.nr, facts)
        self.eq(name + ': columns', a.nc, b.nc, facts)
        self.eq(name + ': slices', a.ns, b.ns, facts)
        fs = list(facts) + [le(0, i), lt(i, b.nr), le(0, j), lt(j, b.nc), le(0, k), lt(k, b.ns)]
        self.eq(name, a.get(i, j, k), b.get(i, j, k), fs)
    def throws(self, name):
        """no normal return under the precondition"""
        if self.c.ret is None:
            self.items.append((name, 'unreachable', [], None, None))
        else:
            self.items.append((name, 'unreachable', self.pathfacts(), ZERO, None))
    def field(self, f):
        o = self.c.post.store[('this',)]
        return o.f[f] if f in o.f else self.c.ex.default_field(o, f)
    def prefield(self, f):
        o = self.c.pre.store[('this',)]
        return o.f[f] if f in o.f else self.c.ex.default_field(o, f)
    def unchanged(self, f):
        o = self.c.post.store[('this',)]
        return f not in o.f or vsame(o.f[f], self.prefield(f))
    def arg(self, i):
        return self.c.ex.read(self.c.post, self.c.params[i])
