"""Discharging obligations with z3 (and cvc5 as a second back end in the thorough tier)."""
import z3, time, math
from terms import *
import terms as T

STATS = {'z3_queries': 0, 'z3_time': 0.0, 'unknown': 0}
TIMEOUT_MS = 4000

class Z:
    """translation of terms to z3 expressions with axiom instances for the interpreted applications"""
    def __init__(self):
        self.memo = {}
        self.ax = []
        self.exps = []
        self.axdone = set()
        self.logs = []
        self.alls = []     # (bool const, all-atom)
        self.fun = {}
        self.thr = []
        self.msums = {}

    def fn(self, name, sorts, res):
        k = (name, tuple(str(s) for s in sorts), str(res))
        if k not in self.fun:
            self.fun[k] = z3.Function(name + '!' + '_'.join(str(s)[0] for s in sorts), *sorts, res)
        return self.fun[k]

    def p(self, x):
        r = self.memo.get(x)
        if r is not None:
            return r
        isint = is_int(x)
        terms = []
        for m, c in sorted(x.t.items(), key=lambda mc: ''.join(a.key + str(e) for a, e in mc[0])):
            f = None
            den = None
            conds = []
            for a, e in m:
                if a.op == 'br':
                    conds.append(self.cond(a.args[0]))
                    continue
                z = self.atom(a)
                if not isint and z.sort() == z3.IntSort():
                    z = z3.ToReal(z)
                for _ in range(abs(e)):
                    if e > 0:
                        f = z if f is None else f * z
                    else:
                        den = z if den is None else den * z
            cz = z3.IntVal(int(c)) if isint else z3.RealVal('%d/%d' % (c.numerator, c.denominator))
            t = cz if f is None else (f if c == 1 else cz * f)
            if den is not None:
                t = t / den
            if conds:
                zero = z3.IntVal(0) if isint else z3.RealVal(0)
                t = z3.If(z3.And(*conds) if len(conds) > 1 else conds[0], t, zero)
            terms.append(t)
        if not terms:
            r = z3.IntVal(0) if isint else z3.RealVal(0)
        else:
            r = z3.Sum(*terms) if len(terms) > 1 else terms[0]
        self.memo[x] = r
        return r

    def real(self, x):
        z = self.p(x)
        return z3.ToReal(z) if z.sort() == z3.IntSort() else z

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        r = self._atom(a)
        self.memo[a] = r
        return r

    opaque = frozenset()
    def _atom(self, a):
        op = a.op
        if a in self.opaque:
            return z3.Real('opq#' + a.key)
        if op == 'var':
            n, s = a.args
            return z3.Real(n) if s == 'R' else z3.Int(n)
        if op == 'sqrt':
            x = self.real(a.args[0])
            s = z3.Real('sqrt#' + a.key)
            self.ax.append(s >= 0)
            self.ax.append(z3.Implies(x >= 0, s * s == x))
            return s
        if op == 'paren':
            return self.real(a.args[0])
        if op == 'app':
            return self.appl(a)
        if op == 'msum':
            c = z3.Int('sum#' + a.key) if a.sort == 'I' else z3.Real('sum#' + a.key)
            return c
        if op in ('rmax', 'rmin'):
            return z3.Real(op + '#' + a.key)
        raise TypeError(op)

    def appl(self, a):
        name, args = a.args
        sort = a.sort
        if name == 'abs':
            x = self.p(args[0])
            return z3.If(x >= 0, x, -x)
        if name in ('floor', 'trunc', 'round'):
            x = self.real(args[0])
            if name == 'floor':
                return z3.ToInt(x)
            if name == 'trunc':
                return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            return z3.If(x >= 0, z3.ToInt(x + z3.RealVal('1/2')), -z3.ToInt(-x + z3.RealVal('1/2')))
        if name == 'idiv':
            x, y = self.p(args[0]), self.p(args[1])
            return z3.If(z3.And(x >= 0, y > 0), x / y, self.fn('idiv', [z3.IntSort(), z3.IntSort()], z3.IntSort())(x, y))
        if name == 'imod':
            x, y = self.p(args[0]), self.p(args[1])
            return z3.If(z3.And(x >= 0, y > 0), x % y, self.fn('imod', [z3.IntSort(), z3.IntSort()], z3.IntSort())(x, y))
        if name in ('max2', 'min2'):
            x, y = self.p(args[0]), self.p(args[1])
            if x.sort() != y.sort():
                x, y = self.real(args[0]), self.real(args[1])
            return z3.If(x >= y, x, y) if name == 'max2' else z3.If(x <= y, x, y)
        tag = ''
        zs = []
        for x in args:
            if isinstance(x, P):
                zs.append(self.p(x))
            elif isinstance(x, Atom):
                tag += '#' + x.key
            else:
                tag += '#' + T._argkey(x)
        res = z3.IntSort() if sort in ('I', 'O') else (z3.BoolSort() if sort == 'B' else z3.RealSort())
        if name in ('exp', 'log', 'pow', 'sin', 'cos', 'tan', 'atan', 'lgamma'):
            zs = [z3.ToReal(z) if z.sort() == z3.IntSort() else z for z in zs]
        if not zs:
            nm = name + tag
            r = z3.Bool(nm) if sort == 'B' else (z3.Int(nm) if res == z3.IntSort() else z3.Real(nm))
        else:
            r = self.fn(name + tag, [z.sort() for z in zs], res)(*zs)
        if name == 'exp':
            x = zs[0]
            self.ax += [r > 0, z3.Implies(x <= 0, r <= 1), z3.Implies(x < 0, r < 1), z3.Implies(x >= 0, r >= 1), r >= 1 + x]
            for (x2, r2) in self.exps:
                self.ax += [z3.Implies(x <= x2, r <= r2), z3.Implies(x2 <= x, r2 <= r), z3.Implies(x < x2, r < r2), z3.Implies(x2 < x, r2 < r)]
            self.exps.append((x, r))
        elif name == 'log':
            x = zs[0]
            self.ax += [z3.Implies(x >= 1, r >= 0), z3.Implies(z3.And(x > 0, x <= 1), r <= 0)]
            for (x2, r2) in self.logs:
                self.ax += [z3.Implies(z3.And(x > 0, x <= x2), r <= r2), z3.Implies(z3.And(x2 > 0, x2 <= x), r2 <= r)]
            self.logs.append((x, r))
        elif name == 'thr':
            self.ax += [r >= 0, r < self.p(args[0])]
        elif name in AXIOMS:
            # precondition on the elements of an input, instantiated at the elements that occur
            key = (name, tuple(x.key for x in args))
            if key not in self.axdone:
                self.axdone.add(key)
                for f in AXIOMS[name](*args):
                    self.ax.append(self.boolean(f))
        elif name in ('sort_index', 'below', 'sel', 'index_min', 'index_max'):
            nn = self.p(args[1])
            self.ax += [r >= 0, z3.Implies(nn > 0, r < nn)]
        elif name == 'first':
            nn = self.p(args[1])
            self.ax += [r >= 0, z3.Implies(nn >= 0, r <= nn)]
        elif name == 'cos' or name == 'sin':
            self.ax += [r <= 1, r >= -1]
        return r

    def cond(self, c):
        if c.op == 'lt':
            x = self.p(c.args[0])
            return x < 0
        if c.op == 'eq':
            x = self.p(c.args[0])
            return x == 0
        if c.op == 'app':
            return self.appl(c)
        if c.op == 'all':
            b = z3.Bool('all#' + c.key)
            self.alls.append((b, c))
            return b
        raise TypeError(c.op)

    def boolean(self, x):
        """0/1 polynomial as z3 Bool"""
        k = x.const()
        if k is not None:
            return z3.BoolVal(k != 0)
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if c == 1 and all(a.op == 'br' for a, e in m):
                return z3.And(*[self.cond(a.args[0]) for a, e in m])
        if len(x.t) == 2 and x.t.get(()) == 1:
            y = x - ONE
            (m, c), = y.t.items()
            if c == -1 and all(a.op == 'br' for a, e in m):
                return z3.Not(z3.And(*[self.cond(a.args[0]) for a, e in m]))
        return self.p(x) != 0

_it = {}
def index_terms(x, out):
    """index-sorted terms that may be used to instantiate universally quantified facts"""
    if isinstance(x, P):
        for m in x.t:
            for a, e in m:
                out |= _index_atom(a)
    elif isinstance(x, Atom):
        out |= _index_atom(x)
    elif isinstance(x, tuple):
        for y in x:
            index_terms(y, out)
def _index_atom(x):
    r = _it.get(x)
    if r is None:
        r = set()
        if x.op == 'var':
            if x.args[1] == 'I':
                r.add(lift(x))
        elif x.op not in ('msum', 'lam', 'rmax', 'rmin', 'all'):
            for y in x.args:
                index_terms(y, r)
        r = _it[x] = frozenset(r)
    return r

class Result:
    def __init__(self, ok, why, model=None, t=0.0):
        self.ok, self.why, self.model, self.time = ok, why, model, t

INTERPRETED = {'abs', 'floor', 'trunc', 'round', 'idiv', 'imod', 'max2', 'min2'}
_op = {}
def _arith(x):
    """(interpreted arithmetic under uninterpreted functions, interpreted arithmetic elsewhere) of a term"""
    if isinstance(x, P):
        a, b = frozenset(), frozenset()
        for m in x.t:
            for at, e in m:
                u, v = _arith(at)
                a, b = a | u, b | v
        return a, b
    if not isinstance(x, Atom):
        return frozenset(), frozenset()
    r = _op.get(x)
    if r is None:
        if x.op == 'app' and x.args[0] in INTERPRETED or x.op == 'sqrt':
            a, b = frozenset(), frozenset([x])
            for y in (x.args[1] if x.op == 'app' else x.args):
                u, v = _arith(y)
                a, b = a | u, b | v
        elif x.op == 'app':
            a, b = frozenset(), frozenset()
            for y in x.args[1]:
                u, v = _arith(y)
                a = a | u | (v if x.sort != 'B' else frozenset())
                if x.sort == 'B':
                    b = b | v
        elif x.op in ('msum', 'lam', 'rmax', 'rmin', 'all'):
            a, b = frozenset(), frozenset()
        else:
            a, b = frozenset(), frozenset()
            for y in x.args:
                u, v = _arith(y)
                a, b = a | u, b | v
        r = _op[x] = (a, b)
    return r
def abstraction(facts, goal):
    """arithmetic that occurs only to form arguments of uninterpreted functions: (atoms to treat as unknowns, does the goal
    itself do arithmetic with one of them)"""
    a, b = _arith(goal)
    for f in facts:
        a = a | _arith(f)[0]
    return a, bool(a & b)

def check(facts, goal, timeout=None, extra_inst=(), opaque=frozenset()):
    """is facts => goal valid?  Result.ok True / False (model) / None (unknown); atoms in opaque are generalised to unknowns"""
    t0 = time.time()
    z = Z()
    z.opaque = opaque
    s = z3.Solver()
    s.set('timeout', timeout or TIMEOUT_MS)
    fs = [z.boolean(f) for f in facts]
    g = z.boolean(goal)
    inst = set()
    for f in facts:
        index_terms(f, inst)
    index_terms(goal, inst)
    inst |= set(extra_inst)
    done = 0
    # instantiate forall atoms (both directions: truth gives instances; falsity gives a witness)
    rounds = 0
    while done < len(z.alls) and rounds < 40:
        b, c = z.alls[done]
        done += 1
        rounds += 1
        v, n, body = c.args
        for t in sorted(inst, key=lambda q: q.key)[:14]:
            if v in t.fv:
                continue
            bi = subst(body, {v: t})
            z.ax.append(z3.Implies(z3.And(b, z.p(t) >= 0, z.p(t) < z.p(n)), z.boolean(bi)))
        w = fresh('w')
        W = var(w)
        z.ax.append(z3.Or(b, z3.And(z.p(W) >= 0, z.p(W) < z.p(n), z3.Not(z.boolean(subst(body, {v: W}))))))
        inst.add(W)
    for f in fs:
        s.add(f)
    s.add(z3.Not(g))
    k = 0
    while k < len(z.ax):
        s.add(z.ax[k])
        k += 1
    r = s.check()
    dt = time.time() - t0
    STATS['z3_queries'] += 1
    STATS['z3_time'] += dt
    if r == z3.unsat:
        return Result(True, 'unsat', t=dt)
    if r == z3.sat:
        return Result(False, 'sat', s.model(), dt)
    STATS['unknown'] += 1
    return Result(None, s.reason_unknown(), None, dt)

AXIOMS = {}
_ecache = {}
def entails(facts, goal, timeout=1500):
    k = goal.const()
    if k is not None:
        return k != 0
    key = (tuple(sorted(f.key for f in facts)), goal.key)
    r = _ecache.get(key)
    if r is None:
        if any(f == goal for f in facts):
            r = True
        else:
            ab, arith = abstraction(facts, goal)
            r = bool(ab) and check(facts, goal, timeout, opaque=ab).ok is True
            if not r and (arith or not ab):
                r = check(facts, goal, timeout).ok is True
        _ecache[key] = r
    return r

def sat(facts, timeout=3000):
    """are the facts jointly satisfiable (None if unknown)"""
    r = check(facts, ZERO, timeout)
    return {True: False, False: True, None: None}[r.ok]

# ------------------------------------------------------------ contextual simplification
_names = {}
def appnames(x):
    """names of uninterpreted applications in a term; 'all' marks a quantified fact"""
    if isinstance(x, P):
        r = frozenset()
        for m in x.t:
            for a, e in m:
                r |= appnames(a)
        return r
    if isinstance(x, Atom):
        r = _names.get(x)
        if r is None:
            r = frozenset()
            if x.op == 'app':
                r |= {x.args[0]}
            if x.op == 'all':
                r |= {'all'}
            for y in x.args:
                r |= appnames(y)
            _names[x] = r
        return r
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r |= appnames(y)
        return r
    return frozenset()

def relevant(facts, c):
    """leave out quantified facts about functions the condition does not mention (dropping facts is sound)"""
    gn = appnames(c)
    return [f for f in facts if f == c or 'all' not in appnames(f) or (appnames(f) - {'all'}) <= gn or not (appnames(f) - {'all'})]

def decide(c, facts):
    """bracket polynomial c (0/1) -> ONE / ZERO / c under facts"""
    if c.const() is not None:
        return c
    facts = relevant(facts, c)
    if entails(facts, c):
        return ONE
    if entails(facts, ONE - c):
        return ZERO
    return c

TWODIM = {'svd_s', 'svd_U', 'svd_V', 'mmax', 'mmin', 'norm2', 'pinv', 'rank', 'finite'}
class Simp:
    def __init__(self, facts):
        self.facts = list(facts)
        self.memo = {}

    def p(self, x, local=()):
        if not any(self.hasbr(a) for m in x.t for a, e in m):
            return x
        k = (x, tuple(f.key for f in local))
        r = self.memo.get(k)
        if r is not None:
            return r
        acc = ZERO
        for m, c in x.t.items():
            cur = num(c)
            for a, e in sorted(m, key=lambda ae: 0 if ae[0].op == 'br' else 1):
                cur = cur * atom_pow(self.atom(a, local), e)
                if not cur.t:
                    break
            acc = acc + cur
        self.memo[k] = acc
        return acc

    def hasbr(self, a):
        return _hasbr(a)

    def atom(self, a, local):
        if not _hasbr(a):
            return lift(a)
        if a.op == 'br':
            c = a.args[0]
            if c.op in ('lt', 'eq'):
                inner = self.p(c.args[0], local)
                b = lt(inner, 0) if c.op == 'lt' else eq(inner, 0)
            elif c.op == 'app':
                b = rebuild_app(c.args[0], self.args(c.args[1], local, c.args[0]), 'B')
            elif c.op == 'all':
                v = fresh()
                n = self.p(c.args[1], local)
                b = forall(v, n, self.p(subst(c.args[2], {c.args[0]: var(v)}), local + (le(0, var(v)), lt(var(v), n))))
                return b
            if b.const() is not None:
                return b
            return decide(b, self.facts + list(local))
        if a.op == 'app':
            return rebuild_app(a.args[0], self.args(a.args[1], local, a.args[0]), a.sort)
        if a.op == 'sqrt':
            return T.sqrt(self.p(a.args[0], local))
        if a.op == 'paren':
            return self.p(a.args[0], local)
        if a.op == 'msum':
            vs, fac = open_msum(a)
            loc = local
            for v, h in vs:
                loc = loc + (le(0, var(v)), lt(var(v), h))
            body = ONE
            for x, e in fac:
                body = body * atom_pow(self.p(lift(x), loc), e)
            return msum(vs, body)
        if a.op in ('rmax', 'rmin'):
            v = fresh()
            b = self.p(subst(a.args[2], {a.args[0]: var(v)}), local + (le(0, var(v)), lt(var(v), a.args[1])))
            return rext(a.op, v, a.args[1], b)
        return lift(a)

    def args(self, args, local, fname=None):
        out = []
        for x in args:
            if isinstance(x, P):
                out.append(self.p(x, local))
            elif isinstance(x, Atom) and x.op == 'lam':
                names = [fresh() for _ in x.args[0]]
                b = subst(x.args[1], {o: var(n) for o, n in zip(x.args[0], names)})
                # lambda formals of matrix arguments: only nonnegativity is known
                loc = local + tuple(le(0, var(n)) for n in names)
                if len(args) > 1 and isinstance(args[1], P):
                    # by convention app(f, lam, n, ...) : every formal ranges over [0,n)
                    if fname in TWODIM and len(names) == 2:
                        loc += (lt(var(names[0]), args[1]), lt(var(names[1]), args[2]))
                    else:
                        loc += tuple(lt(var(n), args[1]) for n in names)
                out.append(lam(names, self.p(b, loc)))
            else:
                out.append(x)
        return tuple(out)

_hb = {}
def _hasbr(a):
    r = _hb.get(a)
    if r is None:
        r = a.op == 'br' or any(_hasbr_arg(x) for x in a.args)
        _hb[a] = r
    return r
def _hasbr_arg(x):
    if isinstance(x, P):
        return any(_hasbr(a) for m in x.t for a, e in m)
    if isinstance(x, Atom):
        return _hasbr(x)
    if isinstance(x, tuple):
        return any(_hasbr_arg(y) for y in x)
    return False

def choices(ps):
    """discriminators of merged states (fresh booleans) that occur in the terms"""
    out = set()
    def walk(x):
        if isinstance(x, P):
            for m in x.t:
                for at, e in m:
                    walk(at)
        elif isinstance(x, Atom):
            if x in seen:
                return
            seen.add(x)
            if x.op == 'br' and x.args[0].op == 'app' and str(x.args[0].args[0]).startswith('havocran'):
                out.add(x)
            for y in x.args:
                walk(y)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    seen = set()
    for x in ps:
        walk(x)
    return sorted(out, key=lambda x: x.key)

def cases(facts, ps):
    """split on the discriminators: [(facts, terms)] covering all cases"""
    todo, done = [(list(facts), list(ps), 0)], []
    while todo:
        fs, q, depth = todo.pop()
        ch = choices(q + fs)
        if not ch or depth > 3:
            done.append((fs, q))
            continue
        for v in (lift(ch[0]), ONE - lift(ch[0])):
            S = Simp([v])
            f2 = [S.p(f) for f in fs]
            if any(f.const() == 0 for f in f2):
                continue
            todo.append(([f for f in f2 if f.const() is None], [S.p(x) for x in q], depth + 1))
    return done

def prove_eq(facts, a, b):
    if choices([a, b]):
        how = ''
        for fs, (x, y) in cases(facts, (a, b)):
            r = prove_eq1(fs, x, y)
            if r[0] is not True:
                return r
            how = how or r[1]
        return True, how, None
    return prove_eq1(facts, a, b)

def prove_eq1(facts, a, b):
    """(ok, how, model)"""
    d = a - b
    if d.const() == 0:
        check(facts, eq(a, b))   # degenerate query: normal forms coincide
        return True, 'normal form', None
    S = Simp(facts)
    d2 = S.p(a) - S.p(b)
    if d2.const() == 0:
        return True, 'normal form under path facts', None
    ab, arith = abstraction(facts, eq(d2, 0))
    r = check(facts, eq(d2, 0), opaque=ab) if ab else None
    if r is None or r.ok is not True:
        r = check(facts, eq(d2, 0))
    if r.ok is not True:
        S0 = Simp([])
        f2 = [S0.p(f) for f in facts]      # facts in the normal form of the goal: indices of sums within their ranges
        if any(x != y for x, y in zip(f2, facts)):
            r2 = check([f for f in f2 if f.const() is None or f.const() == 0], eq(d2, 0))
            if r2.ok is True:
                r = r2
    if r.ok is True:
        return True, 'z3', None
    return (False if r.ok is False else None), r.why, r.model
