"""Numeric evaluation of terms on small random instances: a candidate counterexample to an equation the
normaliser / z3 did not prove is only called a refutation when the two sides evaluate differently on an
instance that satisfies every fact."""
import math, time, random, hashlib
import numpy as np
from terms import *
import terms as T

class Skip(Exception):
    pass

def hrand(seed, *parts):
    h = hashlib.blake2b(('|'.join([str(seed)] + [str(p) for p in parts])).encode(), digest_size=8).digest()
    return int.from_bytes(h, 'big') / 2.0 ** 64

class Inst:
    """one concrete instance"""
    def __init__(self, seed, samplers=None, limit=600000, jitter=0.0, env=None, scale=1):
        self.seed = seed
        self.scale = scale
        self.jitter = jitter
        self.env = dict(env or {})
        self.samplers = samplers or {}
        self.memo = {}
        self.count = 0
        self.limit = limit

    def var(self, name, sort):
        v = self.env.get(name)
        if v is None:
            f = self.samplers.get(name)
            u = hrand(self.seed, 'v', name)
            if f is not None:
                v = f(u, self)
            elif sort == 'I':
                v = int(u * 5) if not name.startswith(('n', 'k')) else 2 + int(u * 3)
            else:
                v = round(-2 + 4 * u, 3)
            self.env[name] = v
        return v

    def p(self, x, env):
        tot = 0
        for m, c in x.t.items():
            f = c.numerator if c.denominator == 1 else c.numerator / c.denominator
            # brackets first: they guard undefined subterms
            for a, e in m:
                if a.op == 'br':
                    if not self.cond(a.args[0], env):
                        f = 0
                        break
            if f == 0:
                continue
            for a, e in m:
                if a.op == 'br':
                    continue
                v = self.atom(a, env)
                if e < 0:
                    if v == 0:
                        raise Skip('division by zero')
                    f = f * v ** e if isinstance(v, float) else f * float(v) ** e
                else:
                    f = f * v ** e
            tot = tot + f
        return tot

    def key(self, a, env):
        return (a.key,) + tuple((v, env[v]) for v in sorted(a.fv) if v in env)

    def atom(self, a, env):
        k = self.key(a, env)
        r = self.memo.get(k)
        if r is None:
            self.count += 1
            if self.count > self.limit:
                raise Skip('limit')
            r = self._atom(a, env)
            if isinstance(r, float) and (math.isnan(r) or math.isinf(r)):
                raise Skip('nan')
            self.memo[k] = r
        return r

    def _atom(self, a, env):
        op = a.op
        if op == 'var':
            n, s = a.args
            if n in env:
                return env[n]
            return self.var(n, s)
        if op == 'sqrt':
            v = self.p(a.args[0], env)
            if v < 0:
                if v > -1e-12:
                    return 0.0
                raise Skip('sqrt')
            return math.sqrt(v)
        if op == 'paren':
            return self.p(a.args[0], env)
        if op == 'msum':
            vs, fac = a.args
            return self.msum(list(vs), fac, dict(env))
        if op in ('rmax', 'rmin'):
            v, n, b = a.args
            N = int(self.p(n, env))
            if N <= 0:
                raise Skip('empty extremum')
            e = dict(env)
            xs = []
            for i in range(N):
                e[v] = i
                xs.append(self.p(b, e))
            return max(xs) if op == 'rmax' else min(xs)
        if op == 'app':
            return self.app(a, env)
        if op == 'br':
            return 1 if self.cond(a.args[0], env) else 0
        raise Skip(op)

    def msum(self, vs, fac, env):
        # depth-first; a factor is applied as soon as its variables are bound
        bound = [v for v, _ in vs]
        stages = [[] for _ in range(len(vs) + 1)]
        for at, e in fac:
            last = 0
            for i, v in enumerate(bound):
                if v in at.fv:
                    last = i + 1
            stages[last].append((at, e))
        for st in stages:
            st.sort(key=lambda ae: 0 if ae[0].op == 'br' else 1)
        def rec(i):
            self.count += 1
            if self.count > self.limit:
                raise Skip('limit')
            f = 1
            for at, e in stages[i]:
                if at.op == 'br':
                    if not self.cond(at.args[0], env):
                        return 0
                    continue
                v = self.atom(at, env)
                if e < 0 and v == 0:
                    raise Skip('division by zero')
                f = f * (v ** e if e > 0 else float(v) ** e)
            if f == 0 and False:
                return 0
            if i == len(vs):
                return f
            v, h = vs[i]
            n = int(self.p(h, env))
            tot = 0
            for j in range(n):
                env[v] = j
                tot += rec(i + 1)
            env.pop(v, None)
            return f * tot
        return rec(0)

    def cond(self, c, env):
        k = self.key(c, env)
        r = self.memo.get(k)
        if r is None:
            r = self._cond(c, env)
            self.memo[k] = r
        return r

    def _cond(self, c, env):
        if c.op == 'lt':
            v = self.p(c.args[0], env)
            if isinstance(v, float) and abs(v) < 1e-9:
                raise Skip('tie')
            return v < 0
        if c.op == 'eq':
            v = self.p(c.args[0], env)
            if isinstance(v, float) and v != 0 and abs(v) < 1e-9:
                raise Skip('tie')
            return v == 0
        if c.op == 'all':
            v, n, b = c.args
            N = int(self.p(n, env))
            e = dict(env)
            for i in range(N):
                e[v] = i
                if self.p(b, e) == 0:
                    return False
            return True
        if c.op == 'app':
            name, args = c.args
            if name == 'singular':
                return False
            if name == 'finite':
                return True
            if name in ('isnan', 'isinf'):
                return False
            if name == 'isfinite':
                return True
            f = self.samplers.get(name)
            a = tuple(self.arg(x, env) for x in args)
            if f is not None:
                return bool(f(hrand(self.seed, name, a), self, *a))
            return hrand(self.seed, name, a) < 0.5
        raise Skip(c.op)

    def arg(self, x, env):
        if isinstance(x, P):
            v = self.p(x, env)
            return round(v, 9) if isinstance(v, float) else v
        if isinstance(x, Atom):
            return self.key(x, env)
        return x

    def matrix(self, L, nr, nc, env):
        k = ('mat',) + self.key(L, env) + (nr, nc)
        r = self.memo.get(k)
        if r is None:
            e = dict(env)
            fs, b = L.args
            r = np.zeros((nr, nc))
            for i in range(nr):
                e[fs[0]] = i
                for j in range(nc):
                    e[fs[1]] = j
                    r[i, j] = self.p(b, e)
            self.memo[k] = r
        return r

    def vector(self, L, n, env):
        e = dict(env)
        (f,), b = L.args
        out = []
        for i in range(n):
            e[f] = i
            out.append(self.p(b, e))
        return out

    def app(self, a, env):
        name, args = a.args
        if name in ('inv', 'det'):
            n = int(self.p(args[1], env))
            k = (name,) + self.key(args[0], env) + (n,)
            M = self.memo.get(k)
            if M is None:
                A = self.matrix(args[0], n, n, env)
                if name == 'inv':
                    if n == 0 or abs(np.linalg.det(A)) < 1e-10 or np.linalg.cond(A) > 1e8:
                        raise Skip('singular')
                    M = np.linalg.inv(A)
                else:
                    M = float(np.linalg.det(A))
                self.memo[k] = M
            if name == 'det':
                return M
            i, j = int(self.p(args[2], env)), int(self.p(args[3], env))
            if not (0 <= i < n and 0 <= j < n):
                raise Skip('index')
            return float(M[i, j])
        if name in ('svd_s', 'svd_U', 'svd_V', 'pinv', 'norm2', 'rank', 'mmax', 'mmin'):
            nr, nc = int(self.p(args[1], env)), int(self.p(args[2], env))
            A = self.matrix(args[0], nr, nc, env)
            ix = [int(self.p(x, env)) for x in args[3:]]
            if name == 'norm2':
                return float(np.linalg.norm(A, 2))
            if name == 'mmax':
                return float(A.max())
            if name == 'mmin':
                return float(A.min())
            if name == 'rank':
                return int(np.linalg.matrix_rank(A))
            if name == 'pinv':
                return float(np.linalg.pinv(A)[ix[0], ix[1]])
            U, s, Vt = np.linalg.svd(A)
            if name == 'svd_s':
                return float(s[ix[0]])
            return float(U[ix[0], ix[1]]) if name == 'svd_U' else float(Vt[ix[1], ix[0]])
        if name == 'entropy':
            v = self.vector(args[0], int(self.p(args[1], env)), env)
            if not v or min(v) < 0 or sum(v) <= 0:
                return 0.0
            return -sum(x / sum(v) * math.log2(x / sum(v)) for x in v if x > 0)
        if name == 'wcov':
            # weighted covariance matrix: rows, columns and weights given
            nr, nc = int(self.p(args[1], env)), int(self.p(args[2], env))
            A = self.matrix(args[0], nr, nc, env)
            w = np.array(self.vector(args[3], nr, env))
            i, j = int(self.p(args[4], env)), int(self.p(args[5], env))
            if not (0 <= i < nc and 0 <= j < nc):
                raise Skip('index')
            s = w.sum()
            if nr == 0 or abs(s) < 1e-10 or abs(s * s - (w * w).sum()) < 1e-10:
                raise Skip('singular')
            mu = w @ A / s
            return float(s / (s * s - (w * w).sum()) * (w * (A[:, i] - mu[i]) * (A[:, j] - mu[j])).sum())
        if name in ('sort', 'sort_index', 'below', 'median', 'index_min', 'index_max'):
            n = int(self.p(args[1], env))
            v = self.vector(args[0], n, env)
            if not v:
                raise Skip('empty')
            if name == 'median':
                return float(np.median(v))
            if name == 'index_min':
                return int(np.argmin(v))
            if name == 'index_max':
                return int(np.argmax(v))
            i = int(self.p(args[2], env))
            if not 0 <= i < n:
                raise Skip('index')
            if name == 'below':
                return sum(1 for q in v if q < v[i])
            if name == 'sort':
                return sorted(v)[i]
            return sorted(range(n), key=lambda q: v[q])[i]
        if name == 'sel':
            n = int(self.p(args[1], env))
            v = self.vector(args[0], n, env)
            i = int(self.p(args[2], env))
            ix = [q for q in range(n) if v[q] != 0]
            if not 0 <= i < len(ix):
                raise Skip('index')
            return ix[i]
        if name == 'first':
            n = int(self.p(args[1], env))
            v = self.vector(args[0], n, env)
            for i, x in enumerate(v):
                if x != 0:
                    return i
            return n
        if name == 'thr':
            t, k = int(self.p(args[0], env)), int(self.p(args[1], env))
            if t <= 0:
                raise Skip('threads')
            return int(hrand(self.seed, 'thr', k) * t)
        if name == 'divzero':
            raise Skip('division by zero')
        if name in FUN1:
            x = self.p(args[0], env)
            try:
                return FUN1[name](x)
            except (ValueError, OverflowError):
                raise Skip(name)
        if name in ('idiv', 'imod'):
            x, y = self.p(args[0], env), self.p(args[1], env)
            if y == 0:
                raise Skip('division by zero')
            q = int(abs(x) // abs(y)) * (1 if (x >= 0) == (y >= 0) else -1)
            return q if name == 'idiv' else int(x - q * y)
        if name in ('max2', 'min2'):
            x, y = self.p(args[0], env), self.p(args[1], env)
            return max(x, y) if name == 'max2' else min(x, y)
        if name == 'pow':
            x, y = self.p(args[0], env), self.p(args[1], env)
            try:
                r = float(x) ** float(y)
            except (OverflowError, ZeroDivisionError):
                raise Skip('pow')
            if isinstance(r, complex):
                raise Skip('pow')
            return r
        if name == 'atan2':
            return math.atan2(self.p(args[0], env), self.p(args[1], env))
        f = self.samplers.get(name)
        av = tuple(self.arg(x, env) for x in args)
        u = hrand(self.seed, name, av)
        if f is not None:
            r = f(u, self, *av)
        elif a.sort in ('I', 'O'):
            return int(u * 4)
        else:
            r = round(-1.5 + 3 * u, 4) * self.scale
        if self.jitter and isinstance(r, float):
            r *= 1 + self.jitter * (hrand(self.seed, 'jitter', name, av) - 0.5)
        return r

def _tr(x):
    return int(math.trunc(x))
FUN1 = {'exp': math.exp, 'log': math.log, 'abs': abs, 'floor': lambda x: int(math.floor(x)), 'trunc': _tr,
        'round': lambda x: int(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1),
        'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'atan': math.atan, 'asin': math.asin, 'acos': math.acos,
        'lgamma': math.lgamma, 'ceil': lambda x: int(math.ceil(x)), 'log10': math.log10, 'log2': math.log2}

def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))

def hint_sets(model):
    """values the solver's model gives to scalar variables: instances near a threshold the random ones miss"""
    import z3
    h = {}
    try:
        for d in model.decls():
            if d.arity() or d.name() in ('pi', 'DBL_MAX') or d.name() in h:
                continue
            v = model[d]
            if z3.is_int_value(v):
                if abs(v.as_long()) <= 30:
                    h[d.name()] = v.as_long()
            elif z3.is_rational_value(v):
                x = float(v.as_fraction())
                if abs(x) <= 1e9:
                    h[d.name()] = x
            elif z3.is_algebraic_value(v):
                h[d.name()] = float(v.approx(12).as_fraction())
    except (z3.Z3Exception, AttributeError):
        return []
    return ([h] if h else []) + [{k: v} for k, v in list(h.items())[:12]]

def refute_eq(facts, a, b, samplers=None, tries=60, want=3, seed=0, model=None):
    """instance (dict) on which facts hold and a != b, or None; second result: instances compared"""
    m, n = _refute(facts, a, b, samplers, ['%s/%d' % (seed, t) for t in range(tries)], want)
    if m is not None or model is None:
        return m, n
    t0 = time.time()
    for k, h in enumerate(hint_sets(model)):
        if time.time() - t0 > 8:
            return None, n
        m, c = _refute(facts, a, b, samplers, ['%s/h%d/%d' % (seed, k, t) for t in range(12)], 2, h, t0 + 8)
        n += c
        if m is not None:
            return m, n
    for sc in (1e7, 1e-4):
        m, c = _refute(facts, a, b, samplers, ['%s/s%g/%d' % (seed, sc, t) for t in range(12)], 2, None, t0 + 10, sc)
        n += c
        if m is not None:
            return m, n
    return None, n

def _refute(facts, a, b, samplers, seeds, want, hint=None, until=None, scale=1):
    compared = 0
    for sd in seeds:
        if until is not None and time.time() > until:
            break
        ins = Inst(sd, samplers, env=hint, scale=scale)
        try:
            if not all(ins.p(f, {}) != 0 for f in facts):
                continue
            x, y = ins.p(a, {}), ins.p(b, {})
        except Skip:
            continue
        except (OverflowError, ValueError, TypeError, ZeroDivisionError):
            if hint is None and scale == 1:
                raise
            continue
        compared += 1
        if not close(x, y):
            # the same instance with its real leaves moved by 1e-11: a difference that is within the
            # sensitivity of either side (singular system, log of a vanishing sum) is evaluation noise
            ji = Inst(sd, samplers, jitter=1e-11, env=ins.env, scale=scale)
            try:
                x2, y2 = ji.p(a, {}), ji.p(b, {})
            except Skip:
                continue
            if abs(x2 - x) + abs(y2 - y) > 1e-5 * abs(x - y):
                continue
            return {'values': {k: v for k, v in ins.env.items()}, 'actual': x, 'expected': y}, compared
        if compared >= want:
            break
    return None, compared

def refute_bool(facts, goal, samplers=None, tries=60, want=3, seed=0):
    return refute_eq(facts, goal, ONE, samplers, tries, want, seed)
