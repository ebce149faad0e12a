"""Scalar term algebra of the verifier.

Every scalar (bool, int, double) is a polynomial P with rational coefficients over
hash-consed atoms.  Booleans are 0/1 valued polynomials over Iverson brackets, so
propositional structure, if-then-else and arithmetic share one normal form.
Summations are flattened into connected multi-binder sums (msum) whose bound
variables are canonically labelled.
Machine double is treated as mathematical real (recorded as an assumption in evidence).
"""
from fractions import Fraction as F
import hashlib, itertools, sys
sys.setrecursionlimit(20000)

_tab = {}
_fresh = itertools.count(1)
EMPTY = frozenset()

class TermLimit(Exception):
    pass

class Atom:
    __slots__ = ('op', 'args', 'key', 'fv', 'height', 'sort')
    # op: var app br lt(in br) paren sqrt msum lam
    def __repr__(self):
        return show_atom(self)
    def __lt__(self, o):
        return self.key < o.key

def _h(*parts):
    return hashlib.md5('\x00'.join(parts).encode()).hexdigest()

def _argkey(a):
    if isinstance(a, (Atom, P)):
        return a.key
    if isinstance(a, tuple):
        return '(' + ','.join(_argkey(x) for x in a) + ')'
    return type(a).__name__ + ':' + str(a)

def _argfv(a):
    if isinstance(a, (Atom, P)):
        return a.fv
    if isinstance(a, tuple):
        s = EMPTY
        for x in a:
            s = s | _argfv(x)
        return s
    return EMPTY

def _argheight(a):
    if isinstance(a, (Atom, P)):
        return a.height
    if isinstance(a, tuple):
        return max([_argheight(x) for x in a], default=0)
    return 0

def mk(op, args, sort='R', fv=None, height=None):
    k = (op, args, sort)
    a = _tab.get(k)
    if a is not None:
        return a
    a = Atom()
    a.op, a.args, a.sort = op, args, sort
    a.key = _h(op, sort, *[_argkey(x) for x in args])
    if fv is None:
        fv = _argfv(args)
    a.fv = fv
    a.height = _argheight(args) if height is None else height
    _tab[k] = a
    return a

class P:
    """polynomial: dict monomial -> Fraction ; monomial = tuple of (atom, exp) sorted by atom key"""
    __slots__ = ('t', '_key', '_fv', '_h', '_height')
    def __init__(self, t):
        self.t = t
        self._key = self._fv = self._h = self._height = None
    @property
    def key(self):
        if self._key is None:
            items = sorted((''.join(a.key + '^' + str(e) + ';' for a, e in m), str(c)) for m, c in self.t.items())
            self._key = _h('P', *[x + '*' + y for x, y in items])
        return self._key
    @property
    def fv(self):
        if self._fv is None:
            s = set()
            for m in self.t:
                for a, e in m:
                    s |= a.fv
            self._fv = frozenset(s)
        return self._fv
    @property
    def height(self):
        if self._height is None:
            self._height = max([a.height for m in self.t for a, e in m], default=0)
        return self._height
    def __hash__(self):
        return hash(self.key)
    def __eq__(self, o):
        return isinstance(o, P) and self.key == o.key
    def __repr__(self):
        return show(self)
    # arithmetic
    def __add__(self, o):
        return add(self, lift(o))
    __radd__ = __add__
    def __sub__(self, o):
        return add(self, scale(lift(o), F(-1)))
    def __rsub__(self, o):
        return add(lift(o), scale(self, F(-1)))
    def __mul__(self, o):
        return mul(self, lift(o))
    __rmul__ = __mul__
    def __neg__(self):
        return scale(self, F(-1))
    def __truediv__(self, o):
        return mul(self, recip(lift(o)))
    def __rtruediv__(self, o):
        return mul(lift(o), recip(self))
    def __pow__(self, n):
        return power(self, n)
    def const(self):
        """Fraction if constant else None"""
        if not self.t:
            return F(0)
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if not m:
                return c
        return None
    def atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

def num(x):
    if isinstance(x, float):
        x = F(x).limit_denominator(10**30) if x == x and abs(x) != float('inf') else F(0)
    x = F(x)
    return P({(): x} if x != 0 else {})
ZERO, ONE = P({}), P({(): F(1)})

def lift(x):
    if isinstance(x, P):
        return x
    if isinstance(x, Atom):
        return P({((x, 1),): F(1)})
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, F, float)):
        return num(x)
    raise TypeError('cannot lift %r' % (x,))

def var(name, sort='I'):
    return lift(mk('var', (name, sort), sort, fv=frozenset([name])))

def fresh(prefix='%', sort='I'):
    return '%s%d' % (prefix, next(_fresh))

MAXTERMS = 3000
import time as _time
DEADLINE = [None]
def set_budget(seconds):
    DEADLINE[0] = None if seconds is None else _time.time() + seconds
_tick = [0]
def tick():
    _tick[0] += 1
    if (_tick[0] & 255) == 0 and DEADLINE[0] is not None and _time.time() > DEADLINE[0]:
        raise TermLimit('time budget')

def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m)
        if v is None:
            t[m] = c
        else:
            v = v + c
            if v == 0:
                del t[m]
            else:
                t[m] = v
    return P(t)

def scale(a, c):
    if c == 0:
        return ZERO
    if c == 1:
        return a
    return P({m: v * c for m, v in a.t.items()})

def _mono_mul(m1, m2):
    """returns P-able pieces: (mono, extra P or None)"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    extra = None
    for a, e in m2:
        if a in d:
            if a.op == 'br':
                continue
            d[a] += e
        else:
            d[a] = e
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if abs(e) >= 2 and (a.op == 'sqrt' or (a.op == 'app' and a.args[0] == 'abs')):
            q, r = divmod(abs(e), 2)
            base = a.args[0] if a.op == 'sqrt' else power(a.args[1][0], 2)
            x = power(base, q if e > 0 else -q)
            extra = x if extra is None else mul(extra, x)
            e = r if e > 0 else -r
            if e == 0:
                continue
        if a.op == 'br' and e != 1:
            e = 1
        if a.op == 'paren' and e > 0:
            x = power(a.args[0], e)
            extra = x if extra is None else mul(extra, x)
            continue
        out.append((a, e))
    out.sort(key=lambda p: p[0].key)
    return tuple(out), extra

def _clean(m):
    """detect contradictions between equality brackets in a monomial (eq(p-q) substitution kept simple)"""
    return m

def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    ca, cb = a.const(), b.const()
    if ca is not None:
        return scale(b, ca)
    if cb is not None:
        return scale(a, cb)
    if len(a.t) * len(b.t) > MAXTERMS * 20:
        raise TermLimit('product too large')
    t = {}
    acc = None
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            tick()
            m, extra = _mono_mul(m1, m2)
            c = c1 * c2
            if extra is None:
                v = t.get(m)
                v = c if v is None else v + c
                if v == 0:
                    t.pop(m, None)
                else:
                    t[m] = v
            else:
                x = mul(P({m: c}), extra)
                acc = x if acc is None else add(acc, x)
    r = P(t)
    if acc is not None:
        r = add(r, acc)
    if len(r.t) > MAXTERMS:
        raise TermLimit('too many monomials')
    return r

def power(a, n):
    n = int(n)
    if n == 0:
        return ONE
    if n < 0:
        return power(recip(a), -n)
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r

def psqrt(a):
    """(r, c) with a == c * r^2, r a polynomial; None when a is no such multiple of a square"""
    ats = {}
    for m in a.t:
        for x, e in m:
            if x.op == 'br':
                return None
            ats[x] = 1
    ats = sorted(ats, key=lambda x: x.key)
    ix = {x: i for i, x in enumerate(ats)}
    def vec(m):
        v = [0] * len(ats)
        for x, e in m:
            v[ix[x]] = e
        return tuple(v)
    def mono(v):
        return tuple((x, e) for x, e in zip(ats, v) if e)
    d = {vec(m): c for m, c in a.t.items()}
    top = max(d)
    if any(e % 2 for e in top) or any(e % 2 for e in min(d)):
        return None
    c0 = d[top]
    half = tuple(e // 2 for e in top)
    r = {half: F(1)}
    rem = {v: c / c0 for v, c in d.items() if v != top}
    for _ in range(5):
        if not rem:
            return P({mono(v): c for v, c in r.items()}), c0
        t = max(rem)
        q = tuple(x - y for x, y in zip(t, half))
        if q >= half or q in r:
            return None
        cq = rem[t] / 2
        # rem -= 2*r*cq*q + cq^2 q^2
        for v, c in r.items():
            k = tuple(x + y for x, y in zip(v, q))
            rem[k] = rem.get(k, 0) - 2 * c * cq
        k = tuple(2 * x for x in q)
        rem[k] = rem.get(k, 0) - cq * cq
        rem = {v: c for v, c in rem.items() if c != 0}
        r[q] = cq
    return None

def recip(a):
    c = a.const()
    if c is not None:
        if c == 0:
            return lift(mk('app', ('divzero', ()), 'R'))
        return num(1 / c)
    if len(a.t) == 1:
        (m, c), = a.t.items()
        if all(x.op != 'br' for x, e in m):
            # parens flip back
            acc = P({tuple((x, -e) for x, e in m if not (x.op == 'paren' and e < 0)): 1 / c})
            for x, e in m:
                if x.op == 'paren' and e < 0:
                    acc = mul(acc, power(x.args[0], -e))
            return acc
    brs = {x for m in a.t for x, e in m if x.op == 'br'}
    if 1 <= len(brs) <= 2:
        # 1/(case split) is the case split of the reciprocals
        b = min(brs, key=lambda x: x.key)
        a1, a0 = {}, {}
        for m, c in a.t.items():
            m2 = tuple(xe for xe in m if xe[0] is not b)
            a1[m2] = a1.get(m2, 0) + c
            if len(m2) == len(m):
                a0[m2] = a0.get(m2, 0) + c
        a1, a0 = (P({m: c for m, c in d.items() if c != 0}) for d in (a1, a0))
        if a1.t and a0.t:
            return ite(lift(b), recip(a1), recip(a0))
    # make monic by a canonical leading monomial; pull common monomial factor
    lead = min(a.t, key=lambda m: ''.join(x.key + str(e) for x, e in m))
    common = None
    for m in a.t:
        d = {x: e for x, e in m if x.op not in ('br',)}
        if common is None:
            common = d
        else:
            common = {x: min(e, d[x]) for x, e in common.items() if x in d and (e > 0) == (d[x] > 0)}
        if not common:
            break
    cm = ONE
    if common:
        cmn = tuple(sorted(((x, e) for x, e in common.items() if e != 0), key=lambda p: p[0].key))
        if cmn:
            cm = P({cmn: F(1)})
            inv = P({tuple((x, -e) for x, e in cmn): F(1)})
            a = mul(a, inv)
            if a.const() is not None or len(a.t) == 1:
                return mul(recip(cm), recip(a))
            lead = min(a.t, key=lambda m: ''.join(x.key + str(e) for x, e in m))
    c = a.t[lead]
    sq = psqrt(a) if 3 <= len(a.t) <= 15 else None
    if sq is not None:
        # 1/(c r^2) is (1/r)^2 / c
        r = scale(power(recip(sq[0]), 2), 1 / sq[1])
    else:
        at = mk('paren', (scale(a, 1 / c),), 'R')
        r = P({((at, -1),): 1 / c})
    if cm is not ONE:
        r = mul(r, recip(cm))
    return r

def sqrt(a):
    c = a.const()
    if c is not None and c >= 0:
        from math import isqrt
        n, d = c.numerator, c.denominator
        if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
            return num(F(isqrt(n), isqrt(d)))
    return lift(mk('sqrt', (a,), 'R'))

# ---------------------------------------------------------------- conditions
def br(atom):
    return lift(mk('br', (atom,), 'I'))

def is_int(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or not atom_int(a):
                return False
    return True

def atom_int(a):
    if a.op == 'br':
        return True
    return a.sort == 'I'

def _norm_sign(p):
    """scale by positive constant so that content is 1 (ints) / leading coeff abs 1"""
    cs = list(p.t.values())
    if not cs:
        return p
    from math import gcd
    g = 0
    l = 1
    for c in cs:
        l = l * c.denominator // gcd(l, c.denominator)
    for c in cs:
        g = gcd(g, abs(c.numerator * (l // c.denominator)))
    return scale(p, F(l, g))

def lt(a, b):
    """[a < b]"""
    a, b = lift(a), lift(b)
    p = a - b
    c = p.const()
    if c is not None:
        return ONE if c < 0 else ZERO
    if is_int(p):
        # p < 0  <=>  p <= -1 ; canonical among p<0 and not(-p-1<0): choose by key of nonconstant part
        k = p.t.get((), F(0))
        q = p - num(k)
        from math import gcd
        g = 0
        for c in q.t.values():
            g = gcd(g, int(c))
        if g > 1:
            # q/g + k/g < 0  <=> q/g < -k/g <=> q/g + ceil(k/g).. q/g <= ceil(-k/g)-1
            import math
            k = F(-math.ceil(F(-k) / g))
            q = scale(q, F(1, g))
        if k == -1:
            v = q.atom()
            if v is not None and v.op == 'var' and (v.args[0][0] == '$' or v.args[0][-1] == '#'):
                return eq(q, ZERO)          # bound variables range over 0..n-1
        return br(mk('lt', (q + num(k),), 'B'))
    p = _norm_sign(p)
    return br(mk('lt', (p,), 'B'))

def le(a, b):
    """[a<=b]"""
    a, b = lift(a), lift(b)
    return ONE - lt(b, a)

def eq(a, b):
    a, b = lift(a), lift(b)
    p = a - b
    c = p.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    # 0/1 booleans compared with constants
    p = _norm_sign(p)
    q = -p
    if q.key < p.key:
        p = q
    if is_int(p):
        k = p.t.get((), F(0))
        from math import gcd
        g = 0
        for m, c in p.t.items():
            if m:
                g = gcd(g, int(c))
        if g > 1 and k % g != 0:
            return ZERO
        at = p.atom()
        if at is not None and at.op == 'br':
            return ONE - lift(at)
        if (p.atom() is None and len(p.t) == 2):
            # [b]==1
            for s in (F(1), F(-1)):
                q2 = scale(p, s) + ONE
                at = q2.atom()
                if at is not None and at.op == 'br':
                    return lift(at)
    return br(mk('eq', (p,), 'B'))

def ne(a, b):
    return ONE - eq(a, b)
def band(a, b):
    return mul(a, b)
def bor(a, b):
    return a + b - a * b
def bnot(a):
    return ONE - a
def ite(c, a, b):
    k = c.const()
    if k is not None:
        return a if k != 0 else b
    if a == b:
        return a
    return c * a + (ONE - c) * b

def app(name, *args, sort='R'):
    return lift(mk('app', (name, tuple(lift(a) if not isinstance(a, (Atom, str, tuple)) else a for a in args)), sort))

def bapp(name, *args):
    """uninterpreted predicate as 0/1"""
    return br(mk('app', (name, tuple(lift(a) if not isinstance(a, (Atom, str, tuple)) else a for a in args)), 'B'))

# ---------------------------------------------------------------- substitution
def subst(x, s, memo=None):
    """s: dict varname -> P"""
    if memo is None:
        memo = {}
    if isinstance(x, P):
        if not s or not (x.fv & s.keys()):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        acc = {}
        rest = None
        for m, c in x.t.items():
            if not any(a.fv & s.keys() for a, e in m):
                v = acc.get(m, F(0)) + c
                if v == 0:
                    acc.pop(m, None)
                else:
                    acc[m] = v
                continue
            cur = num(c)
            for a, e in m:
                cur = mul(cur, atom_pow(subst(a, s, memo), e))
                if not cur.t:
                    break
            rest = cur if rest is None else add(rest, cur)
        r = P(acc)
        if rest is not None:
            r = add(r, rest)
        memo[x] = r
        return r
    if isinstance(x, Atom):
        if not (x.fv & s.keys()):
            return lift(x) if x.op != 'lam' else x
        r = memo.get(x)
        if r is not None:
            return r
        r = _subst_atom(x, s, memo)
        memo[x] = r
        return r
    if isinstance(x, tuple):
        return tuple(subst(y, s, memo) if isinstance(y, (P, Atom, tuple)) else y for y in x)
    return x

def atom_pow(p, e):
    if e == 1:
        return p
    return power(p, e)

def _subst_atom(x, s, memo):
    op = x.op
    if op == 'var':
        return s[x.args[0]]
    if op == 'app':
        return rebuild_app(x.args[0], subst(x.args[1], s, memo), x.sort)
    if op == 'br':
        c = x.args[0]
        if c.op == 'lt':
            return lt(subst(c.args[0], s, memo), ZERO)
        if c.op == 'eq':
            return eq(subst(c.args[0], s, memo), ZERO)
        if c.op == 'app':
            r = rebuild_app(c.args[0], subst(c.args[1], s, memo), 'B')
            return r
        if c.op == 'all':
            return open_all(c, s, memo)
        raise TypeError(c.op)
    if op == 'sqrt':
        return sqrt(subst(x.args[0], s, memo))
    if op == 'paren':
        return subst(x.args[0], s, memo)
    if op == 'msum':
        vs, fac = open_msum(x)
        vs = [(v, subst(h, s, memo)) for v, h in vs]
        body = ONE
        for a, e in fac:
            body = mul(body, atom_pow(subst(a, s, memo), e))
        return msum(vs, body)
    if op == 'lam':
        names = [fresh() for _ in x.args[0]]
        ren = {o: var(n) for o, n in zip(x.args[0], names)}
        b = subst(x.args[1], ren)
        b = subst(b, s, memo)
        return lam(names, b)
    if op in ('rmax', 'rmin'):
        v = fresh()
        b = subst(subst(x.args[2], {x.args[0]: var(v)}), s, memo)
        return rext(op, v, subst(x.args[1], s, memo), b)
    raise TypeError(op)

def lam(names, body):
    """closed lambda atom over bound variable names"""
    h = body.height + 1
    canon = tuple('$%d_%d' % (h, k) for k in range(len(names)))
    b = _guarded(subst(body, {n: var(c) for n, c in zip(names, canon)}), canon)
    return mk('lam', (canon, b), 'L', fv=b.fv - frozenset(canon), height=h)

def _guarded(p, names):
    """monomials guarded by an equality between the given names (or with a constant) mention only the first of them"""
    out = None
    for m, c in p.t.items():
        q = _guarded_mono(m, names)
        if q is not None and out is None:
            out = P({m2: c2 for m2, c2 in p.t.items()})
        if q is not None:
            out = add(out, scale(add(_guarded(q, names), scale(P({m: F(1)}), -1)), c))
    return p if out is None else out

def _guarded_mono(m, names):
    for a, e in m:
        if a.op == 'br' and a.args[0].op == 'eq':
            for k in range(len(names) - 1, -1, -1):
                v = names[k]
                if v in a.fv and any(v in b.fv for b, e2 in m if b is not a):
                    t = _lin_eq(a.args[0].args[0], v)
                    if t is None or not t.fv <= frozenset(names[:k]):
                        continue
                    q = lift(a)
                    for b, e2 in m:
                        if b is not a:
                            q = mul(q, power(subst(lift(b), {v: t}), e2) if e2 > 0 else recip(power(subst(lift(b), {v: t}), -e2)))
                    return q
    return None

def lam_apply(l, *args):
    return subst(l.args[1], dict(zip(l.args[0], args)))

def rext(op, v, n, body):
    """max/min over v in [0,n) of body"""
    k = n.const()
    if k is not None and 1 <= k <= 4:
        r = subst(body, {v: ZERO})
        for q in range(1, int(k)):
            r = _rebuilders['max2' if op == 'rmax' else 'min2']((r, subst(body, {v: num(q)})), 'R')
        return r
    h = body.height + 1
    c = '$%d_0' % h
    b = subst(body, {v: var(c)})
    if c not in b.fv:
        return body
    return lift(mk(op, (c, n, b), 'R', fv=(b.fv - {c}) | n.fv, height=h))

# forall v in [0,n): body (0/1)
def forall(v, n, body):
    k = body.const()
    if k is not None and k != 0:
        return ONE
    if v not in body.fv:
        return bor(body, le(n, 0))
    h = body.height + 1
    c = '$%d_0' % h
    b = subst(body, {v: var(c)})
    if c not in b.fv:
        return bor(b, le(n, 0))
    # a product of independent conjuncts distributes
    if len(b.t) == 1:
        (m, cc), = b.t.items()
        if cc == 1 and len(m) > 1 and all(a.op == 'br' for a, e in m):
            r = ONE
            for a, e in m:
                r = r * forall(c, n, lift(a))
            return r
    at = mk('all', (c, n, b), 'B', fv=(b.fv - {c}) | n.fv, height=h)
    return br(at)

def exists(v, n, body):
    return ONE - forall(v, n, ONE - body)

def open_all(c, s, memo):
    v = fresh()
    b = subst(subst(c.args[2], {c.args[0]: var(v)}), s, memo)
    return forall(v, subst(c.args[1], s, memo), b)

def is_symmetric(l):
    r = _symcache.get(l)
    if r is None:
        a, b = l.args[0]
        x, y = fresh(), fresh()
        r = lam_apply(l, var(x), var(y)) == lam_apply(l, var(y), var(x))
        _symcache[l] = r
    return r
_symcache = {}

_rebuilders = {}
def rebuild_app(name, args, sort):
    f = _rebuilders.get(name)
    if f is not None:
        return f(args, sort)
    at = mk('app', (name, args), sort)
    return br(at) if sort == 'B' else lift(at)

# ---------------------------------------------------------------- sums
def open_msum(a):
    """-> [(fresh var, hi)], [(atom,exp)] with fresh bound variables"""
    vs, fac = a.args
    ren = {}
    names = []
    for v, h in vs:
        n = fresh()
        ren[v] = var(n)
        names.append(n)
    memo = {}
    out = []
    nv = [(n, subst(h, ren, memo)) for n, (v, h) in zip(names, vs)]
    for at, e in fac:
        p = subst(at, ren, memo)
        q = p.atom()
        if q is not None:
            out.append((q, e))
        else:
            # renaming turned an atom into a general polynomial (e.g. sign flip in comparison)
            out.append((p, e))
    return nv, out

def ssum(v, n, body):
    """sum_{v in [0,n)} body"""
    return msum([(v, lift(n))], body)

# hook: decide whether a boolean poly holds under the current assumptions (set by prover)
def default_simplify_cond(c):
    return c
COND = {'simp': default_simplify_cond}

_selc = {}
def _has_sel(x):
    """names that occur directly as the position in a selection sel(mask, n, name) below x: {name: atom}"""
    if isinstance(x, P):
        r = {}
        for m in x.t:
            for a, e in m:
                r.update(_has_sel(a))
        return r
    if isinstance(x, tuple):
        r = {}
        for y in x:
            r.update(_has_sel(y))
        return r
    if not isinstance(x, Atom):
        return {}
    r = _selc.get(x)
    if r is None:
        r = {}
        for y in x.args:
            r.update(_has_sel(y))
        if x.op == 'app' and x.args[0] == 'sel':
            for y in x.args[1][2:]:
                for v in y.fv:
                    if y == var(v):
                        r[v] = x
        _selc[x] = r
    return r

def _sum_selected(v, h, vs, body):
    """sum over the selected positions of a mask = sum over all positions of mask times the summand"""
    a = _has_sel(body).get(v)
    if a is None:
        return None
    mask, n = a.args[1][0], a.args[1][1]
    if not isinstance(mask, Atom) or mask.op != 'lam':
        return None
    j = fresh('q#')
    at = subst(mask.args[1], {mask.args[0][0]: var(j)})
    if h != msum([(j, n)], at):
        return None
    new = subst(body, {v: var('$unselected')}, {a: var(j)})
    if '$unselected' in new.fv:
        return None
    return msum([(w, h2) for w, h2 in vs if w != v] + [(j, n)], mul(at, new))

def msum(vs, body):
    """sum over vars (name, hi) ranges [0,hi) of polynomial body"""
    tick()
    for v, h in vs:
        c = h.const()
        if c is not None and c <= 4 and not any(v in h2.fv for w, h2 in vs if w != v):
            nvs = [(w, h2) for w, h2 in vs if w != v]
            acc = ZERO
            for q in range(int(c)):
                b = subst(body, {v: num(q)})
                acc = add(acc, msum(nvs, b) if nvs else b)
            return acc
    for v, h in vs:
        if v in body.fv and h.const() is None:
            r = _sum_selected(v, h, vs, body)
            if r is not None:
                return r
    names = {v for v, h in vs}
    if not (body.fv & names):
        r = body
        for v, h in vs:
            if h.fv & names:
                break
            r = mul(r, h)
        else:
            return r
    acc = ZERO
    for m, c in body.t.items():
        acc = add(acc, scale(_msum_mono(list(vs), m), c))
    return acc

def _lin_eq(p, v):
    """p == 0 with p = c*v + rest, c=±1, rest free of v -> solution for v, else None"""
    c = None
    rest = {}
    for m, k in p.t.items():
        if len(m) == 1 and m[0][0].op == 'var' and m[0][0].args[0] == v and m[0][1] == 1:
            c = k
        else:
            for a, e in m:
                if v in a.fv:
                    return None
            rest[m] = k
    if c is None or abs(c) != 1:
        return None
    return scale(P(rest), -c)

def _msum_mono(vs, m):
    """sum over vs of monomial m"""
    names = {v: h for v, h in vs}
    # 1. open dependent msum atoms
    fac = []
    pending = None
    for a, e in m:
        if a.op == 'msum' and e > 0 and (a.fv & names.keys()):
            for _ in range(e):
                nv, f2 = open_msum(a)
                vs = vs + nv
                for x, e2 in f2:
                    if isinstance(x, P):
                        pending = (pending if pending is not None else ONE) * atom_pow(x, e2)
                    else:
                        fac.append((x, e2))
        else:
            fac.append((a, e))
    if pending is not None:
        body = pending
        for a, e in fac:
            body = mul(body, atom_pow(lift(a), e))
        return msum(vs, body)
    if len(vs) > 12:
        raise TermLimit('too many bound variables')
    names = {v: h for v, h in vs}
    # 2. delta rule
    for a, e in fac:
        if a.op == 'br' and a.args[0].op == 'eq' and (a.fv & names.keys()):
            p = a.args[0].args[0]
            cands = [v for v in names if v in a.fv]
            for v in sorted(cands):
                t = _lin_eq(p, v)
                if t is None or not is_int(t):
                    continue
                # range of other vars must not depend on v, and t must not ... (t may use other bound vars)
                if any(v in h.fv for w, h in vs if w != v):
                    continue
                h = names[v]
                rest = COND['simp'](mul(le(0, t), lt(t, h)))
                if (h.fv & {v}):
                    continue
                body = rest
                sub = {v: t}
                memo = {}
                for b, e2 in fac:
                    if b is a:
                        continue
                    body = mul(body, atom_pow(subst(b, sub, memo), e2))
                    if not body.t:
                        return ZERO
                nvs = [(w, hh) for w, hh in vs if w != v]
                if not nvs:
                    return body
                return msum(nvs, body)
    # 3. factors independent
    out = ONE
    dep = []
    for a, e in fac:
        if a.fv & names.keys():
            dep.append((a, e))
        else:
            out = mul(out, P({((a, e),): F(1)}))
    # combine equal atoms
    d = {}
    for a, e in dep:
        if a.op == 'br':
            d[a] = 1
        else:
            d[a] = d.get(a, 0) + e
    if any(e == 0 for e in d.values()):
        d = {a: e for a, e in d.items() if e != 0}
    if any(abs(e) >= 2 and (a.op == 'sqrt' or (a.op == 'app' and a.args[0] == 'abs')) for a, e in d.items()):
        body = ONE
        for a, e in d.items():
            body = mul(body, atom_pow(lift(a), e) if e > 0 else power(recip(lift(a)), -e))
        return mul(out, msum(vs, body))
    dep = list(d.items())
    # 4. components (factors and ranges link variables)
    comp = {v: v for v in names}
    def find(v):
        while comp[v] != v:
            v = comp[v]
        return v
    def union(a, b):
        a, b = find(a), find(b)
        if a != b:
            comp[a] = b
    for a, e in dep:
        l = [v for v in names if v in a.fv]
        for w in l[1:]:
            union(l[0], w)
    for v, h in vs:
        for w in names:
            if w != v and w in h.fv:
                union(v, w)
    groups = {}
    for v, h in vs:
        groups.setdefault(find(v), ([], []))[0].append((v, h))
    for a, e in dep:
        l = [v for v in names if v in a.fv]
        groups[find(l[0])][1].append((a, e))
    for gvs, gf in groups.values():
        if not gf and len(gvs) == 1:
            out = mul(out, gvs[0][1])
            continue
        out = mul(out, _canon_component(gvs, gf))
        if not out.t:
            return ZERO
    return out

_ccache = {}
def _canon_component(gvs, gf):
    # canonical labelling
    names = [v for v, h in gvs]
    n = len(names)
    hs = dict(gvs)
    HASH = '#self'
    def skel(v):
        ren = {w: var('*other') for w in names if w != v}
        ren[v] = var(HASH)
        memo = {}
        parts = sorted('%s^%d' % (subst(a, ren, memo).key, e) for a, e in gf if v in a.fv)
        return _h('sk', subst(hs[v], ren, memo).key, *parts)
    sig = {v: skel(v) for v in names}
    # one refinement round: multiset of (factor with self / neighbours' signature)
    for _ in range(2):
        if len(set(sig.values())) == n:
            break
        nsig = {}
        for v in names:
            ren = {w: var('*' + sig[w]) for w in names if w != v}
            ren[v] = var(HASH)
            memo = {}
            parts = sorted('%s^%d' % (subst(a, ren, memo).key, e) for a, e in gf if v in a.fv)
            nsig[v] = _h('sk', sig[v], subst(hs[v], ren, memo).key, *parts)
        if len(set(nsig.values())) == len(set(sig.values())):
            sig = nsig
            break
        sig = nsig
    order = sorted(names, key=lambda v: sig[v])
    classes = [list(g) for k, g in itertools.groupby(order, key=lambda v: sig[v])]
    height = max([a.height for a, e in gf] + [h.height for h in hs.values()] + [0]) + 1
    canon = ['$%d_%d' % (height, k) for k in range(n)]
    tot = 1
    from math import factorial
    for c in classes:
        tot *= factorial(len(c))
    best = None
    if tot > 720:
        perms = [order]
    else:
        perms = (sum(map(list, p), []) for p in itertools.product(*[itertools.permutations(c) for c in classes]))
    for perm in perms:
        tick()
        ren = {v: var(canon[k]) for k, v in enumerate(perm)}
        memo = {}
        fs, coef = {}, F(1)
        ok = True
        for a, e in gf:
            if a.op == 'paren' and e < 0:
                p, e2 = recip(subst(a.args[0], ren, memo)), -e
            else:
                p, e2 = subst(a, ren, memo), e
            if len(p.t) != 1:
                ok = False
                break
            (mono, c), = p.t.items()          # orientation may change the sign or scale of an atom
            coef *= c ** e2
            for q, eq_ in mono:
                if q in fs and q.op != 'br':
                    ok = False
                fs[q] = 1 if q.op == 'br' else eq_ * e2
        if not ok:
            # renaming changed an atom into a polynomial: expand and redo under these names
            body = ONE
            for a, e in gf:
                body = mul(body, atom_pow(subst(a, ren, memo), e) if not (a.op == 'paren' and e < 0) else power(recip(subst(a.args[0], ren, memo)), -e))
            back = {canon[k]: var(fresh()) for k in range(n)}
            nv = []
            for k, v in enumerate(perm):
                nv.append((back[canon[k]].atom().args[0], subst(subst(hs[v], ren), back)))
            # choose orientation once: guard against infinite recursion
            return _force_component(nv, subst(body, back))
        fs = sorted(fs.items(), key=lambda p: p[0].key)
        vs = tuple((canon[k], subst(hs[v], ren, memo)) for k, v in enumerate(perm))
        k = ','.join('%s^%d' % (a.key, e) for a, e in fs) + '|' + ','.join(h.key for v, h in vs)
        if best is None or k < best[0]:
            best = (k, vs, tuple(fs), coef)
        elif k == best[0] and coef != best[3]:
            return ZERO                       # the sum equals a different multiple of itself
    _, vs, fs, coef = best
    fv = EMPTY
    for a, e in fs:
        fv |= a.fv
    for v, h in vs:
        fv |= h.fv
    fv -= frozenset(canon)
    sort = 'I' if all(atom_int(a) and e > 0 for a, e in fs) else 'R'
    return scale(lift(mk('msum', (vs, fs), sort, fv=fv, height=height)), coef)

def _force_component(nv, body):
    """fallback when orientation of comparison atoms flips under renaming: treat flipped polynomials additively"""
    acc = ZERO
    depth = getattr(_force_component, 'd', 0)
    if depth > 3:
        raise TermLimit('orientation')
    _force_component.d = depth + 1
    try:
        for m, c in body.t.items():
            acc = add(acc, scale(_msum_mono(nv, m), c))
    finally:
        _force_component.d = depth
    return acc

# ---------------------------------------------------------------- printing
def show(p, top=True):
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda mc: [(a.key, e) for a, e in mc[0]]):
        f = '*'.join(show_atom(a) + ('' if e == 1 else '^%d' % e) for a, e in m)
        if not f:
            out.append(str(c))
        elif c == 1:
            out.append(f)
        elif c == -1:
            out.append('-' + f)
        else:
            out.append('%s*%s' % (c, f))
    s = ' + '.join(out)
    return s if top or len(out) == 1 else '(' + s + ')'

def show_atom(a):
    op = a.op
    if op == 'var':
        return a.args[0]
    if op == 'app':
        return '%s(%s)' % (a.args[0], ','.join(show(x) if isinstance(x, P) else (show_atom(x) if isinstance(x, Atom) else str(x)) for x in a.args[1]))
    if op == 'br':
        return '[' + show_atom(a.args[0]) + ']'
    if op == 'lt':
        return show(a.args[0]) + '<0'
    if op == 'eq':
        return show(a.args[0]) + '==0'
    if op == 'all':
        return 'forall %s<%s: %s' % (a.args[0], show(a.args[1]), show(a.args[2]))
    if op == 'sqrt':
        return 'sqrt(%s)' % show(a.args[0])
    if op == 'paren':
        return '(%s)' % show(a.args[0])
    if op in ('rmax', 'rmin'):
        return '%s{%s<%s}(%s)' % (op, a.args[0], show(a.args[1]), show(a.args[2]))
    if op == 'msum':
        return 'SUM{%s}(%s)' % (','.join('%s<%s' % (v, show(h)) for v, h in a.args[0]),
                                '*'.join(show_atom(x) + ('' if e == 1 else '^%d' % e) for x, e in a.args[1]))
    if op == 'lam':
        return '\\%s.%s' % (','.join(a.args[0]), show(a.args[1]))
    return op + str(a.args)
