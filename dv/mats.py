"""Matrix values (index-wise lambdas) and the assumed contracts of the Armadillo operations used by /repo.

A Mat is (nr, nc, body) where body is a scalar polynomial in the formals @r,@c.  Every operation below is
the (trusted) contract of the Armadillo function of that name: precondition via req(cond, text), result by
its mathematical definition; inv/det/svd/eig/sort/rank are uninterpreted functions of their (canonical) argument.
"""
from terms import *
import terms as T

R_, C_, S_ = '@r', '@c', '@s'
VR, VC, VS = var(R_), var(C_), var(S_)

class Unsupported(Exception):
    pass

class Mat:
    __slots__ = ('nr', 'nc', 'body', 'vt')
    def __init__(self, nr, nc, body, vt=None):
        nr, nc = lift(nr), lift(nc)
        if nc == ONE and C_ in body.fv:
            body = subst(body, {C_: ZERO})
        if nr == ONE and R_ in body.fv:
            body = subst(body, {R_: ZERO})
        self.nr, self.nc, self.body, self.vt = nr, nc, body, vt
    def get(self, i, j):
        return subst(self.body, {R_: lift(i), C_: lift(j)})
    def __repr__(self):
        return 'Mat[%s x %s](%s)' % (self.nr, self.nc, self.body)
    @property
    def iscol(self):
        return self.nc == ONE
    @property
    def isrow(self):
        return self.nr == ONE
    def lin(self, k):
        """linear index of a vector"""
        if self.nc == ONE:
            return self.get(k, 0)
        if self.nr == ONE:
            return self.get(0, k)
        raise Unsupported('linear index into a matrix')
    @property
    def n_elem(self):
        return self.nr * self.nc
    def T(self):
        return Mat(self.nc, self.nr, subst(self.body, {R_: VC, C_: VR}))
    def same(self, o):
        return isinstance(o, Mat) and self.nr == o.nr and self.nc == o.nc and self.body == o.body
    def restrict(self):
        return self

class Cube:
    __slots__ = ('nr', 'nc', 'ns', 'body')
    def __init__(self, nr, nc, ns, body):
        self.nr, self.nc, self.ns, self.body = lift(nr), lift(nc), lift(ns), body
    def get(self, i, j, k):
        return subst(self.body, {R_: lift(i), C_: lift(j), S_: lift(k)})
    def slice(self, k):
        return Mat(self.nr, self.nc, subst(self.body, {S_: lift(k)}))
    def same(self, o):
        return isinstance(o, Cube) and (self.nr, self.nc, self.ns, self.body) == (o.nr, o.nc, o.ns, o.body)
    def __repr__(self):
        return 'Cube[%s x %s x %s](%s)' % (self.nr, self.nc, self.ns, self.body)

def mfun(nr, nc, f):
    return Mat(nr, nc, f(VR, VC))
def colv(n, f):
    return Mat(n, ONE, f(VR))
def symmat(name, nr, nc, sort='R'):
    nr, nc = lift(nr), lift(nc)
    if nc == ONE:
        return Mat(nr, nc, app(name, VR, sort=sort))
    return Mat(nr, nc, app(name, VR, VC, sort=sort))
def zeros(nr, nc):
    return Mat(nr, nc, ZERO)
def ones(nr, nc):
    return Mat(nr, nc, ONE)
def eye(n, m=None):
    return Mat(n, n if m is None else m, eq(VR, VC))
def transpose(a):
    return a.T()

NOREQ = lambda c, what: None

def emap(f, a):
    return Mat(a.nr, a.nc, f(a.body))
def ebin(f, a, b, req=NOREQ, what='elementwise'):
    if isinstance(a, P) and isinstance(b, P):
        return f(a, b)
    if isinstance(a, P):
        return Mat(b.nr, b.nc, f(a, b.body))
    if isinstance(b, P):
        return Mat(a.nr, a.nc, f(a.body, b))
    if isinstance(a, Cube) or isinstance(b, Cube):
        raise Unsupported('cube elementwise')
    req(eq(a.nr, b.nr) * eq(a.nc, b.nc), what + ': same size')
    return Mat(a.nr, a.nc, f(a.body, b.body))

def matmul(a, b, req=NOREQ):
    if isinstance(a, P) or isinstance(b, P):
        return ebin(lambda x, y: x * y, a, b)
    req(eq(a.nc, b.nr), 'matrix product: inner dimensions agree')
    v = fresh()
    V = var(v)
    n = a.nc
    return Mat(a.nr, b.nc, ssum(v, n, subst(a.body, {C_: V}) * subst(b.body, {R_: V})))

def vecsum(m):
    """sum of all elements"""
    if m.nc == ONE:
        v = fresh()
        return ssum(v, m.nr, m.get(var(v), 0))
    if m.nr == ONE:
        v = fresh()
        return ssum(v, m.nc, m.get(0, var(v)))
    v, w = fresh(), fresh()
    return msum([(v, m.nr), (w, m.nc)], m.get(var(v), var(w)))

def dimsum(m, dim):
    v = fresh()
    if dim == 0:
        return Mat(ONE, m.nc, ssum(v, m.nr, subst(m.body, {R_: var(v)})))
    return Mat(m.nr, ONE, ssum(v, m.nc, subst(m.body, {C_: var(v)})))

def mlam(m):
    return lam([R_, C_], m.body)
def vlam(m):
    """1-d lambda of a vector"""
    if m.nc == ONE:
        return lam([R_], subst(m.body, {C_: ZERO}))
    if m.nr == ONE:
        return lam([C_], subst(m.body, {R_: ZERO}))
    raise Unsupported('vector expected')
def vlen(m):
    if m.nc == ONE:
        return m.nr
    if m.nr == ONE:
        return m.nc
    raise Unsupported('vector expected')

def _rb_inv(args, sort):
    L, n, i, j = args
    if n.const() == 1:
        return recip(lam_apply(L, ZERO, ZERO))
    if is_symmetric(L) and j.key < i.key:
        i, j = j, i
    return lift(mk('app', ('inv', (L, n, i, j)), 'R'))
T._rebuilders['inv'] = _rb_inv
def _rb_det(args, sort):
    L, n = args
    if n.const() == 1:
        return lam_apply(L, ZERO, ZERO)
    return lift(mk('app', ('det', (L, n)), 'R'))
T._rebuilders['det'] = _rb_det

def inv(a, req=NOREQ):
    req(eq(a.nr, a.nc), 'inverse of a square matrix')
    return Mat(a.nr, a.nr, _rb_inv((mlam(a), a.nr, VR, VC), 'R'))
def det(a):
    return _rb_det((mlam(a), a.nr), 'R')
def trace(a):
    v = fresh()
    return ssum(v, a.nr, a.get(var(v), var(v)))
def solve(a, b, req=NOREQ):
    return matmul(inv(a, req), b, req)

def mean(m):
    return vecsum(m) / vlen(m)
def dimmean(m, dim):
    s = dimsum(m, dim)
    return emap(lambda x: x / (m.nr if dim == 0 else m.nc), s)
def variance(m, norm=0):
    mu = mean(m)
    d = emap(lambda x: (x - mu) * (x - mu), m)
    return vecsum(d) / (vlen(m) - 1 + norm)
def dimvariance(m, dim, norm=0):
    """variances of the columns (0) or rows (1)"""
    mu = dimmean(m, dim)
    c = m.body - (subst(mu.body, {R_: ZERO}) if dim == 0 else subst(mu.body, {C_: ZERO}))
    s = dimsum(Mat(m.nr, m.nc, c * c), dim)
    return emap(lambda x: x / ((m.nr if dim == 0 else m.nc) - 1 + norm), s)
def vmax(m):
    v = fresh()
    return rext('rmax', v, vlen(m), m.lin(var(v)))
def vmin(m):
    v = fresh()
    return rext('rmin', v, vlen(m), m.lin(var(v)))
def dimext(op, m, dim):
    v = fresh()
    if dim == 0:
        return Mat(ONE, m.nc, rext(op, v, m.nr, subst(m.body, {R_: var(v)})))
    return Mat(m.nr, ONE, rext(op, v, m.nc, subst(m.body, {C_: var(v)})))

def _rb_abs(args, sort):
    p = args[0]
    c = p.const()
    if c is not None:
        return num(abs(c))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] < 0 and m[0][0].op == 'paren':
            # |c / x^e| = |c| / |x|^e
            return T.power(T.recip(_rb_abs((m[0][0].args[0],), sort)), -m[0][1]) * abs(c)
    q = -p
    if q.key < p.key:
        p = q
    return lift(mk('app', ('abs', (p,)), 'I' if is_int(p) else 'R'))
T._rebuilders['abs'] = _rb_abs
def absp(p):
    return _rb_abs((p,), 'R')

def _mk1(name, at0=None):
    def rb(args, sort):
        c = args[0].const()
        if at0 is not None and c == at0[0]:
            return num(at0[1])
        return lift(mk('app', (name, args), 'R'))
    T._rebuilders[name] = rb
    return lambda p: rb((p,), 'R')
expp = _mk1('exp', (0, 1))
_mk1('log', (1, 0))
_log0 = T._rebuilders['log']
def _rb_log(args, sort):
    # log(1/x) = -log x;  log(x^2) = 2 log|x|   (equal as extended reals, undefined on the same arguments)
    a = args[0]
    if len(a.t) == 1:
        (m, c), = a.t.items()
        if m and c == 1 and all(x.op != 'br' for x, e in m):
            if all(e % 2 == 0 for x, e in m):
                return 2 * _rb_log((absp(P({tuple((x, e // 2) for x, e in m): 1})),), sort)
            if all(e < 0 for x, e in m):
                return -_rb_log((P({tuple((x, -e) for x, e in m): 1}),), sort)
    return _log0(args, sort)
T._rebuilders['log'] = _rb_log
logp = lambda p: _rb_log((p,), 'R')
sinp = _mk1('sin', (0, 0))
cosp = _mk1('cos', (0, 1))
tanp = _mk1('tan', (0, 0))
atanp = _mk1('atan', (0, 0))
lgammap = _mk1('lgamma')
log2p = lambda p: logp(p) / logp(num(2))

def _rb_floor(args, sort):
    p = args[0]
    if is_int(p):
        return p
    c = p.const()
    if c is not None:
        import math
        return num(math.floor(c))
    return lift(mk('app', ('floor', (p,)), 'I'))
T._rebuilders['floor'] = _rb_floor
floorp = lambda p: _rb_floor((p,), 'I')
def _rb_trunc(args, sort):
    p = args[0]
    if is_int(p):
        return p
    c = p.const()
    if c is not None:
        import math
        return num(math.trunc(c))
    return lift(mk('app', ('trunc', (p,)), 'I'))
T._rebuilders['trunc'] = _rb_trunc
truncp = lambda p: _rb_trunc((p,), 'I')
def _rb_round(args, sort):
    p = args[0]
    if is_int(p):
        return p
    return lift(mk('app', ('round', (p,)), 'I'))
T._rebuilders['round'] = _rb_round
roundp = lambda p: _rb_round((p,), 'I')
def _rb_idiv(args, sort):
    a, b = args
    ca, cb = a.const(), b.const()
    if cb == 1:
        return a
    if ca is not None and cb is not None and cb != 0:
        q = abs(ca) // abs(cb)
        return num(q if (ca >= 0) == (cb > 0) else -q)
    return lift(mk('app', ('idiv', (a, b)), 'I'))
T._rebuilders['idiv'] = _rb_idiv
idiv = lambda a, b: _rb_idiv((a, b), 'I')
def _rb_imod(args, sort):
    a, b = args
    if b.const() == 1:
        return ZERO
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb != 0 and ca >= 0:
        return num(ca % cb)
    return lift(mk('app', ('imod', (a, b)), 'I'))
T._rebuilders['imod'] = _rb_imod
imod = lambda a, b: _rb_imod((a, b), 'I')

def powp(x, y):
    c = y.const()
    if c is not None and c.denominator == 1 and abs(c) <= 12:
        return power(x, int(c))
    if c == F(1, 2):
        return T.sqrt(x)
    return lift(mk('app', ('pow', (x, y)), 'R'))
def _rb_pow(args, sort):
    return powp(*args)
T._rebuilders['pow'] = _rb_pow

def _rb_max2(args, sort):
    a, b = args
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return num(max(ca, cb))
    if a == b:
        return a
    if b.key < a.key:
        a, b = b, a
    return lift(mk('app', ('max2', (a, b)), 'I' if is_int(a) and is_int(b) else 'R'))
T._rebuilders['max2'] = _rb_max2
def _rb_min2(args, sort):
    a, b = args
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return num(min(ca, cb))
    if a == b:
        return a
    if b.key < a.key:
        a, b = b, a
    return lift(mk('app', ('min2', (a, b)), 'I' if is_int(a) and is_int(b) else 'R'))
T._rebuilders['min2'] = _rb_min2
max2 = lambda a, b: _rb_max2((lift(a), lift(b)), 'R')
min2 = lambda a, b: _rb_min2((lift(a), lift(b)), 'R')

def sortv(m):
    n = vlen(m)
    L = vlam(m)
    if m.nc == ONE:
        return Mat(m.nr, ONE, app('sort', L, n, VR))
    return Mat(ONE, m.nc, app('sort', L, n, VC))
def _rb_sort_index(args, sort):
    # sorting the indices of a sort inverts the permutation: the position of observation i among pairwise distinct values
    # is the number of values below it
    L, n, i = args
    b = T.lam_apply(L, var('u#')) if isinstance(L, T.Atom) and L.op == 'lam' else None
    a = b.atom() if b is not None else None
    if a is not None and a.op == 'app' and a.args[0] == 'sort_index' and a.args[1][2] == var('u#') and 'u#' not in a.args[1][0].fv and a.args[1][1] == n:
        L0 = a.args[1][0]
        return app('below', L0, n, i, sort='I')
    return lift(mk('app', ('sort_index', (L, n, i)), 'I'))
T._rebuilders['sort_index'] = _rb_sort_index
def sort_index(m):
    return Mat(vlen(m), ONE, _rb_sort_index((vlam(m), vlen(m), VR), 'I'))

def joincols(a, b, req=NOREQ):   # vertical
    req(eq(a.nc, b.nc), 'join_cols: same n_cols')
    return Mat(a.nr + b.nr, a.nc, ite(lt(VR, a.nr), a.body, subst(b.body, {R_: VR - a.nr})))
def joinrows(a, b, req=NOREQ):
    req(eq(a.nr, b.nr), 'join_rows: same n_rows')
    return Mat(a.nr, a.nc + b.nc, ite(lt(VC, a.nc), a.body, subst(b.body, {C_: VC - a.nc})))
