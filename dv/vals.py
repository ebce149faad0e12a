"""Runtime values of the symbolic executor other than scalars and matrices."""
from terms import *
from mats import *

DEFAULT_FIELD = None

class Obj:
    """object value: dynamic class, known fields; unknown fields are created on demand from the declared type
    with the symbolic name prefix `sym`."""
    __slots__ = ('cls', 'f', 'sym')
    def __init__(self, cls, f=None, sym=None):
        self.cls, self.f, self.sym = cls, dict(f or {}), sym
    def with_(self, k, v):
        o = Obj(self.cls, self.f, self.sym)
        o.f[k] = v
        return o
    def __repr__(self):
        return '%s{%s}' % (self.cls, self.f)

class Seq:
    """std::vector / array of values: length and element value parametrised by the formal @k"""
    __slots__ = ('n', 'el')
    def __init__(self, n, el):
        self.n, self.el = lift(n), el
    def at(self, k):
        return vsubst(self.el, {'@k': lift(k)})
    def __repr__(self):
        return 'Seq[%s](%s)' % (self.n, self.el)

class LSeq:
    """vector with literally known elements"""
    __slots__ = ('els',)
    def __init__(self, els):
        self.els = list(els)
    def __repr__(self):
        return 'LSeq%s' % (self.els,)

class Ptr:
    __slots__ = ('lv', 'null')     # lv: LV of the pointee; null: condition P
    def __init__(self, lv, null=ZERO):
        self.lv, self.null = lv, null
    def __repr__(self):
        return 'Ptr(%s)' % (self.lv,)

class Opq:
    """opaque value identified by a term"""
    __slots__ = ('t', 'ty')
    def __init__(self, t, ty=''):
        self.t, self.ty = t, ty
    def __repr__(self):
        return 'Opq(%s)' % (self.t,)

class Fn:
    """function / member-function pointer: list of (cond, 'Class', 'name') alternatives"""
    __slots__ = ('alts',)
    def __init__(self, alts):
        self.alts = alts
    def __repr__(self):
        return 'Fn(%s)' % ([(str(c), k, n) for c, k, n in self.alts],)

class Str:
    __slots__ = ('s',)
    def __init__(self, s):
        self.s = s

class Closure:
    __slots__ = ('node', 'env')
    def __init__(self, node, env):
        self.node, self.env = node, env

class Each:
    __slots__ = ('lv', 'm', 'axis')
    def __init__(self, m, axis, lv=None):
        self.m, self.axis, self.lv = m, axis, lv

class Fill:
    __slots__ = ('kind',)
    def __init__(self, kind):
        self.kind = kind

class Void:
    pass
VOID = Void()

class LV:
    """location: root + access steps"""
    __slots__ = ('root', 'steps')
    def __init__(self, root, steps=()):
        self.root, self.steps = root, tuple(steps)
    def __add__(self, step):
        return LV(self.root, self.steps + (step,))
    def __repr__(self):
        return '&%s%s' % (self.root, self.steps)

def vsubst(v, s):
    if isinstance(v, P):
        return subst(v, s)
    if isinstance(v, Mat):
        return Mat(subst(v.nr, s), subst(v.nc, s), subst(v.body, s))
    if isinstance(v, Cube):
        return Cube(subst(v.nr, s), subst(v.nc, s), subst(v.ns, s), subst(v.body, s))
    if isinstance(v, Obj):
        return Obj(v.cls, {k: vsubst(x, s) for k, x in v.f.items()}, v.sym)
    if isinstance(v, Seq):
        return Seq(subst(v.n, s), vsubst(v.el, s))
    if isinstance(v, LSeq):
        return LSeq([vsubst(x, s) for x in v.els])
    if isinstance(v, Opq):
        return Opq(subst(v.t, s) if isinstance(v.t, P) else v.t, v.ty)
    if isinstance(v, Fn):
        return Fn([(subst(c, s), k, n) for c, k, n in v.alts])
    if isinstance(v, Ptr):
        return Ptr(LV(v.lv.root, tuple(stepsubst(t, s) for t in v.lv.steps)) if v.lv is not None else None, subst(v.null, s))
    return v

def stepsubst(t, s):
    return tuple(subst(x, s) if isinstance(x, P) else (vsubst(x, s) if isinstance(x, (Mat, Obj)) else x) for x in t)

def vsame(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, P):
        return a == b
    if isinstance(a, (Mat, Cube)):
        return a.same(b)
    if isinstance(a, Obj):
        if a.cls != b.cls or a.sym != b.sym:
            return False
        ks = set(a.f) | set(b.f)
        return all(k in a.f and k in b.f and vsame(a.f[k], b.f[k]) for k in ks)
    if isinstance(a, Seq):
        return a.n == b.n and vsame(a.el, b.el)
    if isinstance(a, LSeq):
        return len(a.els) == len(b.els) and all(vsame(x, y) for x, y in zip(a.els, b.els))
    if isinstance(a, Ptr):
        if a.lv is None or b.lv is None:
            return a.lv is b.lv and a.null == b.null
        return a.lv.root == b.lv.root and str(a.lv.steps) == str(b.lv.steps) and a.null == b.null
    if isinstance(a, Opq):
        return a.t == b.t
    if isinstance(a, Fn):
        return [(c.key, k, n) for c, k, n in a.alts] == [(c.key, k, n) for c, k, n in b.alts]
    if isinstance(a, Str):
        return a.s == b.s
    return False

def vmerge(c, a, b):
    """value if c then a else b"""
    if vsame(a, b):
        return a
    if isinstance(a, P) and isinstance(b, P):
        return ite(c, a, b)
    if isinstance(a, Mat) and isinstance(b, Mat):
        return Mat(ite(c, a.nr, b.nr), ite(c, a.nc, b.nc), ite(c, a.body, b.body))
    if isinstance(a, Cube) and isinstance(b, Cube):
        return Cube(ite(c, a.nr, b.nr), ite(c, a.nc, b.nc), ite(c, a.ns, b.ns), ite(c, a.body, b.body))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls:
        f = {}
        for k in set(a.f) | set(b.f):
            if k in a.f and k in b.f:
                f[k] = vmerge(c, a.f[k], b.f[k])
            # a field only touched on one side has its (deterministic) symbolic initial value on the other
            elif k in a.f:
                f[k] = vmerge(c, a.f[k], DEFAULT_FIELD(b, k)) if b.sym is not None else a.f[k]
            else:
                f[k] = vmerge(c, DEFAULT_FIELD(a, k), b.f[k]) if a.sym is not None else b.f[k]
        return Obj(a.cls, f, a.sym)
    if isinstance(a, Seq) and isinstance(b, Seq):
        return Seq(ite(c, a.n, b.n), vmerge(c, a.el, b.el))
    if isinstance(a, LSeq) and isinstance(b, LSeq) and len(a.els) == len(b.els):
        return LSeq([vmerge(c, x, y) for x, y in zip(a.els, b.els)])
    if isinstance(a, (Seq, LSeq)) and isinstance(b, (Seq, LSeq)):
        return vmerge(c, to_seq(a), to_seq(b))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.lv is None:
            return Ptr(b.lv, ite(c, a.null, b.null))
        if b.lv is None:
            return Ptr(a.lv, ite(c, a.null, b.null))
        if a.lv.root == b.lv.root and str(a.lv.steps) == str(b.lv.steps):
            return Ptr(a.lv, ite(c, a.null, b.null))
        raise Unsupported('merge of pointers to different objects')
    if isinstance(a, Opq) and isinstance(b, Opq) and isinstance(a.t, P) and isinstance(b.t, P):
        return Opq(ite(c, a.t, b.t), a.ty)
    if isinstance(a, Fn) and isinstance(b, Fn):
        return Fn([(c * x, k, n) for x, k, n in a.alts if (c * x).t] + [((ONE - c) * x, k, n) for x, k, n in b.alts if ((ONE - c) * x).t])
    if isinstance(a, Str) and isinstance(b, Str):
        return Str('?')
    if isinstance(a, Void) or isinstance(b, Void):
        return VOID
    raise Unsupported('merge %s / %s' % (type(a).__name__, type(b).__name__))

def to_seq(l):
    if isinstance(l, Seq):
        return l
    k = var('@k')
    if not l.els:
        return Seq(ZERO, ZERO)
    el = l.els[-1]
    for i in range(len(l.els) - 2, -1, -1):
        el = vmerge(eq(k, i), l.els[i], el)
    return Seq(num(len(l.els)), el)
