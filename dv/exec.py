DBG = __import__('os').environ.get('DBG')
"""Symbolic executor / VC generator over clang's AST of the real functions."""
import re, itertools
from terms import *
import terms as T
from mats import *
from vals import *
import vals
import cxx, prove
from cxx import body_of, params_of, line_of

PHDEF = {}
def _rb_ph(args, sort):
    a = args[0].atom()
    if a is not None and a.op == 'var' and a.args[0] in PHDEF:
        return PHDEF[a.args[0]](*args[1:])
    at = mk('app', ('ph', args), sort)
    return br(at) if sort == 'B' else lift(at)
T._rebuilders['ph'] = _rb_ph

class State:
    __slots__ = ('store', 'path')
    def __init__(self, store=None, path=()):
        self.store = dict(store or {})
        self.path = tuple(path)
    def copy(self):
        return State(self.store, self.path)
    def assume(self, c):
        if c.const() == 1:
            return
        self.path = self.path + (c,)

class Outs:
    __slots__ = ('normal', 'brk', 'cont', 'ret')
    def __init__(self, normal=None, brk=None, cont=None, ret=None):
        self.normal, self.brk, self.cont, self.ret = normal, brk, cont, ret   # ret: (State, Value)

class Frame:
    def __init__(self, fn, tu, this, fid):
        self.fn, self.tu, self.this, self.fid = fn, tu, this, fid
        self.env = {}

class Arg:
    """lazily evaluated call argument"""
    def __init__(self, ex, node, st):
        self.ex, self.node, self.st = ex, node, st
        self._v = None
    @property
    def default(self):
        return self.node is None or self.node.get('kind') == 'CXXDefaultArgExpr'
    def val(self):
        if self._v is None:
            self._v = self.ex.ev(self.node, self.st)
        return self._v
    def lv(self):
        return self.ex.lv(self.node, self.st)

class VArg:
    default = False
    def __init__(self, v, lv=None):
        self._v, self._lv = v, lv
    def val(self):
        return self._v
    def lv(self):
        return self._lv
    node = None

class Obligation:
    def __init__(self, kind, text, facts, goal, line, fn):
        self.kind, self.text, self.facts, self.goal, self.line, self.fn = kind, text, tuple(facts), goal, line, fn
    def __repr__(self):
        return '%s@%s:%s %s' % (self.kind, self.fn, self.line, self.text)

def ty(node):
    t = node.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')
def qty(node):
    return node.get('type', {}).get('qualType', '')
def clean_ty(s):
    s = re.sub(r'\b(const|volatile|class|struct|enum|typename)\b', '', s)
    s = s.replace('arma::', '').replace('gwm::', '').replace('std::', '').replace('__cxx11::', '')
    s = re.sub(r'\s+', ' ', s).strip()
    while s.endswith('&'):
        s = s[:-1].strip()
    return s
MATCOL = {'vec', 'colvec', 'uvec', 'ivec', 'Col<double>', 'Col<unsigned long long>', 'Col<long long>', 'Col<int>', 'Col<uword>'}
MATROW = {'rowvec', 'urowvec', 'irowvec', 'Row<double>', 'Row<unsigned long long>', 'Row<uword>'}
MATGEN = {'mat', 'umat', 'imat', 'Mat<double>', 'Mat<unsigned long long>', 'Mat<long long>', 'Mat<int>', 'Mat<uword>'}
CUBES = {'cube', 'Cube<double>'}
INTU = {'unsigned long long', 'uword', 'arma::uword', 'unsigned long', 'size_t', 'size_type', 'unsigned int', 'unsigned', 'uint', 'unsigned short', 'u64', 'unsigned char', 'value_type'}
INTS = {'int', 'long', 'long long', 'sword', 'short', 'difference_type', 'ptrdiff_t', 'char'}
def mat_kind(t):
    if t in MATCOL:
        return 'col'
    if t in MATROW:
        return 'row'
    if t in MATGEN:
        return 'mat'
    if t in CUBES:
        return 'cube'
    return None
def elem_sort(t):
    return 'R' if ('double' in t or t in ('mat', 'vec', 'colvec', 'rowvec', 'cube')) else 'I'
def tmpl_args(s):
    i = s.index('<')
    body = s[i + 1:s.rindex('>')]
    out, d, cur = [], 0, ''
    for ch in body:
        if ch == '<' or ch == '(':
            d += 1
        if ch == '>' or ch == ')':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out

class Find:
    """result of arma::find(mask)"""
    def __init__(self, mask):
        self.mask = mask

class Iter:
    def __init__(self, lv, pos):
        self.lv, self.pos = lv, pos

_hl = {}
def has_lost(x):
    if isinstance(x, P):
        return any(has_lost(a) for m in x.t for a, e in m)
    if isinstance(x, Atom):
        r = _hl.get(x)
        if r is None:
            r = _hl[x] = (x.op == 'app' and isinstance(x.args[0], str) and x.args[0].startswith('lost')) or any(has_lost(y) for y in x.args)
        return r
    if isinstance(x, tuple):
        return any(has_lost(y) for y in x)
    return False

class Exec:
    def __init__(self, prog, tu, hooks=None, numfail='never', stop='never', safety=True):
        self.prog, self.tu0 = prog, tu
        self.hooks = hooks or {}
        self.numfail, self.stopmode, self.safety = numfail, stop, safety
        self.obls = []
        self.frames = []
        self.throws = [[]]
        self.fid = itertools.count(1)
        self.base = []              # base facts (requires, nonnegativity of unsigned inputs)
        self.base_keys = set()
        self.loopctx = []           # facts about enclosing loop counters
        self.field_override = {}
        self.trace = []
        self.called = set()
        self.used_contracts = set()
        self.inlined = set()
        self.lost = []
        self.notes = []
        self.declnodes = {}
        self.latched = []
        self.mapinv = None          # invariant of the entries of associative containers
        self.noncount_loop = None   # hook for loops without closed form
        self.omp_threads = None
        self.ompk = None
        self.critical = 0
        self.leafnames = {}
        self.symid = itertools.count(1)
        self.stopcount = itertools.count(1)
        vals.DEFAULT_FIELD = self.default_field

    # ------------------------------------------------------------ facts and obligations
    def fact(self, p):
        if p.const() == 1:
            return
        if p.key not in self.base_keys:
            self.base_keys.add(p.key)
            self.base.append(p)

    def facts(self, st):
        return list(self.base) + list(self.loopctx) + list(st.path)

    def req(self, st, node=None):
        def f(c, what):
            if not self.safety:
                return
            if c.const() == 1:
                return
            self.obls.append(Obligation('safety', what, self.facts(st), c, self.curline, self.fnname()))
        return f

    def fnname(self):
        return self.frames[-1].fn.get('name') if self.frames else '?'

    # ------------------------------------------------------------ symbolic defaults
    def default(self, t, name, k=None):
        """symbolic value of declared type t named `name` (k: index parameters)"""
        t = clean_ty(t)
        ka = [] if k is None else [k]
        mk_ = mat_kind(t)
        if mk_ == 'col':
            n = self.dim(name + '.n', ka)
            return Mat(n, ONE, app(name, *(ka + [VR]), sort=elem_sort(t)))
        if mk_ == 'row':
            n = self.dim(name + '.n', ka)
            return Mat(ONE, n, app(name, *(ka + [VC]), sort=elem_sort(t)))
        if mk_ == 'mat':
            return Mat(self.dim(name + '.nr', ka), self.dim(name + '.nc', ka), app(name, *(ka + [VR, VC]), sort=elem_sort(t)))
        if mk_ == 'cube':
            return Cube(self.dim(name + '.nr', ka), self.dim(name + '.nc', ka), self.dim(name + '.ns', ka), app(name, *(ka + [VR, VC, VS])))
        if t in ('double', 'float'):
            return self.scal(name, 'R', ka)
        if t == 'bool':
            return bapp(name, *ka)
        if t in INTU:
            return self.dim(name, ka)
        if t in INTS:
            return self.scal(name, 'I', ka)
        if t in self.enum_names():
            return self.scal(name, 'I', ka)
        if t.startswith('optional<'):
            return Obj('optional', {'has': bapp(name + '.has', *ka), 'val': self.default(tmpl_args(t)[0], name + '.val', k)})
        if t.startswith('pair<'):
            a = tmpl_args(t)
            return Obj('pair', {'first': self.default(a[0], name + '.first', k), 'second': self.default(a[1], name + '.second', k)})
        if t.startswith('vector<') or t.startswith('initializer_list<'):
            if k is not None:
                raise Unsupported('nested vector')
            return Seq(self.dim(name + '.n', ka), self.default(tmpl_args(t)[0], name + '.el', var('@k')))
        if t.startswith('unique_ptr<') or t.startswith('shared_ptr<'):
            c = tmpl_args(t)[0]
            return Ptr(LV(('h', name, c)))
        if '::*' in t or '(' in t:
            return Fn([(ONE, '?', name)])
        if t.endswith('*'):
            c = t[:-1].strip()
            return Ptr(LV(('h', name, c)))
        if t in ('string', 'basic_string<char>'):
            return Opq(app(name, *ka, sort='O'), 'string')
        if self.is_class(t):
            return Obj(t, {}, name)
        alias = self.alias(t)
        if alias:
            return self.default(alias, name, k)
        return Opq(app(name, *ka, sort='O'), t)

    ALIASES = {'VariablesCriterionList': 'vector<pair<vector<unsigned long>, double>>',
               'BandwidthCriterionList': 'vector<pair<double, double>>'}
    def alias(self, t):
        return self.ALIASES.get(t)

    def dim(self, name, ka):
        if not ka:
            v = var(name, 'I')
            self.fact(le(0, v))
            return v
        return app(name, *ka, sort='I')
    def scal(self, name, sort, ka):
        if not ka:
            return var(name, sort)
        return app(name, *ka, sort=sort)

    def enum_names(self):
        tu = self.frames[-1].tu if self.frames else self.tu0
        return tu.enumvals

    def is_class(self, t):
        tu = self.frames[-1].tu if self.frames else self.tu0
        return self.recname(tu, t) is not None

    def recname(self, tu, t):
        if t in tu.records:
            return t
        for r in tu.records:
            if r.endswith('::' + t):
                return r
        last = t.split('::')[-1]
        return None

    def default_field(self, obj, k):
        o = self.field_override.get((obj.sym, k))
        if o is not None:
            return o
        tu = self.frames[-1].tu if self.frames else self.tu0
        t = self.field_type(tu, obj.cls, k)
        if t is None:
            raise Unsupported('field %s of %s' % (k, obj.cls))
        nm = k if obj.sym in (None, 'this') else obj.sym + '.' + k
        return self.default(t, nm)

    def knowing(self, tu, cls):
        """a translation unit that sees the definition of cls (the current one if it does)"""
        if self.recname(tu, cls) is None:
            for t in self.prog.tus.values():
                if self.recname(t, cls) is not None:
                    return t
        return tu

    def field_type(self, tu, cls, k, seen=None):
        tu = self.knowing(tu, cls)
        cls = self.recname(tu, cls) or cls
        f = tu.fields.get(cls, {}).get(k)
        if f is not None:
            return ty(f)
        for b in tu.bases.get(cls, []):
            t = self.field_type(tu, clean_ty(b), k)
            if t is not None:
                return t
        return None

    def mro(self, tu, cls):
        tu = self.knowing(tu, cls)
        cls = self.recname(tu, cls) or cls
        out = [cls]
        for b in tu.bases.get(cls, []):
            for c in self.mro(tu, clean_ty(b)):
                if c not in out:
                    out.append(c)
        return out

    # ------------------------------------------------------------ store access
    def read_root(self, st, root):
        v = st.store.get(root)
        if v is None:
            if root[0] == 'h':
                cls = root[2]
                v = self.default_heap(root)
                st.store[root] = v
            else:
                raise Unsupported('read of unknown root %s' % (root,))
        return v

    def default_heap(self, root):
        h = self.field_override.get(('heap', root[1]))
        if h is not None:
            return h
        t = clean_ty(root[2])
        return self.default(t, root[1])

    def read(self, st, lv):
        v = self.read_root(st, lv.root)
        for i, s in enumerate(lv.steps):
            v = self.read_step(st, v, s)
        return v

    def inrange(self, st, m):
        """the same matrix, its element expression simplified within its bounds"""
        S = prove.Simp(self.facts(st) + [le(0, VR), lt(VR, m.nr), le(0, VC), lt(VC, m.nc)])
        return Mat(m.nr, m.nc, S.p(m.body))

    def mapkey(self, v):
        """scalar identifying the key of an associative container"""
        if isinstance(v, Obj) and set(v.f) == {'first', 'second'}:
            a, b = self.mapkey(v.f['first']), self.mapkey(v.f['second'])
            if a.const() is None or b.const() is None:
                raise Unsupported('map with symbolic keys')
            return a * 65536 + b
        return self.scalar(v)

    def read_step(self, st, v, s):
        k = s[0]
        req = self.req(st)
        if k == 'f':
            if isinstance(v, Obj):
                if s[1] in v.f:
                    return v.f[s[1]]
                return self.default_field(v, s[1])
            raise Unsupported('field %s of %s' % (s[1], type(v).__name__))
        if k == 'map' and isinstance(v, LSeq):
            # associative container written as a list of (key, value)
            for e in v.els:
                c = eq(self.mapkey(e.f['first']), s[1])
                if c.const() == 1:
                    return e.f['second']
                if c.const() != 0:
                    raise Unsupported('map with symbolic keys')
            raise Unsupported('missing key')
        if k == 'idx':
            if isinstance(v, LSeq):
                c = s[1].const()
                if c is not None and 0 <= c < len(v.els):
                    return v.els[int(c)]
                v = to_seq(v)
            if isinstance(v, Seq):
                req(le(0, s[1]) * lt(s[1], v.n), 'vector index in range')
                return v.at(s[1])
            if isinstance(v, Mat):
                k = 'el1'
            else:
                raise Unsupported('index into %s' % type(v).__name__)
        if isinstance(v, Mat):
            if k == 'el':
                req(le(0, s[1]) * lt(s[1], v.nr) * le(0, s[2]) * lt(s[2], v.nc), 'element index in range')
                return v.get(s[1], s[2])
            if k == 'el1':
                if v.nc == ONE or v.nr == ONE:
                    n = v.nr if v.nc == ONE else v.nc
                    req(le(0, s[1]) * lt(s[1], n), 'element index in range')
                    return v.lin(s[1])
                if s[1].const() == 0:
                    return v.get(0, 0)
                if prove.entails(self.facts(st), eq(v.nc, 1)):
                    return v.get(s[1], 0)
                if prove.entails(self.facts(st), eq(v.nr, 1)):
                    return v.get(0, s[1])
                raise Unsupported('linear index into matrix')
            if k == 'col':
                req(le(0, s[1]) * lt(s[1], v.nc), 'column index in range')
                return Mat(v.nr, ONE, subst(v.body, {C_: s[1]}))
            if k == 'row':
                req(le(0, s[1]) * lt(s[1], v.nr), 'row index in range')
                return Mat(ONE, v.nc, subst(v.body, {R_: s[1]}))
            if k == 'cols':
                req(le(0, s[1]) * le(s[1], s[2]) * lt(s[2], v.nc), 'column range valid')
                return Mat(v.nr, s[2] - s[1] + 1, subst(v.body, {C_: VC + s[1]}))
            if k == 'rows':
                req(le(0, s[1]) * le(s[1], s[2]) * lt(s[2], v.nr), 'row range valid')
                return Mat(s[2] - s[1] + 1, v.nc, subst(v.body, {R_: VR + s[1]}))
            if k == 'sub':
                req(le(0, s[1]) * le(s[1], s[3]) * lt(s[3], v.nr) * le(0, s[2]) * le(s[2], s[4]) * lt(s[4], v.nc), 'submatrix range valid')
                return Mat(s[3] - s[1] + 1, s[4] - s[2] + 1, subst(v.body, {R_: VR + s[1], C_: VC + s[2]}))
            if k == 'diag':
                return Mat(v.nr, ONE, subst(v.body, {C_: VR}))
            if k in ('colsv', 'rowsv', 'elemv') and isinstance(s[1], Mat):
                j = fresh()
                req(forall(j, vlen(s[1]), le(0, s[1].lin(var(j))) * lt(s[1].lin(var(j)), {'colsv': v.nc, 'rowsv': v.nr, 'elemv': v.n_elem}[k])), 'index vector in range')
            if k in ('colsv', 'rowsv') and isinstance(s[1], Find):
                u = s[1]
                # every position of the mask must exist: the mask is at most as long as the dimension
                req(le(vlen(u.mask), v.nc if k == 'colsv' else v.nr), 'selected indices in range')
                if k == 'colsv':
                    return Mat(v.nr, vecsum(u.mask), subst(v.body, {C_: self.selected(u, VC)}))
                return Mat(vecsum(u.mask), v.nc, subst(v.body, {R_: self.selected(u, VR)}))
            if k == 'colsv':
                return Mat(v.nr, vlen(s[1]), subst(v.body, {C_: s[1].lin(VC)}))
            if k == 'rowsv':
                return Mat(vlen(s[1]), v.nc, subst(v.body, {R_: s[1].lin(VR)}))
            if k == 'elemv':
                u = s[1]
                if isinstance(u, Mat):
                    if v.nc == ONE:
                        return Mat(vlen(u), ONE, subst(v.body, {R_: u.lin(VR)}))
                    if v.nr == ONE:
                        return Mat(vlen(u), ONE, subst(v.body, {C_: u.lin(VR)}))
                if isinstance(u, Find) and (v.nc == ONE or v.nr == ONE):
                    sel = self.selected(u, VR)
                    return Mat(vecsum(u.mask), ONE, subst(v.body, {R_: sel} if v.nc == ONE else {C_: sel}))
                raise Unsupported('elem')
            if k == 'all':
                return v
        if isinstance(v, Cube):
            if k == 'slice':
                req(le(0, s[1]) * lt(s[1], v.ns), 'slice index in range')
                return v.slice(s[1])
            if k == 'el3':
                req(le(0, s[1]) * lt(s[1], v.nr) * le(0, s[2]) * lt(s[2], v.nc) * le(0, s[3]) * lt(s[3], v.ns), 'cube index in range')
                return v.get(s[1], s[2], s[3])
            if k == 'row':
                req(le(0, s[1]) * lt(s[1], v.nr), 'cube row in range')
                return Mat(v.nc, v.ns, subst(v.body, {R_: s[1], C_: VR, S_: VC}))
            if k == 'col':
                req(le(0, s[1]) * lt(s[1], v.nc), 'cube column in range')
                return Mat(v.nr, v.ns, subst(v.body, {C_: s[1], S_: VC}))
            if k == 'all':
                return v
        raise Unsupported('read step %s of %s' % (k, type(v).__name__))

    def selected(self, u, i):
        """the i-th position the mask selects"""
        if u.mask.body == ONE:
            return i
        return app('sel', vlam(u.mask), vlen(u.mask), i, sort='I')

    frozen = frozenset()
    def write(self, st, lv, val):
        if lv.root in self.frozen:
            raise Unsupported('write to an object behind a merged pointer')
        if not lv.steps:
            st.store[lv.root] = val
            return
        old = self.read_root(st, lv.root)
        st.store[lv.root] = self.upd(st, old, lv.steps, val)

    def upd(self, st, v, steps, val):
        s = steps[0]
        k = s[0]
        req = self.req(st)
        if len(steps) > 1:
            inner = self.read_step(st, v, s)
            val = self.upd(st, inner, steps[1:], val)
        if k == 'map' and isinstance(v, Opq) and self.mapinv is not None:
            # associative container under a data-structure invariant: every write establishes it for the entry written
            for text, g in self.mapinv(self, s[1], val):
                req(g, text)
            return v
        if k == 'f':
            if not isinstance(v, Obj):
                raise Unsupported('field write into %s' % type(v).__name__)
            return v.with_(s[1], val)
        if k == 'idx':
            if isinstance(v, LSeq):
                c = s[1].const()
                if c is not None and 0 <= c < len(v.els):
                    e = list(v.els)
                    e[int(c)] = val
                    return LSeq(e)
                v = to_seq(v)
            if isinstance(v, Seq):
                req(le(0, s[1]) * lt(s[1], v.n), 'vector index in range')
                return Seq(v.n, vmerge(eq(var('@k'), s[1]), val, v.el))
            if isinstance(v, Mat):
                k = 'el1'
        if isinstance(v, Mat):
            def vm(val, nr, nc, fr, fc):
                """value body re-indexed"""
                if isinstance(val, P):
                    return val
                return subst(val.body, {R_: fr, C_: fc})
            if k == 'el':
                req(le(0, s[1]) * lt(s[1], v.nr) * le(0, s[2]) * lt(s[2], v.nc), 'element index in range')
                return Mat(v.nr, v.nc, ite(eq(VR, s[1]) * eq(VC, s[2]), self.scalar(val), v.body))
            if k == 'el1':
                if v.nc == ONE:
                    req(le(0, s[1]) * lt(s[1], v.nr), 'element index in range')
                    return Mat(v.nr, v.nc, ite(eq(VR, s[1]), self.scalar(val), v.body))
                if v.nr == ONE:
                    req(le(0, s[1]) * lt(s[1], v.nc), 'element index in range')
                    return Mat(v.nr, v.nc, ite(eq(VC, s[1]), self.scalar(val), v.body))
                raise Unsupported('linear write')
            if k == 'col':
                req(le(0, s[1]) * lt(s[1], v.nc), 'column index in range')
                if isinstance(val, Mat):
                    req(eq(val.nr, v.nr) * eq(val.nc, 1), 'column assignment: same size')
                return Mat(v.nr, v.nc, ite(eq(VC, s[1]), vm(val, 0, 0, VR, ZERO), v.body))
            if k == 'row':
                req(le(0, s[1]) * lt(s[1], v.nr), 'row index in range')
                if isinstance(val, Mat):
                    req(eq(val.nc, v.nc) * eq(val.nr, 1), 'row assignment: same size')
                return Mat(v.nr, v.nc, ite(eq(VR, s[1]), vm(val, 0, 0, ZERO, VC), v.body))
            if k == 'cols':
                req(le(0, s[1]) * le(s[1], s[2]) * lt(s[2], v.nc), 'column range valid')
                if isinstance(val, Mat):
                    req(eq(val.nr, v.nr) * eq(val.nc, s[2] - s[1] + 1), 'columns assignment: same size')
                return Mat(v.nr, v.nc, ite(le(s[1], VC) * le(VC, s[2]), vm(val, 0, 0, VR, VC - s[1]), v.body))
            if k == 'rows':
                req(le(0, s[1]) * le(s[1], s[2]) * lt(s[2], v.nr), 'row range valid')
                if isinstance(val, Mat):
                    req(eq(val.nc, v.nc) * eq(val.nr, s[2] - s[1] + 1), 'rows assignment: same size')
                return Mat(v.nr, v.nc, ite(le(s[1], VR) * le(VR, s[2]), vm(val, 0, 0, VR - s[1], VC), v.body))
            if k == 'diag':
                return Mat(v.nr, v.nc, ite(eq(VR, VC), vm(val, 0, 0, VR, ZERO), v.body))
            if k == 'elemv' and isinstance(s[1], Find):
                if isinstance(val, P):
                    return Mat(v.nr, v.nc, ite(s[1].mask.body, val, v.body))
                raise Unsupported('elem(find) = vector')
            if k == 'all':
                return val if not isinstance(val, P) else Mat(v.nr, v.nc, val)
        if isinstance(v, Cube):
            if k == 'slice':
                req(le(0, s[1]) * lt(s[1], v.ns), 'slice index in range')
                if isinstance(val, Mat):
                    req(eq(val.nr, v.nr) * eq(val.nc, v.nc), 'slice assignment: same size')
                b = val if isinstance(val, P) else val.body
                return Cube(v.nr, v.nc, v.ns, ite(eq(VS, s[1]), b, v.body))
            if k == 'row':
                req(le(0, s[1]) * lt(s[1], v.nr), 'cube row in range')
                if isinstance(val, Mat):
                    req(eq(val.nr, v.nc) * eq(val.nc, v.ns), 'cube row assignment: same size')
                b = val if isinstance(val, P) else subst(val.body, {R_: VC, C_: VS})
                return Cube(v.nr, v.nc, v.ns, ite(eq(VR, s[1]), b, v.body))
            if k == 'el3':
                req(le(0, s[1]) * lt(s[1], v.nr) * le(0, s[2]) * lt(s[2], v.nc) * le(0, s[3]) * lt(s[3], v.ns), 'cube index in range')
                return Cube(v.nr, v.nc, v.ns, ite(eq(VR, s[1]) * eq(VC, s[2]) * eq(VS, s[3]), val, v.body))
        raise Unsupported('write step %s into %s' % (k, type(v).__name__))

    def scalar(self, v):
        if isinstance(v, P):
            return v
        if isinstance(v, Mat) and v.nr == ONE and v.nc == ONE:
            return v.get(0, 0)
        raise Unsupported('scalar expected, got %s' % type(v).__name__)

    # ------------------------------------------------------------ statements
    curline = None
    def merge(self, a, b):
        """merge two states reached on disjoint paths"""
        if a is None:
            return b
        if b is None:
            return a
        n = 0
        while n < len(a.path) and n < len(b.path) and a.path[n] == b.path[n]:
            n += 1
        try:
            ra, rb = ONE, ONE
            for c in a.path[n:]:
                ra = ra * c
            for c in b.path[n:]:
                rb = rb * c
            tot = ra + rb
            if len(tot.t) > 60:
                raise TermLimit
            st = State({}, a.path[:n])
            if tot.const() != 1:
                st.path = st.path + (tot,)
        except TermLimit:
            if n < len(a.path) and n < len(b.path) and (a.path[n] + b.path[n]).const() == 1:
                ra = a.path[n]
                pa, pb = a.path[n + 1:], b.path[n + 1:]
            else:
                ra = bapp('havocran%d' % next(self.symid))
                pa, pb = a.path[n:], b.path[n:]
            rb = ONE - ra
            st = State({}, a.path[:n] + tuple(bor(rb, f) for f in pa) + tuple(bor(ra, f) for f in pb))
        # discriminator: the smaller of the two residual conditions
        if len(ra.t) <= len(rb.t):
            c, x, y = ra, a, b
        else:
            c, x, y = rb, b, a
        for r in x.store:
            if r in y.store:
                try:
                    st.store[r] = vmerge(c, x.store[r], y.store[r])
                except Unsupported:
                    if r[0] == 'l':
                        st.store[r] = Opq(('unmergeable', r), '?')
                    else:
                        raise
            elif r[0] == 'h':
                st.store[r] = vmerge(c, x.store[r], self.heap_default_or(x.store[r], r))
        for r in y.store:
            if r not in x.store and r[0] == 'h':
                st.store[r] = vmerge(c, self.heap_default_or(y.store[r], r), y.store[r])
        return st

    def heap_default_or(self, v, r):
        if len(r) >= 3 and r[1] is not None and not str(r[1]).startswith('new'):
            return self.default_heap(r)
        return v

    def merge_ret(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        a, b = self.phi(a, b)
        for st, v in (a, b):
            st.store[('ret',)] = v
        st = self.merge(a[0], b[0])
        for x in (a[0], b[0]):
            del x.store[('ret',)]
        return st, st.store.pop(('ret',))

    def phi(self, a, b):
        """returned pointers to different objects: a pointer to a copy of the object pointed to (read-only from then on,
        as are the originals: any write to either, or comparison of the pointer, is out of the dialect)"""
        p, q = a[1], b[1]
        if not (isinstance(p, Ptr) and isinstance(q, Ptr)) or p.lv is None or q.lv is None:
            return a, b
        if p.lv.root == q.lv.root and str(p.lv.steps) == str(q.lv.steps):
            return a, b
        root = ('h', 'phi%d' % next(self.symid))
        out = []
        for st, v in (a, b):
            st = st.copy()
            st.store[root] = self.read(st, v.lv)
            self.frozen |= {v.lv.root, root}
            out.append((st, Ptr(LV(root), v.null)))
        return out

    def merge_outs(self, a, b):
        return Outs(self.merge(a.normal, b.normal), self.merge(a.brk, b.brk), self.merge(a.cont, b.cont), self.merge_ret(a.ret, b.ret))

    def block(self, nodes, st):
        acc = Outs(st)
        for n in nodes:
            if acc.normal is None:
                break
            o = self.stmt(n, acc.normal)
            acc = Outs(o.normal, self.merge(acc.brk, o.brk), self.merge(acc.cont, o.cont), self.merge_ret(acc.ret, o.ret))
        return acc

    def stmt(self, node, st):
        tick()
        k = node.get('kind')
        if k is None:
            return Outs(st)
        l = line_of(node)
        if l:
            self.curline = l
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(node, st)
        # expression statement
        n0 = len(self.throws[-1])
        self.ev(node, st, discard=True)
        return Outs(st if not getattr(st, 'dead', False) else None) if not self.is_dead(st) else Outs(None)

    def is_dead(self, st):
        return any(c.const() == 0 for c in st.path)

    def s_CompoundStmt(self, node, st):
        return self.block(node.get('inner', []), st)
    def s_NullStmt(self, node, st):
        return Outs(st)
    def s_DeclStmt(self, node, st):
        for d in node.get('inner', []):
            if d.get('kind') == 'VarDecl':
                self.decl(d, st)
        return Outs(None if self.is_dead(st) else st)

    def root_for(self, d):
        return ('l', d['id'], self.frames[-1].fid)

    def decl(self, d, st):
        fr = self.frames[-1]
        t = qty(d)
        init = [c for c in d.get('inner', []) if c.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups')) or c.get('kind') in ('ExprWithCleanups',)]
        root = self.root_for(d)
        self.leafnames[root] = d.get('name')
        self.declnodes[root] = d
        if t.rstrip().endswith('&') and init:
            lvv = None
            try:
                lvv = self.lv(init[0], st)
            except Unsupported:
                lvv = None
            if lvv is not None:
                fr.env[d['id']] = lvv
                return
        if d.get('storageClass') == 'static' and init:
            pass
        fr.env[d['id']] = LV(root)
        ct = clean_ty(ty(d))
        if init:
            v = self.ev(init[0], st)
            v = self.convert(v, ct, st)
        else:
            v = self.default_init(ct, root)
        st.store[root] = v

    def default_init(self, ct, root):
        mkd = mat_kind(ct)
        if mkd == 'col':
            return Mat(ZERO, ONE, ZERO)
        if mkd == 'row':
            return Mat(ONE, ZERO, ZERO)
        if mkd == 'mat':
            return Mat(ZERO, ZERO, ZERO)
        if mkd == 'cube':
            return Cube(ZERO, ZERO, ZERO, ZERO)
        if self.mapinv is not None and ct.startswith(('unordered_map<', 'map<')):
            return Opq(app('entries', sort='O'), 'map<>')
        if ct.startswith(('vector<', 'unordered_map<', 'map<')):
            return LSeq([])
        nm = 'uninit%d' % next(self.symid)
        if ct in ('double', 'float'):
            return var(nm, 'R')
        if ct in INTU or ct in INTS or ct in self.enum_names():
            return var(nm, 'I')
        if ct == 'bool':
            return bapp(nm)
        m = re.match(r'(.*)\[(\d+)\]$', ct)
        if m:
            b = m.group(1).strip()
            return LSeq([self.default_init(b, root) for _ in range(int(m.group(2)))])
        if ct.endswith('*'):
            return Ptr(None, bapp(nm))
        return Opq(app(nm, sort='O'), ct)

    def convert(self, v, ct, st):
        """implicit conversion to declared type (Armadillo constructors, numeric casts are explicit in the AST)"""
        mkd = mat_kind(ct)
        if mkd in ('col', 'row', 'mat'):
            if isinstance(v, P):
                v = Mat(ONE, ONE, v)
            if isinstance(v, Each):
                raise Unsupported('each view as value')
            if isinstance(v, LSeq) and all(isinstance(e, P) for e in v.els):
                body = ZERO
                for i, e in enumerate(v.els):
                    body = body + eq(VR, i) * e
                v = Mat(num(len(v.els)), ONE, body) if mkd != 'row' else Mat(ONE, num(len(v.els)), subst(body, {R_: VC}))
            if isinstance(v, Seq) and isinstance(v.el, P):
                v = Mat(v.n, ONE, subst(v.el, {'@k': VR}))
            if isinstance(v, Find):
                return v
            if not isinstance(v, Mat):
                raise Unsupported('conversion of %s to %s' % (type(v).__name__, ct))
            if mkd == 'col' and v.nc != ONE:
                if v.nr == ZERO or v.nc == ZERO:
                    return Mat(ZERO, ONE, ZERO)
                self.req(st)(eq(v.nc, 1), 'conversion to a column vector')
                return Mat(v.nr, ONE, subst(v.body, {C_: ZERO}))
            if mkd == 'row' and v.nr != ONE:
                self.req(st)(eq(v.nr, 1), 'conversion to a row vector')
                return Mat(ONE, v.nc, subst(v.body, {R_: ZERO}))
            return v
        if ct in ('double', 'float') or ct in INTU or ct in INTS:
            if isinstance(v, Mat) and v.nr == ONE and v.nc == ONE:
                return v.get(0, 0)
        return v

    def s_ReturnStmt(self, node, st):
        inner = node.get('inner', [])
        if not inner:
            return Outs(None, ret=(st, VOID))
        fr = self.frames[-1]
        rt = fr.fn.get('type', {}).get('qualType', '').split('(')[0].strip() if fr.fn.get('kind') != 'LambdaExpr' else ''
        if rt.endswith('&') or rt.endswith('*'):
            pass
        v = self.ev(inner[0], st)
        if self.is_dead(st):
            return Outs(None)
        if rt:
            v = self.convert(v, clean_ty(rt), st)
        return Outs(None, ret=(st, v))

    def s_IfStmt(self, node, st):
        inner = list(node.get('inner', []))
        if node.get('hasInit'):
            o = self.stmt(inner.pop(0), st)
            st = o.normal
        if node.get('hasVar'):
            self.stmt(inner.pop(0), st)
        c = self.truth(self.ev(inner[0], st), st)
        if self.is_dead(st):
            return Outs(None)
        th = inner[1]
        el = inner[2] if len(inner) > 2 else None
        c = self.known(c, st)
        k = c.const()
        if k is not None:
            if k != 0:
                return self.stmt(th, st)
            return self.stmt(el, st) if el is not None else Outs(st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(ONE - c)
        self.refine(s1, c)
        self.refine(s2, ONE - c)
        o1 = self.stmt(th, s1)
        o2 = self.stmt(el, s2) if el is not None else Outs(s2)
        return self.merge_outs(o1, o2)

    def refine(self, st, c):
        """after a branch on a failure latch, drop the values of the other kind of run"""
        if not self.latched:
            return
        if not any(c == q for q in self.latched):
            c = prove.Simp(list(self.base)).p(c)
            if not any(c == q for q in self.latched):
                return
        S = prove.Simp([c])
        def f(path, p):
            return S.p(p) if has_lost(p) else p
        for root, v in list(st.store.items()):
            try:
                if any(has_lost(x) for _, x, _ in self.leaves(v)):
                    st.store[root] = self.rebuild(v, f)
            except Unsupported:
                pass

    def known(self, c, st):
        """resolve a branch condition against the path"""
        if c.const() is not None:
            return c
        fs = self.facts(st)
        if any(f == c for f in fs):
            return ONE
        nc = ONE - c
        if any(f == nc for f in fs):
            return ZERO
        try:
            if prove.entails(fs, c):
                return ONE
            if prove.entails(fs, nc):
                return ZERO
        except Exception as e:
            if isinstance(e, TermLimit):
                raise
        return c

    def s_SwitchStmt(self, node, st):
        inner = [n for n in node.get('inner', []) if n.get('kind')]
        v = self.scalar(self.ev(inner[0], st))
        body = inner[-1]
        # flatten case list
        items = []   # (labels or None for default, stmts)
        def flat(n):
            labels = []
            while n.get('kind') in ('CaseStmt', 'DefaultStmt'):
                ins = [x for x in n.get('inner', []) if x.get('kind')]
                if n['kind'] == 'CaseStmt':
                    labels.append(self.ev(ins[0], st))
                    n = ins[-1] if len(ins) > 1 else {'kind': 'NullStmt'}
                else:
                    labels.append(None)
                    n = ins[-1] if ins else {'kind': 'NullStmt'}
            return labels, n
        seqs = []
        for n in body.get('inner', []):
            if n.get('kind') in ('CaseStmt', 'DefaultStmt'):
                labels, first = flat(n)
                seqs.append([labels, [first]])
            elif seqs:
                seqs[-1][1].append(n)
        out = Outs(None)
        others = ZERO
        for i, (labels, _) in enumerate(seqs):
            for l in labels:
                if l is not None:
                    others = bor(others, eq(v, l))
        hasdef = any(None in ls for ls, _ in seqs)
        for i, (labels, _) in enumerate(seqs):
            c = ZERO
            for l in labels:
                if l is not None:
                    c = bor(c, eq(v, l))
                else:
                    c = bor(c, ONE - others)
            c = self.known(c, st)
            if c.const() == 0:
                continue
            s1 = st.copy()
            s1.assume(c)
            nodes = [x for _, ss in seqs[i:] for x in ss]
            o = self.block(nodes, s1)
            out = self.merge_outs(out, Outs(self.merge(o.normal, o.brk), None, o.cont, o.ret))
            if c.const() == 1:
                return out
        if not hasdef:
            s1 = st.copy()
            s1.assume(ONE - others)
            if not self.is_dead(s1):
                out = self.merge_outs(out, Outs(s1))
        return out

    def s_BreakStmt(self, node, st):
        return Outs(None, brk=st)
    def s_ContinueStmt(self, node, st):
        return Outs(None, cont=st)

    def s_CXXTryStmt(self, node, st):
        inner = node.get('inner', [])
        self.throws.append([])
        o = self.stmt(inner[0], st)
        thrown = self.throws.pop()
        for ts, exc in thrown:
            ts = ts.copy()
            h = inner[1] if len(inner) > 1 else None
            if h is None:
                self.throws[-1].append((ts, exc))
                continue
            # any catch clause (the code base catches std::exception or ...)
            hin = h.get('inner', [])
            for d in hin[:-1]:
                if d.get('kind') == 'VarDecl':
                    root = self.root_for(d)
                    self.frames[-1].env[d['id']] = LV(root)
                    ts.store[root] = Obj('exception', {})
            o2 = self.stmt(hin[-1], ts)
            o = self.merge_outs(o, o2)
        return o

    def s_CXXThrowExpr(self, node, st):
        self.throw(st, node)
        return Outs(None)

    def throw(self, st, what=None):
        self.throws[-1].append((st.copy(), what))

    def s_ExprWithCleanups(self, node, st):
        inner = node['inner'][0]
        if inner.get('kind') == 'CXXThrowExpr':
            return self.s_CXXThrowExpr(inner, st)
        return self.stmt(inner, st)

    # ------------------------------------------------------------ loops
    def s_ForStmt(self, node, st):
        inner = node.get('inner', [])
        init, _, cond, inc, body = inner[0], inner[1], inner[2], inner[3], inner[4]
        if init.get('kind'):
            o = self.stmt(init, st)
            st = o.normal
        r = self.unroll(st, cond, inc, body)
        if r is not None:
            return r
        return self.loop(st, cond, inc, body)

    UNROLL = 12
    def unroll(self, st, cond, inc, body):
        """a loop whose bounds are constants is executed iteration by iteration"""
        c = cond
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'):
            c = c['inner'][0]
        if c.get('kind') != 'BinaryOperator' or c.get('opcode') not in ('<', '<=', '>', '>='):
            return None
        nob, nth = len(self.obls), len(self.throws[-1])
        def undo():
            del self.obls[nob:]
            del self.throws[-1][nth:]
            return None
        try:
            a = self.ev(c['inner'][0], st.copy())
            b = self.ev(c['inner'][1], st.copy())
        except Unsupported:
            return undo()
        if not (isinstance(a, P) and isinstance(b, P)) or a.const() is None or b.const() is None or abs(b.const() - a.const()) > self.UNROLL:
            return undo()
        cur, brk, ret = st.copy(), None, None
        for it in range(self.UNROLL + 2):
            t = self.truth(self.ev(cond, cur), cur).const()
            if t is None:
                return undo()
            if t == 0:
                return Outs(self.merge(cur, brk), None, None, ret)
            o = self.stmt(body, cur)
            brk = self.merge(brk, o.brk)
            ret = self.merge_ret(ret, o.ret)
            cur = self.merge(o.normal, o.cont)
            if cur is None:
                return Outs(brk, None, None, ret)
            if inc.get('kind'):
                self.ev(inc, cur, discard=True)
        return undo()

    def s_WhileStmt(self, node, st):
        inner = node.get('inner', [])
        return self.loop(st, inner[-2], None, inner[-1])

    def s_DoStmt(self, node, st):
        inner = node.get('inner', [])
        # body once, then while
        o = self.stmt(inner[0], st)
        s = self.merge(o.normal, o.cont)
        if s is None:
            return Outs(o.brk, None, None, o.ret)
        o2 = self.loop(s, inner[1], None, inner[0])
        return Outs(self.merge(o2.normal, o.brk), None, None, self.merge_ret(o.ret, o2.ret))

    def omp_clauses(self, node):
        """(clause name, clause node) in source order; clang's JSON omits clause kinds, so names are read from the pragma text"""
        try:
            off = node['range']['begin'].get('offset')
            src = open(self.frames[-1].tu.path, 'rb').read()
            line = src[off:].split(b'\n', 1)[0].decode('utf8', 'replace')
        except Exception:
            raise Unsupported('OpenMP pragma text')
        line = line.split('parallel for', 1)[-1] if 'parallel for' in line else line
        names, d, cur = [], 0, ''
        for ch in line:
            if d == 0 and (ch.isalnum() or ch == '_'):
                cur += ch
            elif ch == '(':
                if d == 0:
                    names.append(cur)
                    cur = ''
                d += 1
            elif ch == ')':
                d -= 1
            elif d == 0:
                if cur:
                    names.append(cur)
                cur = ''
        nodes = [c for c in node.get('inner', []) if not c.get('kind') or c['kind'].endswith('Clause')]
        names = [x for x in names if x not in ('nowait',)]
        if len(nodes) < len(names):
            names = [x for x in names if x not in ('default', 'schedule')]
        if len(nodes) != len(names):
            if all(not c.get('inner') for c in nodes[len(names):]):
                nodes = nodes[:len(names)]
            else:
                raise Unsupported('OpenMP clauses %s' % line)
        return list(zip(names, nodes))

    def s_OMPParallelForDirective(self, node, st):
        nt = None
        red = []
        stmt = None
        for nm, c in self.omp_clauses(node):
            if nm == 'num_threads':
                nt = self.scalar(self.ev(c['inner'][0], st))
            elif nm == 'reduction':
                for x in c.get('inner', []):
                    if x.get('kind') == 'DeclRefExpr':
                        red.append(x['referencedDecl']['id'])
            elif nm not in ('schedule', 'shared', 'default'):
                raise Unsupported('OpenMP clause ' + nm)
        for c in node.get('inner', []):
            if c.get('kind') == 'CapturedStmt':
                stmt = c
        def findfor(n):
            if n.get('kind') in ('ForStmt', 'CXXForRangeStmt'):
                return n
            for c in n.get('inner', []):
                r = findfor(c)
                if r is not None:
                    return r
            return None
        f = findfor(stmt)
        if nt is None:
            nt = var('omp_default_threads', 'I')
            self.fact(lt(0, nt))
        inner = f['inner']
        o = self.stmt(inner[0], st)
        return self.loop(o.normal, inner[2], inner[3], inner[4], omp=(nt, red))

    def s_OMPCriticalDirective(self, node, st):
        def findbody(n):
            if n.get('kind') == 'CompoundStmt':
                return n
            for c in n.get('inner', []):
                r = findbody(c)
                if r is not None:
                    return r
        self.critical += 1
        try:
            return self.stmt(findbody(node), st)
        finally:
            self.critical -= 1
    s_OMPAtomicDirective = s_OMPCriticalDirective

    def s_CXXForRangeStmt(self, node, st):
        inner = [n for n in node.get('inner', [])]
        decls = [n for n in inner if n.get('kind') == 'DeclStmt']
        body = inner[-1]
        rangedecl = None
        loopvar = None
        for d in decls:
            v = d['inner'][0]
            if v.get('name', '').startswith('__range'):
                rangedecl = v
            elif not v.get('name', '').startswith('__'):
                loopvar = v
        rinit = rangedecl['inner'][0]
        try:
            rlv = self.lv(rinit, st)
        except Unsupported:
            rlv = None
        if rlv is None:
            root = ('l', rangedecl['id'], self.frames[-1].fid)
            st.store[root] = self.ev(rinit, st)
            rlv = LV(root)
        seq = self.read(st, rlv)
        isref = qty(loopvar).rstrip().endswith('&')
        fr = self.frames[-1]
        def bind(s, idx):
            e = rlv + ('idx', idx)
            if isref:
                fr.env[loopvar['id']] = e
            else:
                root = self.root_for(loopvar)
                fr.env[loopvar['id']] = LV(root)
                s.store[root] = self.read(s, e)
        if isinstance(seq, LSeq):
            acc = Outs(st)
            brk = None
            for i in range(len(seq.els)):
                if acc.normal is None:
                    break
                bind(acc.normal, num(i))
                o = self.stmt(body, acc.normal)
                acc = Outs(self.merge(o.normal, o.cont), None, None, self.merge_ret(acc.ret, o.ret))
                brk = self.merge(brk, o.brk)
            return Outs(self.merge(acc.normal, brk), None, None, acc.ret)
        if isinstance(seq, (Seq, Mat)):
            n = seq.n if isinstance(seq, Seq) else vlen(seq)
            croot = ('l', rangedecl['id'] + '#c', fr.fid)
            st.store[croot] = ZERO
            return self.loop(st, lambda s: lt(self.read(s, LV(croot)), n),
                             lambda s: self.write(s, LV(croot), self.read(s, LV(croot)) + 1), body,
                             pre=lambda s: bind(s, self.read(s, LV(croot))))
        raise Unsupported('range-for over %s' % type(seq).__name__)

    # leaves of a value: (path, P, formals)
    def leaves(self, v, path=(), formals=()):
        if isinstance(v, P):
            yield path, v, formals
        elif isinstance(v, Mat):
            yield path + ('nr',), v.nr, formals
            yield path + ('nc',), v.nc, formals
            yield path + ('body',), v.body, formals + (() if v.nr == ONE else (R_,)) + (() if v.nc == ONE else (C_,))
        elif isinstance(v, Cube):
            yield path + ('nr',), v.nr, formals
            yield path + ('nc',), v.nc, formals
            yield path + ('ns',), v.ns, formals
            yield path + ('body',), v.body, formals + (R_, C_, S_)
        elif isinstance(v, Obj):
            for k in sorted(v.f):
                yield from self.leaves(v.f[k], path + ('f:' + k,), formals)
        elif isinstance(v, Seq):
            yield path + ('n',), v.n, formals
            yield from self.leaves(v.el, path + ('el',), formals + ('@k',))
        elif isinstance(v, LSeq):
            for i, e in enumerate(v.els):
                yield from self.leaves(e, path + (i,), formals)

    def rebuild(self, v, f, path=()):
        """rebuild a value mapping each scalar leaf p at path through f(path,p)"""
        if isinstance(v, P):
            return f(path, v)
        if isinstance(v, Mat):
            return Mat(f(path + ('nr',), v.nr), f(path + ('nc',), v.nc), f(path + ('body',), v.body))
        if isinstance(v, Cube):
            return Cube(f(path + ('nr',), v.nr), f(path + ('nc',), v.nc), f(path + ('ns',), v.ns), f(path + ('body',), v.body))
        if isinstance(v, Obj):
            return Obj(v.cls, {k: self.rebuild(x, f, path + ('f:' + k,)) for k, x in v.f.items()}, v.sym)
        if isinstance(v, Seq):
            return Seq(f(path + ('n',), v.n), self.rebuild(v.el, f, path + ('el',)))
        if isinstance(v, LSeq):
            return LSeq([self.rebuild(e, f, path + (i,)) for i, e in enumerate(v.els)])
        return v

    def unify_shape(self, a, b):
        """make pre-state value a structurally like post-state b (vector literals -> sequences, touched fields)"""
        if isinstance(a, LSeq) and isinstance(b, (Seq, LSeq)):
            if isinstance(b, LSeq) and len(a.els) == len(b.els):
                return LSeq([self.unify_shape(x, y) for x, y in zip(a.els, b.els)])
            if a.els:
                return to_seq(a)
            el = b.el if isinstance(b, Seq) else b.els[-1]
            return Seq(ZERO, self.zero_like(el))
        if isinstance(a, Seq) and isinstance(b, Seq):
            if a.n == ZERO and type(a.el) is not type(b.el):
                return Seq(ZERO, self.zero_like(b.el))
            return Seq(a.n, self.unify_shape(a.el, b.el))
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls:
            f = {}
            for k in b.f:
                x = a.f[k] if k in a.f else (self.default_field(a, k) if a.sym is not None else b.f[k])
                f[k] = self.unify_shape(x, b.f[k])
            for k in a.f:
                if k not in f:
                    f[k] = a.f[k]
            return Obj(a.cls, f, a.sym)
        return a

    def zero_like(self, v):
        return self.rebuild(v, lambda p, x: ZERO)

    def nonscalar_changed(self, a, b, path=()):
        """paths whose non-scalar content differs"""
        if isinstance(a, (P, Mat, Cube)) and type(a) is type(b):
            return []
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls:
            out = []
            for k in a.f:
                if k in b.f:
                    out += self.nonscalar_changed(a.f[k], b.f[k], path + ('f:' + k,))
            return out
        if isinstance(a, Seq) and isinstance(b, Seq):
            return self.nonscalar_changed(a.el, b.el, path + ('el',))
        if isinstance(a, LSeq) and isinstance(b, LSeq) and len(a.els) == len(b.els):
            out = []
            for i, (x, y) in enumerate(zip(a.els, b.els)):
                out += self.nonscalar_changed(x, y, path + (i,))
            return out
        if vsame(a, b):
            return []
        return [path]

    def leaf_sort(self, root, path, p, new):
        for q in (p, new):
            if q is None:
                continue
        def boolish(q):
            return q is not None and all(c.denominator == 1 and all(a.op == 'br' for a, e in m) for m, c in q.t.items())
        if root in self.boolroots:
            return 'B'
        if path and path[-1] in ('nr', 'nc', 'ns', 'n'):
            return 'I'
        if self.declbool(root, path):
            return 'B'
        if is_int(p) and (new is None or is_int(new)) and not (self.isreal(root, path)):
            return 'I'
        return 'R'

    boolroots = set()
    def declbool(self, root, path):
        t = self.decltype(root, path)
        return t == 'bool'
    def isreal(self, root, path):
        t = self.decltype(root, path)
        return t is not None and ('double' in t or t in ('mat', 'vec', 'rowvec', 'cube', 'float'))
    def decltype(self, root, path):
        """declared C++ type of the location if simple"""
        tu = self.frames[-1].tu
        if root[0] == 'l':
            d = self.declnodes.get(root)
            if d is None:
                for f in self.frames:
                    dd = f.tu.byid.get(root[1])
                    if dd is not None:
                        d = dd
            if d is None:
                return None
            t = clean_ty(ty(d))
            if not path or path[-1] == 'body':
                return t
            return None
        fields = [x[2:] for x in path if isinstance(x, str) and x.startswith('f:')]
        if fields and root == ('this',):
            t = self.field_type(tu, self.thiscls, fields[0])
            if len(fields) == 1 and t:
                return clean_ty(t)
        return None
    thiscls = None

    def loop(self, st, cond, inc, body, omp=None, pre=None):
        fr = self.frames[-1]
        kname = fresh('k')
        K = var(kname)
        mod = {}          # (root, path) -> placeholder name
        info = {}
        saved_throws = None
        base_obl = len(self.obls)
        old_omp = (self.omp_threads, self.ompk)
        if omp:
            self.omp_threads, self.ompk = omp[0], K
            self.fact(lt(0, omp[0]))
        st0 = st
        loopline = self.curline
        for attempt in range(12):
            del self.obls[base_obl:]
            s1 = st0.copy()
            for root in {r for r, p in mod}:
                v = s1.store[root]
                def f(path, p, root=root):
                    ph = mod.get((root, path))
                    if ph is None:
                        return p
                    return ph[1]
                s1.store[root] = self.rebuild(v, f)
            pre_store = dict(s1.store)
            self.throws.append([])
            lc = len(self.loopctx)
            self.loopctx = self.loopctx + [le(0, K)]
            try:
                c = self.truth(cond(s1) if callable(cond) else (self.ev(cond, s1) if cond and cond.get('kind') else ONE), s1)
                cpath = len(s1.path)
                s1.assume(c)
                if pre:
                    pre(s1)
                mid_store = dict(s1.store)
                outs = self.stmt(body, s1)
                end = self.merge(outs.normal, outs.cont)
                if end is not None and inc is not None:
                    if callable(inc):
                        inc(end)
                    elif inc.get('kind'):
                        self.ev(inc, end, discard=True)
            finally:
                self.loopctx = self.loopctx[:lc]
                thrown = self.throws.pop()
            changed = set()
            shape = False
            ends = [e for e in [end, outs.brk, outs.ret[0] if outs.ret else None] if e is not None]
            for e in ends:
                for root in list(st0.store) + [r for r in e.store if r[0] == 'h' and r not in st0.store]:
                    a = pre_store.get(root)
                    b = e.store.get(root)
                    if b is None or a is b:
                        continue
                    if a is None:
                        if root[0] == 'h' and not str(root[1]).startswith('new'):
                            st0.store[root] = self.default_heap(root)
                            shape = True
                        continue
                    a2 = self.unify_shape(st0.store[root], b)
                    if not self.same_shape(a2, st0.store[root]):
                        st0.store[root] = a2
                        # drop placeholders below this root: they are recomputed
                        shape = True
                        continue
                    la = {p: (x, fm) for p, x, fm in self.leaves(a)}
                    for p, x, fm in self.leaves(b):
                        if p in la:
                            if la[p][0] != x and (root, p) not in mod:
                                fm = fm + tuple(f for f in la[p][1] if f not in fm)
                                changed.add((root, p, fm))
                        else:
                            raise Unsupported('shape of %s%s changes in loop' % (self.leafnames.get(root, root), ''.join('.' + str(q) for q in p)))
                    for p in self.nonscalar_changed(a, b):
                        self.lost.append((root, p))
            if shape:
                continue
            if not changed:
                break
            for root, p, fm in changed:
                v = st0.store[root]
                oldp = {pp: x for pp, x, _ in self.leaves(v)}[p]
                newp = None
                for e in ends:
                    d = {pp: x for pp, x, _ in self.leaves(e.store[root])}
                    if p in d:
                        newp = d[p]
                sort = self.leaf_sort(root, p, oldp, newp)
                name = 'ph' + fresh('')
                sym = _rb_ph((var(name, 'I'),) + tuple(var(x) for x in fm), sort)
                mod[(root, p)] = (name, sym, fm, sort)
        else:
            raise Unsupported('loop did not stabilise')
        self.omp_threads, self.ompk = old_omp
        loop_obls = self.obls[base_obl:]
        del self.obls[base_obl:]
        try:
            return self.finish_loop(st0, mod, c, end, outs, thrown, kname, omp, loop_obls, cpath, s1, loopline)
        finally:
            pass

    def same_shape(self, a, b):
        la = [p for p, x, f in self.leaves(a)]
        lb = [p for p, x, f in self.leaves(b)]
        return la == lb and all(x == y for (_, x, _), (_, y, _) in zip(self.leaves(a), self.leaves(b)))

    def finish_loop(self, st0, mod, c, end, outs, thrown, kname, omp, loop_obls, cpath, s1, loopline):
        K = var(kname)
        leafval = lambda stx, root, p: {pp: x for pp, x, _ in self.leaves(stx.store[root])}[p]
        names = {ph[0]: key for key, ph in mod.items()}
        U = dict(mod)
        closed = {}      # ph name -> (P in K, formals...)
        post = {}
        if end is not None:
            for (root, p), ph in mod.items():
                post[(root, p)] = leafval(end, root, p)
        init = {key: leafval(st0, key[0], key[1]) for key in mod}
        subs = {}        # ph -> var of PHDEF closure at K

        def define(key, body):
            """closed form of leaf at iteration counter K"""
            name, sym, fm, sort = mod[key]
            closed[name] = (body, fm)
            cn = 'cl' + fresh('')
            PHDEF[cn] = lambda *args, body=body, fm=fm: subst(body, dict(zip(fm, args)))
            subs[name] = var(cn)
            U.pop(key, None)

        def inst(p):
            return subst(p, subs) if subs else p

        # pass 1: induction variables
        if end is not None:
            for key, ph in list(U.items()):
                if ph[2] or ph[3] == 'B':
                    continue
                d = post[key] - ph[1]
                cc = d.const()
                if cc is not None:
                    define(key, init[key] + num(cc) * K)
        # trip count
        N, extra = self.trip(inst(c), kname, st0)
        countable = N is not None
        if not countable:
            return self.uncountable(st0, mod, c, end, outs, thrown, loop_obls, s1)
        # body exits
        def relcond(stx):
            r = ONE
            for x in stx.path[cpath + (1 if s1_has(c) else 0):]:
                r = r * x
            return r
        def s1_has(c):
            return c.const() != 1
        exits = []
        if outs.brk is not None:
            exits.append(('brk', outs.brk, None, relcond(outs.brk)))
        if outs.ret is not None:
            exits.append(('ret', outs.ret[0], outs.ret[1], relcond(outs.ret[0])))
        for ts, e in thrown:
            exits.append(('thr', ts, e, relcond(ts)))
        # latches: a boolean that some iteration may flip and no iteration flips back (failure flags).  Values below
        # are those of the run in which no iteration flips it; in the other runs only the latch itself is known,
        # which holds for every order of the iterations
        latch = []
        if end is not None and not exits:
            for key in list(U):
                name, sym, fm, sort = mod[key]
                i0 = init[key].const()
                if fm or i0 not in (0, 1) or not (sort == 'B' or self.declbool(key[0], key[1])):
                    continue
                def with_const(cv):
                    cn = 'cl' + fresh('')
                    PHDEF[cn] = lambda *args, cv=cv: num(cv)
                    return subst(post[key], {name: var(cn)})
                flipped = with_const(1 - i0)
                if flipped.const() != 1 - i0:
                    continue
                w = with_const(i0)
                if any(n_ in names and names[n_] in U for n_ in w.fv):
                    continue
                w = inst(w)
                if w.const() == i0:
                    continue
                define(key, num(i0))
                latch.append((key, i0, w if i0 == 1 else ONE - w))
        if latch:
            s0 = prove.Simp([le(0, K), lt(K, N)] + list(self.base))
            latch = [(q_, i_, s0.p(w_)) for q_, i_, w_ in latch]
            ws = [x[2] for x in latch]
            simp_q = prove.Simp(ws + [le(0, K), lt(K, N)] + list(self.base))
            quietly = lambda p: simp_q.p(p)
        # under 'end', the exit conditions are false; leaf posts are valid for iterations that do not exit
        progress = True
        while U and progress and end is not None:
            progress = False
            for key in sorted(U, key=lambda k_: (str(k_[1]), str(k_[0]))):
                name, sym, fm, sort = mod[key]
                Tm = inst(post[key])
                if latch:
                    Tm = quietly(Tm)
                deps = {n for n in Tm.fv if n in names and names[n] in U and n != name}
                if deps:
                    continue
                r = self.solve_leaf(key, name, sym, fm, sort, init[key], Tm, kname, N, st0)
                if r is not None:
                    define(key, r)
                    progress = True
        if U and not omp and (self.templates is not None or self.arrtemplates is not None):
            return self.uncountable(st0, mod, c, end, outs, thrown, loop_obls, s1)      # no closed form: by invariants
        for key in list(U):
            name, sym, fm, sort = mod[key]
            self.lost.append((key, self.leafnames.get(key[0], key[0])))
            lostsym = 'lost%d' % next(self.symid)
            a = mk('app', (lostsym, (K,) + tuple(var(x) for x in fm)), sort)
            define(key, br(a) if sort == 'B' else lift(a))
        # race check
        if omp:
            self.race_check(mod, post, inst, kname, omp, st0, loopline, c)
        # total exit condition
        b = ZERO
        for kind, stx, v, rc in exits:
            b = b + inst(rc)
        rng = [le(0, K), lt(K, N)]
        for o in loop_obls:
            g = inst(o.goal)
            facts = [inst(f) for f in o.facts] + rng
            self.obls.append(Obligation(o.kind, o.text, facts, g, o.line, o.fn))
        final = st0.copy()
        def at(stx, kval, frm=None):
            """state stx (in terms of placeholders) evaluated at iteration kval"""
            out = State({}, ())
            for r, v in stx.store.items():
                if r in st0.store or r[0] == 'h':
                    out.store[r] = vsubst(vsubst(v, subs) if subs else v, {kname: kval})
            return out
        res = Outs()
        nb = b.const()
        quiet = {id(x): forall(kname, N, x[2]) for x in latch}
        for q_ in quiet.values():
            if q_.const() is None:
                self.latched.append(q_)
        kept = ONE
        for x in latch:
            kept = kept * quiet[id(x)]
        # normal completion
        for root in {k_[0] for k_ in mod}:
            def f(path, p, root=root):
                ph = mod.get((root, path))
                if ph is None:
                    return p
                body, fm = closed[ph[0]]
                r = subst(body, {kname: N})
                if latch:
                    own = [x for x in latch if x[0] == (root, path)]
                    if own:
                        return num(own[0][1]) if kept.const() == 1 else (quiet[id(own[0])] if own[0][1] == 1 else ONE - quiet[id(own[0])])
                    a_ = mk('app', ('lost%d' % next(self.symid), tuple(var(x) for x in fm)), ph[3])
                    r = ite(kept, r, br(a_) if ph[3] == 'B' else lift(a_))
                return r
            final.store[root] = self.rebuild(st0.store[root], f)
        for (root, p) in [x for x in self.lost if isinstance(x[0], tuple) and x[0] and x[0][0] in ('l', 'h', 'this') and len(x) == 2 and isinstance(x[1], tuple)]:
            if root in final.store and isinstance(final.store[root], (Ptr, Opq, Fn, Str)):
                if root in (end.store if end else {}):
                    final.store[root] = Opq(app('lost%d' % next(self.symid), sort='O'), '?')
        if nb != 0:
            final.assume(forall(kname, N, ONE - b))
            first = app('first', lam([kname], b), N, sort='I')
            for kind, stx, v, rc in exits:
                if inst(rc).const() == 0:
                    continue
                e = at(stx, first)
                e.path = st0.path + (ONE - forall(kname, N, ONE - b), le(0, first), lt(first, N), subst(inst(rc), {kname: first}))
                if kind == 'brk':
                    res.brk = self.merge(res.brk, e)
                elif kind == 'ret':
                    vv = vsubst(vsubst(v, subs) if subs else v, {kname: first}) if v is not None else VOID
                    res.ret = self.merge_ret(res.ret, (e, vv))
                else:
                    self.throws[-1].append((e, v))
        if end is None and N.const() != 0 and False:
            final = None
        out_norm = final
        if self.is_dead(final):
            out_norm = None
        # loops that always run at least once keep the exit value of the induction variable via closed forms
        return Outs(self.merge(out_norm, res.brk), None, None, res.ret)

    def trip(self, c, kname, st):
        """number of iterations of while(c(k)) with c of the form linear-in-k comparison"""
        K = var(kname)
        if c.const() == 0:
            return ZERO, None
        neg = False
        p = None
        at = c.atom()
        if at is not None and at.op == 'br' and at.args[0].op == 'lt':
            p = at.args[0].args[0]
        else:
            d = ONE - c
            at = d.atom()
            if at is not None and at.op == 'br' and at.args[0].op == 'lt':
                p = at.args[0].args[0]
                neg = True
            elif at is not None and at.op == 'br' and at.args[0].op == 'eq':
                # i != n
                t = T._lin_eq(at.args[0].args[0], kname)
                if t is None:
                    return None, None
                if prove.entails(self.facts(st), le(0, t)):
                    return t, None
                return None, None
        if p is None:
            return None, None
        coef = F(0)
        rest = {}
        for m, cc in p.t.items():
            if len(m) == 1 and m[0][0].op == 'var' and m[0][0].args[0] == kname and m[0][1] == 1:
                coef = cc
            else:
                if any(kname in a.fv for a, e in m):
                    return None, None
                rest[m] = cc
        rest = P(rest)
        if not neg:
            # coef*k + rest < 0
            if coef == 1 and is_int(rest):
                N = -rest
            elif coef > 1 and is_int(rest):
                N = idiv(-rest + num(coef - 1), num(coef))
            else:
                return None, None
        else:
            # coef*k + rest >= 0 , coef < 0
            if coef == -1 and is_int(rest):
                N = rest + 1
            elif coef < -1 and is_int(rest):
                N = idiv(rest, num(-coef)) + 1
            else:
                return None, None
        if N.const() is not None:
            return (N if N.const() > 0 else ZERO), None
        if prove.entails(self.facts(st), le(0, N)):
            return N, None
        if prove.entails(self.facts(st), le(N, 0)):
            return ZERO, None
        return ite(lt(0, N), N, ZERO), None

    def align(self, Tm, name, sym, fm):
        """inside a monomial carrying [formal == e], a read of the same container at index e is a read at the formal"""
        own = sym.atom()
        if not fm or own is None or own.op != 'app':
            return Tm
        out = ZERO
        hit = False
        for m, c in Tm.t.items():
            nm_ = list(m)
            for i, (a, e) in enumerate(m):
                if a is own or a.op != 'app' or a.args[0] != 'ph' or a.args[1][0].fv != frozenset([name]):
                    continue
                good = True
                for f, arg in zip(fm, a.args[1][1:]):
                    d = var(f) - arg
                    if not d.t:
                        continue
                    ok = False
                    for b, _ in m:
                        if b.op == 'br' and b.args[0].op == 'eq':
                            q = b.args[0].args[0]
                            if q == d or q == -d:
                                ok = True
                    if not ok:
                        good = False
                        break
                if good:
                    nm_[i] = (own, e)
                    hit = True
            if nm_ == list(m):
                out = out + P({m: c})
            else:
                t = num(c)
                for a, e in nm_:
                    for _ in range(e):
                        t = t * lift(a)
                out = out + t
        return out if hit else Tm

    def solve_leaf(self, key, name, sym, fm, sort, v0, Tm, kname, N, st):
        K = var(kname)
        own = sym.atom()
        Tm = self.align(Tm, name, sym, fm)
        if name not in Tm.fv:
            # assigned every iteration without reading the old value
            if sort == 'B' or not fm:
                prev = subst(Tm, {kname: K - 1})
                return ite(eq(K, 0), v0, prev)
            prev = subst(Tm, {kname: K - 1})
            return ite(eq(K, 0), v0, prev)
        A, B = ZERO, ZERO
        ok = True
        for m, c in Tm.t.items():
            inown = [e for a, e in m if a is own]
            oth = tuple((a, e) for a, e in m if a is not own)
            if any(name in a.fv for a, e in oth):
                ok = False
                break
            if inown:
                if inown[0] != 1:
                    ok = False
                    break
                A = A + P({oth: c})
            else:
                B = B + P({m: c})
        if ok:
            j = fresh('j')
            if A.const() == 1:
                return v0 + ssum(j, K, subst(B, {kname: var(j)}))
            D = Tm - sym
            lane = self.lane_bracket(D, kname, fm)
            if lane:
                # at most one iteration touches this element
                D0 = subst(D, {name: self.phconst(v0, fm)})
                return v0 + ssum(j, K, subst(D0, {kname: var(j)}))
            if sort == 'B':
                if not B.t:
                    return v0 * forall(j, K, subst(A, {kname: var(j)}))
                # own' = own*A + B with own in {0,1}: or-accumulation when A+B == 1
                if (A + B).const() == 1:
                    return ONE - (ONE - v0) * forall(j, K, subst(ONE - B, {kname: var(j)}))
            if not B.t and kname not in A.fv:
                c0 = A.const()
                # geometric: v0 * A^k
                return v0 * powp(A, K)
        # running max / min : ite(own < e, e, own)
        r = self.extremum(Tm, own, name, v0, kname)
        if r is not None:
            return r
        # lane-disjoint update whose right-hand side reads the same lane
        D = Tm - sym
        lane = self.lane_bracket(D, kname, fm)
        if lane and self.lane_reads_ok(D, name, lane, kname, fm):
            D0 = subst(D, {name: self.phconst(v0, fm)})
            j = fresh('j')
            return v0 + ssum(j, K, subst(D0, {kname: var(j)}))
        return None

    def phconst(self, v0, fm):
        cn = 'cl' + fresh('')
        PHDEF[cn] = lambda *args: subst(v0, dict(zip(fm, args)))
        return var(cn)

    def lane_bracket(self, D, kname, fm):
        """every monomial carries one common bracket [formal == affine(k)] (k coefficient ±1)"""
        if not D.t or not fm:
            return None
        common = None
        for m in D.t:
            s = {a for a, e in m if a.op == 'br' and a.args[0].op == 'eq' and kname in a.fv}
            common = s if common is None else common & s
            if not common:
                return None
        for a in sorted(common, key=lambda x: x.key):
            p = a.args[0].args[0]
            t = T._lin_eq(p, kname)
            if t is None:
                continue
            fs = [f for f in fm if f in t.fv]
            if len(fs) >= 1:
                # k determined by the element position -> disjoint across iterations
                return a, fs
        return None

    def lane_reads_ok(self, D, name, lane, kname, fm):
        a, fs = lane
        f0 = fs[0]
        t = T._lin_eq(a.args[0].args[0], f0)
        if t is None:
            return False
        idx = fm.index(f0)
        bad = [False]
        def walk(x):
            if isinstance(x, P):
                if name not in x.fv:
                    return
                for m in x.t:
                    for at, e in m:
                        walk(at)
            elif isinstance(x, Atom):
                if name not in x.fv:
                    return
                if x.op == 'app' and x.args[0] == 'ph' and x.args[1][0].fv == frozenset([name]):
                    arg = x.args[1][1 + idx]
                    if arg == var(f0) or arg == t:
                        return
                    bad[0] = True
                    return
                for y in x.args:
                    walk(y)
            elif isinstance(x, tuple):
                for y in x:
                    walk(y)
        walk(D)
        return not bad[0]

    def extremum(self, Tm, own, name, v0, kname):
        """Tm == own + [own < e](e-own)  -> running max ; [e < own] -> running min"""
        for m, c in Tm.t.items():
            # own' = max2(own, e) / min2(own, e)
            if len(Tm.t) == 1 and c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0] in ('max2', 'min2'):
                op, q = m[0][0].args
                e = [x for x in q if x != lift(own)]
                if len(e) == 1 and name not in e[0].fv:
                    j = fresh('j')
                    K = var(kname)
                    ej = subst(e[0], {kname: var(j)})
                    if op == 'max2':
                        return ite(lt(0, K), max2(v0, rext('rmax', j, K, ej)), v0)
                    return ite(lt(0, K), min2(v0, rext('rmin', j, K, ej)), v0)
        D = Tm - lift(own)
        brs = {a for m in D.t for a, e in m if a.op == 'br' and a.args[0].op == 'lt' and name in a.fv}
        if len(brs) != 1:
            # also written with the negated bracket: Tm = e + [..](own - e)
            return None
        b, = brs
        p = b.args[0].args[0]
        # p = ±(own - e)*c
        co = F(0)
        rest = {}
        for m, c in p.t.items():
            if len(m) == 1 and m[0][0] is own and m[0][1] == 1:
                co = c
            else:
                rest[m] = c
        rest = P(rest)
        if co == 0 or name in rest.fv:
            return None
        e = scale(rest, -1 / co)
        j = fresh('j')
        K = var(kname)
        want = lift(b) * (e - lift(own))
        ej = subst(e, {kname: var(j)})
        if D == want:
            if co > 0:   # own - e < 0 : max
                r = rext('rmax', j, K, ej)
                return ite(lt(0, K), max2(v0, r), v0)
            r = rext('rmin', j, K, ej)
            return ite(lt(0, K), min2(v0, r), v0)
        want2 = (ONE - lift(b)) * (e - lift(own))
        if D == want2:
            # assigned when not(own-e<0) i.e. own >= e : min ;
            if co > 0:
                r = rext('rmin', j, K, ej)
                return ite(lt(0, K), min2(v0, r), v0)
            r = rext('rmax', j, K, ej)
            return ite(lt(0, K), max2(v0, r), v0)
        return None

    def race_check(self, mod, post, inst, kname, omp, st, line, cond):
        nt, red = omp
        for key, (name, sym, fm, sort) in mod.items():
            if key not in post:
                continue
            root, path = key
            D = inst(post[key] - sym) if True else None
            nmn = self.leafnames.get(root) or '.'.join(str(x) for x in path)
            if root[0] == 'l' and root[1] in red:
                continue
            if root in self.ompprivate(st):
                continue
            Draw = post[key]
            if name in self.critical_names:
                continue
            d = Draw - sym
            cc = d.const()
            if not fm:
                if cc is not None and name in cond.fv:
                    continue
                # idempotent flags: every write stores the same constant
                A, ok = self.const_writes(Draw, sym)
                if ok:
                    continue
                # ghost progress counters are not results
                self.obls.append(Obligation('race', 'shared variable %s is updated by every thread without synchronisation' % nmn,
                                            self.facts(st), ZERO, line, self.fnname()))
                continue
            good = True
            for m in d.t:
                has = False
                for a, e in m:
                    if a.op == 'br' and a.args[0].op == 'eq':
                        q = inst(a.args[0].args[0]) if True else None
                        fs = [f for f in fm if f in q.fv]
                        if not fs:
                            continue
                        if any(self.is_thr(x) for mm in q.t for x, _ in mm) and len(q.t) == 2:
                            has = True
                        elif T._lin_eq(q, kname) is not None:
                            has = True
                if not has:
                    good = False
                    break
            if not good:
                self.obls.append(Obligation('race', 'iterations running in parallel write overlapping parts of %s' % nmn,
                                            self.facts(st), ZERO, line, self.fnname()))
    critical_names = set()
    def is_thr(self, x):
        return x.op == 'app' and x.args[0] == 'thr'
    def ompprivate(self, st):
        return set()
    def const_writes(self, Tm, sym):
        """Tm = c*const + (1-c)*sym"""
        own = sym.atom()
        A = ZERO
        B = ZERO
        for m, c in Tm.t.items():
            if any(a is own for a, e in m):
                A = A + P({tuple((a, e) for a, e in m if a is not own): c})
            else:
                B = B + P({m: c})
        # B must be const*(1-A)
        r = ONE - A
        if not B.t:
            return A, True
        for cst in (ONE, num(2), num(3), num(-1)):
            if B == r * cst:
                return A, True
        return A, False

    arrtemplates = None  # spec-supplied definitions of array leaves: f(ex, scalar keys and inits, array keys, formals and inits) -> [(label, key, g(values by key) -> P)]
    headnames = None     # name given to the arbitrary value of a scalar at the head of the last iteration: f(key, init) -> name or None
    templates = None     # spec-supplied invariant templates: f(ex, leaves) -> [(label, g -> P | (P, P))]
    def uncountable(self, st0, mod, c, end, outs, thrown, loop_obls, s1):
        """a loop without closed-form trip count: every modified leaf is arbitrary at the loop head except for the
        invariants inferred below (candidates that hold on entry and are preserved by the body); the state after the loop
        is the entry state with the condition false, or the state after one arbitrary last iteration with it false"""
        if self.noncount_loop is not None:
            return self.noncount_loop(self, st0, mod, c, end, outs, thrown, loop_obls, s1)
        if any(isinstance(x[0], tuple) and len(x) == 2 and isinstance(x[1], tuple) and x[0] and x[0][0] in ('l', 'h', 'this') for x in self.lost):
            raise Unsupported('loop without closed-form trip count changes pointers')
        leafval = lambda stx, root, p: {pp: x for pp, x, _ in self.leaves(stx.store[root])}[p]
        keys = list(mod)
        init = {key: leafval(st0, *key) for key in keys}
        post = {key: leafval(end, *key) for key in keys} if end is not None else {}
        def closure(mapping, memo):
            """substitution replacing the placeholders by mapping[key] (terms in the formals)"""
            subs = {}
            for key in keys:
                name, sym, fm, sort = mod[key]
                cn = 'cl' + fresh('')
                PHDEF[cn] = lambda *args, body=mapping[key], fm=fm: subst(body, dict(zip(fm, args)))
                subs[name] = var(cn)
            return subs
        def havoc():
            m, fs = {}, []
            for key in keys:
                name, sym, fm, sort = mod[key]
                nm = (self.headnames(key, init[key], sort) if self.headnames and not fm else None) or 'havoc%d' % next(self.symid)
                a = mk('app', (nm, tuple(var(x) for x in fm)), sort)
                m[key] = br(a) if sort == 'B' else (lift(a) if fm else var(nm, sort))
                t = self.decltype(*key) or ''
                if sort == 'I' and (re.search(r'unsigned|uword|size_t|u32|u64', str(t)) or key[1] and key[1][-1] in ('n', 'nr', 'nc', 'ns')) and not fm:
                    fs.append(le(0, m[key]))
            return m, fs
        hv, hfacts = havoc()
        hv0 = hv
        ainv = []
        def ranges(stx, key, f):
            """indices of a matrix are within its dimensions"""
            fs = [le(0, var(v)) for v in mod[key][2]]
            if key[1] and key[1][-1] == 'body':
                for v, d in ((R_, 'nr'), (C_, 'nc'), (S_, 'ns')):
                    try:
                        fs.append(lt(var(v), f(leafval(stx, key[0], key[1][:-1] + (d,)))))
                    except KeyError:
                        pass
            return fs
        if self.arrtemplates is not None and end is not None:
            fa = self.facts(st0)
            for lab, key, g in self.arrtemplates(self, [(key, mod[key][3], init[key]) for key in keys if not mod[key][2]], [(key, mod[key][2], init[key]) for key in keys if mod[key][2]]):
                r = g(init)
                if any(q[1] == key for q in ainv):
                    continue
                rf = ranges(st0, key, lambda p: p)
                d = prove.Simp(fa + rf).p(init[key]) - prove.Simp(fa + rf).p(r)
                if DBG: print('INIT', key, lab, str(d)[:600])
                if d.const() == 0 or d.const() is None and prove.check(fa + rf, eq(d, 0), 3000).ok is True:
                    ainv.append((lab, key, g))
        def heads():
            m = dict(hv0)
            for lab, key, g in ainv:
                m[key] = g(m)
            return m
        hv = heads()
        H = closure(hv, None)
        h = lambda p: subst(p, H)
        # candidate invariants over the scalar leaves
        sc = [(key, init[key]) for key in keys if not mod[key][2]]
        cands = []
        if self.templates is not None and end is not None:
            cands = list(self.templates(self, [(self.leafnames.get(key[0], str(key[0])), key[1], mod[key][3], init[key]) for key, _ in sc]))
        idx = [key for key, _ in sc]
        def goal(g, val):
            r = g(val)
            return r if isinstance(r, tuple) else (r, ONE)
        f0 = self.facts(st0)
        inv = []
        S0 = prove.Simp(f0)
        def holds(fs, S, l, r, quick):
            d = S.p(l) - S.p(r)
            if d.const() is not None:
                return d.const() == 0
            if quick:
                return False
            g = eq(d, 0) if r != ONE or not self.isbool(l) else S.p(l)
            ab, arith = prove.abstraction(fs, g)
            if ab and prove.check(fs, g, 3000, opaque=ab).ok is True:
                return True
            if ab and (not arith or not self.isbool(l)):
                return False
            return prove.check(fs, g, 3000).ok is True
        vi = [init[k_] for k_ in idx]
        for lab, g in cands:
            l, r = goal(g, vi)
            if holds(f0, S0, l, r, not self.isbool(l) and not (r.atom() is not None and r.atom().op == 'app' and r.atom().args[0] not in prove.INTERPRETED and prove._hasbr_arg(r))):
                inv.append((lab, g))
        vh = [hv[k_] for k_ in idx]
        base = len(st0.path)
        rounds = 0
        while end is not None and (inv or ainv):
            rounds += 1
            hv = heads()
            H = closure(hv, None)
            vh = [hv[k_] for k_ in idx]
            # equalities leaf == expression orient into a substitution
            sub, sfacts = {}, []
            for lab, g in inv:
                l, r = goal(g, vh)
                sfacts.append(eq(l, r) if r != ONE or not self.isbool(l) else l)
            eqs = []
            for lab, g in inv:
                l, r = goal(g, vh)
                if r != ONE or not self.isbool(l):
                    eqs.append((l, r))
            rw = self.orient(eqs, vh)
            path = [rw(h(x)) for x in end.path[base:]]
            fs = f0 + hfacts + path + [rw(x) for x in sfacts]
            S = prove.Simp(fs)
            ve = [rw(h(post[k_])) for k_ in idx]
            keep = []
            for lab, g in inv:
                l, r = goal(g, ve)
                if holds(fs, S, rw(l), rw(r), False):
                    keep.append((lab, g))
                elif DBG: print('DROP', lab, str(S.p(rw(l)) - S.p(rw(r)))[:1500])
            ends, akeep = {k_: rw(h(post[k_])) for k_ in keys} if ainv else {}, []
            for lab, key, g in ainv:
                rf = ranges(end, key, lambda p: rw(h(p)))
                r = rw(g(ends))
                d = prove.Simp(fs + rf).p(ends[key]) - prove.Simp(fs + rf).p(r)
                if DBG: print('END', key, lab, str(d)[:600])
                if d.const() == 0 or d.const() is None and prove.check(fs + rf, eq(d, 0), 5000).ok is True:
                    akeep.append((lab, key, g))
            if len(keep) == len(inv) and len(akeep) == len(ainv):
                break
            inv, ainv = keep, akeep
        else:
            eqs, sfacts = [], []
            rw = lambda p: p
            hv = heads()
            H = closure(hv, None)
        ifacts = [f for f in hfacts + [rw(x) for x in sfacts] if f.const() != 1]
        self.notes.append('loop invariants: ' + '; '.join([lab for lab, g in inv] + [x[0] for x in ainv]))
        for o in loop_obls:
            self.obls.append(Obligation(o.kind, o.text, [rw(h(f)) for f in o.facts] + ifacts, rw(h(o.goal)), o.line, o.fn))
        def rws(v):
            return self.mapleaves(v, rw)
        def at(stx):
            out = State({}, ())
            for r, v in stx.store.items():
                if r in st0.store or r[0] == 'h':
                    out.store[r] = rws(vsubst(v, H))
            out.path = st0.path + tuple(rw(h(x)) for x in stx.path[base:]) + tuple(ifacts)
            return out
        res = Outs()
        zero = st0.copy()
        zero.assume(ONE - subst(c, closure(init, None)))
        acc = None if self.is_dead(zero) else zero
        if end is not None:
            e = at(end)
            # condition after the body: first the values at the end of the body, then the arbitrary head
            e.assume(ONE - rw(h(subst(c, closure(post, None)))))
            if not self.is_dead(e):
                acc = self.choose(st0, acc, e)
        if outs.brk is not None:
            acc = self.choose(st0, acc, at(outs.brk))
        if outs.ret is not None:
            res.ret = (at(outs.ret[0]), vsubst(outs.ret[1], H) if outs.ret[1] is not None else VOID)
        for ts, ev in thrown:
            self.throws[-1].append((at(ts), ev))
        return Outs(acc, None, None, res.ret)

    def choose(self, st0, a, b):
        """one of two states reached from st0, told apart by a fresh boolean"""
        if a is None:
            return b
        ran = self.ran = bapp('havocran%d' % next(self.symid))
        n = len(st0.path)
        out = self.merge(State(a.store, st0.path + (ONE - ran,)), State(b.store, st0.path + (ran,)))
        out.path = st0.path + tuple(bor(ran, f) for f in a.path[n:]) + tuple(bor(ONE - ran, f) for f in b.path[n:])
        return out

    def mapleaves(self, v, f):
        return self.rebuild(v, lambda path, p: f(p))

    def orient(self, eqs, leaves):
        """rewriting by equalities  leaf == expression  (acyclic, in the given order)"""
        names = set()
        for l in leaves:
            a = l.atom()
            if a is not None and a.op == 'var':
                names.add(a.args[0])
        rules = {}
        def uses(p, nm, seen=()):
            for q in p.fv & names:
                if q == nm or (q in rules and q not in seen and uses(rules[q], nm, seen + (q,))):
                    return True
            return False
        for l, r in eqs:
            a = l.atom()
            if a is None or a.op != 'var' or a.args[0] not in names or a.args[0] in rules or uses(r, a.args[0]):
                continue
            rules[a.args[0]] = r
        full = {}
        def resolve(nm):
            if nm not in full:
                full[nm] = subst(rules[nm], {q: resolve(q) for q in rules[nm].fv & rules.keys()})
            return full[nm]
        for nm in rules:
            resolve(nm)
        return lambda p: subst(p, full) if full and isinstance(p, P) else p
