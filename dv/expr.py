"""Expression evaluation, calls and the assumed contracts of library functions."""
from exec import *
import exec as X

PASS = {'ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ConstantExpr',
        'SubstNonTypeTemplateParmExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr'}

# explicit arguments a library function is specified for; calls with more (options, dimensions) are outside the dialect
MAXARGS = {k: m for m, names in ((0, 'omp_get_thread_num omp_get_num_procs omp_get_max_threads'), (2, 'pow sum mean max min fmax fmin dot inv inv_sympd swap exchange hypot solve zeros ones eye join_rows join_cols join_horiz '
           'join_vert index_max index_min make_pair norm all any get size'), (3, 'sort var stddev fma clamp repmat regspace iota linspace'), (4, 'transform accumulate svd svd_econ princomp'),
           (9, 'make_unique make_optional')) for k in names.split()}

class Interp(Exec):
    # ------------------------------------------------------------ lvalues
    def lv(self, node, st):
        k = node.get('kind')
        if k in PASS:
            return self.lv(node['inner'][0], st)
        if k == 'ImplicitCastExpr':
            ck = node.get('castKind')
            if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'LValueToRValue', 'ConstructorConversion', 'ArrayToPointerDecay', 'BaseToDerived'):
                return self.lv(node['inner'][0], st)
            return None
        if k == 'CXXStaticCastExpr' and qty(node).endswith('&'):
            return self.lv(node['inner'][0], st)
        if k == 'CXXConstructExpr' and len(node.get('inner', [])) == 1 and qty(node).endswith('&'):
            return self.lv(node['inner'][0], st)
        fr = self.frames[-1]
        if k == 'DeclRefExpr':
            rd = node['referencedDecl']
            if rd['id'] in fr.env:
                return fr.env[rd['id']]
            if rd['kind'] in ('VarDecl',):
                g = self.global_var(rd, st)
                return g
            if rd['kind'] == 'BindingDecl':
                return fr.env.get(rd['id'])
            return None
        if k == 'CXXThisExpr':
            return None
        if k == 'MemberExpr':
            base = node['inner'][0]
            nm = node.get('name')
            if nm in ('n_rows', 'n_cols', 'n_elem', 'n_slices'):
                return None
            if node.get('isArrow'):
                p = self.ev(base, st)
                if isinstance(p, Ptr):
                    if p.lv is None:
                        raise Unsupported('deref of null')
                    return p.lv + ('f', nm)
                raise Unsupported('-> on %s' % type(p).__name__)
            b = self.lv(base, st)
            if b is None:
                return None
            return b + ('f', nm)
        if k == 'UnaryOperator':
            if node['opcode'] == '*':
                p = self.ev(node['inner'][0], st)
                if isinstance(p, Ptr):
                    return p.lv
                if isinstance(p, Iter):
                    return p.lv + ('idx', p.pos)
                raise Unsupported('deref')
            if node['opcode'] in ('++', '--') and not node.get('isPostfix'):
                self.ev(node, st)
                return self.lv(node['inner'][0], st)
            return None
        if k == 'ArraySubscriptExpr':
            b = self.lv(node['inner'][0], st)
            i = self.scalar(self.ev(node['inner'][1], st))
            if b is None:
                p = self.ev(node['inner'][0], st)
                if isinstance(p, Ptr):
                    b = p.lv
            if b is None:
                return None
            return b + ('idx', i)
        if k in ('BinaryOperator', 'CompoundAssignOperator') and node['opcode'].endswith('=') and node['opcode'] not in ('==', '!=', '<=', '>='):
            self.ev(node, st)
            return self.lv(node['inner'][0], st)
        if k == 'CXXOperatorCallExpr':
            op = self.opname(node)
            args = node['inner'][1:]
            if op in ('()', '[]'):
                t0 = clean_ty(ty(args[0]))
                b = self.lv(args[0], st)
                if b is None:
                    return None
                bv = self.read(st, b)
                if isinstance(bv, (Mat, Cube)):
                    idx = [self.ev(a, st) for a in args[1:]]
                    if all(isinstance(i, P) for i in idx):
                        if len(idx) == 1:
                            return b + ('el1', idx[0])
                        if len(idx) == 2:
                            return b + ('el', idx[0], idx[1])
                        return b + ('el3', idx[0], idx[1], idx[2])
                    return self.span_lv(b, bv, idx)
                if (isinstance(bv, LSeq) or isinstance(bv, Opq) and self.mapinv is not None) and 'map<' in qty(args[0]):
                    return b + ('map', self.mapkey(self.ev(args[1], st)), qty(node))
                if isinstance(bv, (Seq, LSeq)):
                    return b + ('idx', self.scalar(self.ev(args[1], st)))
                return None
            if op == '*':
                p = self.ev(args[0], st)
                if isinstance(p, Ptr):
                    return p.lv
                if isinstance(p, Iter):
                    return p.lv + ('idx', p.pos)
                return None
            if op == '->':
                return None
            if op in ('=', '+=', '-=', '*=', '/=', '%='):
                self.ev(node, st)
                return self.lv(args[0], st)
            return None
        if k == 'CXXMemberCallExpr':
            me = node['inner'][0]
            if me.get('kind') != 'MemberExpr':
                return None
            nm = me.get('name')
            base = me['inner'][0]
            if nm in ('col', 'row', 'cols', 'rows', 'submat', 'slice', 'diag', 'elem', 'tube', 'at', 'head', 'tail', 'head_cols', 'head_rows', 'tail_cols', 'tail_rows', 'subvec', 'back', 'front', 'unsafe_col', 'value'):
                if me.get('isArrow'):
                    return None
                b = self.lv(base, st)
                if b is None:
                    return None
                bv = self.read(st, b)
                args = [self.ev(a, st) for a in node['inner'][1:] if a.get('kind') != 'CXXDefaultArgExpr']
                if isinstance(bv, (Mat, Cube, Seq, LSeq)) or (nm == 'value' and isinstance(bv, Obj)):
                    return self.view_step(b, bv, nm, args)
            # user methods returning references: evaluate by inlining getters
            return self.call_lv(node, st)
        if k == 'ConditionalOperator':
            c = self.truth(self.ev(node['inner'][0], st), st)
            c = self.known(c, st)
            if c.const() is not None:
                return self.lv(node['inner'][1 if c.const() != 0 else 2], st)
            return None
        return None

    def span_lv(self, b, bv, idx):
        if len(idx) == 1 and isinstance(idx[0], (Mat, Find)) and isinstance(bv, Mat):
            return b + ('elemv', idx[0])
        raise Unsupported('span index')

    def view_step(self, b, bv, nm, args):
        if isinstance(bv, (Seq, LSeq)):
            n = bv.n if isinstance(bv, Seq) else num(len(bv.els))
            if nm == 'at':
                return b + ('idx', self.scalar(args[0]))
            if nm == 'back':
                return b + ('idx', n - 1)
            if nm == 'front':
                return b + ('idx', ZERO)
            raise Unsupported(nm)
        if nm == 'value' and isinstance(bv, Obj):
            return b + ('f', 'val')
        if nm in ('col', 'unsafe_col'):
            return b + ('col', self.scalar(args[0]))
        if nm == 'row':
            return b + ('row', self.scalar(args[0]))
        if nm in ('cols', 'rows'):
            if len(args) == 1:
                u = args[0]
                if isinstance(u, Find):
                    if (nm == 'rows' and bv.iscol) or (nm == 'cols' and bv.isrow):
                        return b + ('elemv', u)
                return b + (nm + 'v', u)
            return b + (nm, args[0], args[1])
        if nm == 'slice':
            return b + ('slice', args[0])
        if nm == 'diag':
            return b + ('diag',)
        if nm == 'elem':
            return b + ('elemv', args[0])
        if nm == 'at':
            if len(args) == 1:
                return b + ('el1', args[0])
            if len(args) == 2:
                return b + ('el', args[0], args[1])
            return b + ('el3',) + tuple(args)
        if nm == 'submat' and len(args) == 4:
            return b + ('sub',) + tuple(args)
        if nm in ('head_cols',):
            return b + ('cols', ZERO, args[0] - 1)
        if nm in ('head_rows',) or (nm == 'head' and bv.iscol):
            return b + ('rows', ZERO, args[0] - 1)
        if nm == 'tail_cols':
            return b + ('cols', bv.nc - args[0], bv.nc - 1)
        if nm == 'tail_rows' or (nm == 'tail' and bv.iscol):
            return b + ('rows', bv.nr - args[0], bv.nr - 1)
        if nm == 'subvec':
            if bv.iscol:
                return b + ('rows', args[0], args[1])
            return b + ('cols', args[0], args[1])
        if nm == 'back':
            return b + ('el1', vlen(bv) - 1)
        if nm == 'front':
            return b + ('el1', ZERO)
        raise Unsupported('view ' + nm)

    def global_var(self, rd, st):
        root = ('g', rd['name'])
        if root in st.store:
            return LV(root)
        tu = self.frames[-1].tu
        d = tu.vars.get(rd['id'])
        if d is None or not d.get('inner'):
            for x in tu.vars.values():
                if x.get('name') == rd['name'] and any(c.get('kind') for c in x.get('inner', [])):
                    d = x
        if d is None or not any(c.get('kind', '').endswith(('Expr', 'Literal', 'Operator')) for c in d.get('inner', [])):
            # defined in another translation unit
            for t in self.prog.tus.values():
                for x in t.vars.values():
                    if x.get('name') == rd['name'] and any(c.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups')) for c in x.get('inner', [])):
                        d, tu = x, t
                        break
        if d is None:
            return None
        init = [c for c in d.get('inner', []) if c.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))]
        if not init:
            return None
        old = self.frames[-1].tu
        self.frames[-1].tu = tu
        try:
            st.store[root] = self.convert(self.ev(init[0], st), clean_ty(ty(d)), st)
        finally:
            self.frames[-1].tu = old
        return LV(root)

    # ------------------------------------------------------------ rvalues
    def truth(self, v, st):
        if isinstance(v, P):
            if self.isbool(v):
                return v
            return ne(v, 0)
        if isinstance(v, Ptr):
            return ONE - v.null
        if isinstance(v, Obj) and v.cls == 'optional':
            return v.f['has']
        raise Unsupported('truth of %s' % type(v).__name__)

    def isbool(self, p):
        """polynomial over brackets known to be 0/1 valued"""
        for m, c in p.t.items():
            for a, e in m:
                if a.op != 'br':
                    return False
        k = p.const()
        if k is not None:
            return k in (0, 1)
        return True

    def ev(self, node, st, discard=False):
        tick()
        k = node.get('kind')
        if k in PASS:
            return self.ev(node['inner'][0], st, discard)
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression ' + str(k))
        l = line_of(node)
        if l:
            self.curline = l
        return m(node, st)

    def e_IntegerLiteral(self, n, st):
        return num(int(n['value']))
    def e_FloatingLiteral(self, n, st):
        v = n['value']
        if float(v) > 1.7e308:
            return DBLMAX
        if abs(float(v) - 3.14159265358979323846) < 1e-15:
            return PI
        if abs(float(v) - 1.57079632679489661923) < 1e-15:
            return PI / 2
        return num(F(repr(float(v))))
    def e_CXXBoolLiteralExpr(self, n, st):
        return ONE if n['value'] else ZERO
    def e_CharacterLiteral(self, n, st):
        return num(int(n['value']))
    def e_StringLiteral(self, n, st):
        return Str(n.get('value', ''))
    def e_PredefinedExpr(self, n, st):
        return Str('')
    def e_CXXNullPtrLiteralExpr(self, n, st):
        return Ptr(None, ONE)
    def e_CXXScalarValueInitExpr(self, n, st):
        return ZERO
    def e_ImplicitValueInitExpr(self, n, st):
        return ZERO
    def e_CXXThisExpr(self, n, st):
        return Ptr(self.frames[-1].this)
    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        return num(8)

    def e_DeclRefExpr(self, n, st):
        rd = n['referencedDecl']
        if rd['kind'] == 'EnumConstantDecl':
            e = self.frames[-1].tu.enums.get(rd['id'])
            if e is None:
                for enum, d in self.frames[-1].tu.enumvals.items():
                    if rd['name'] in d and clean_ty(rd.get('type', {}).get('qualType', '')).split('::')[-1] == enum:
                        return num(d[rd['name']])
                return self.local_enum(rd, n)
            return num(e[2])
        if rd['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            d = self.frames[-1].tu.byid.get(rd['id'])
            cls = d.get('_cls', '') if d else ''
            return Fn([(ONE, cls, rd['name'])])
        lvv = self.lv(n, st)
        if lvv is None:
            nm = rd['name']
            t = clean_ty(rd.get('type', {}).get('qualType', ''))
            if 'fill' in t:
                return Fill(nm)
            if nm == 'pi':
                return PI
            if nm in ('nan', 'NaN', 'inf', 'eps'):
                return lift(mk('app', (nm, ()), 'R'))
            if nm == 'nullopt':
                return Obj('optional', {'has': ZERO, 'val': ZERO})
            if nm.startswith('ompi_mpi'):
                return Opq(nm, 'mpi')
            return Opq(app('global.' + nm, sort='O'), t)
        return self.read(st, lvv)

    def local_enum(self, rd, n):
        # enum declared outside namespace gwm (e.g. MPI tags): extract its declaration on demand
        tname = clean_ty(rd.get('type', {}).get('qualType', '')).split('::')[-1]
        tu = self.frames[-1].tu
        if ('enum', tname) not in tu.tried:
            tu.tried.add(('enum', tname))
            for o in cxx.stream(cxx.dump(tu.path, tname)):
                if o.get('kind') == 'EnumDecl':
                    tu.index(o, None)
        d = tu.enumvals.get(tname, {})
        if rd['name'] in d:
            return num(d[rd['name']])
        raise Unsupported('enum constant ' + rd['name'])

    def e_MemberExpr(self, n, st):
        nm = n.get('name')
        if nm in ('n_rows', 'n_cols', 'n_elem', 'n_slices'):
            b = self.ev(n['inner'][0], st)
            if isinstance(b, Ptr):
                b = self.read(st, b.lv)
            if isinstance(b, Mat):
                return {'n_rows': b.nr, 'n_cols': b.nc, 'n_elem': b.n_elem}[nm]
            if isinstance(b, Cube):
                return {'n_rows': b.nr, 'n_cols': b.nc, 'n_slices': b.ns, 'n_elem': b.nr * b.nc * b.ns}[nm]
            if isinstance(b, X.Find):
                return {'n_rows': vecsum(b.mask), 'n_cols': ONE, 'n_elem': vecsum(b.mask)}[nm]
            raise Unsupported(nm + ' of ' + type(b).__name__)
        lvv = self.lv(n, st)
        if lvv is not None:
            return self.read(st, lvv)
        b = self.ev(n['inner'][0], st)
        if isinstance(b, Obj):
            return self.read_step(st, b, ('f', nm))
        raise Unsupported('member %s' % nm)

    def e_ImplicitCastExpr(self, n, st):
        ck = n.get('castKind')
        v = self.ev(n['inner'][0], st)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.truth(v, st)
        if ck == 'FloatingToIntegral':
            return truncp(self.scalar(v))
        if ck == 'NullToPointer':
            return Ptr(None, ONE)
        if ck == 'ArrayToPointerDecay' and isinstance(v, (Seq, LSeq)):
            l = self.lv(n['inner'][0], st)
            if l is not None:
                return Iter(l, ZERO)
        if ck == 'IntegralCast' and isinstance(v, P):
            c = v.const()
            if c is not None and c < 0 and clean_ty(ty(n)) in X.INTU:
                return num(c + 2 ** 64)
        return v
    def cast(self, n, st):
        ck = n.get('castKind')
        if not n.get('inner'):
            raise Unsupported('cast')
        v = self.ev(n['inner'][0], st)
        if ck == 'FloatingToIntegral':
            return truncp(self.scalar(v))
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.truth(v, st)
        if ck in ('ConstructorConversion',):
            return self.convert(v, clean_ty(ty(n)), st)
        return v
    e_CStyleCastExpr = cast
    e_CXXFunctionalCastExpr = cast
    e_CXXStaticCastExpr = cast
    e_CXXDynamicCastExpr = cast

    def e_CXXDefaultArgExpr(self, n, st):
        raise Unsupported('default argument')
    def e_CXXDefaultInitExpr(self, n, st):
        if n.get('inner'):
            return self.ev(n['inner'][0], st)
        raise Unsupported('default init')

    def e_ConditionalOperator(self, n, st):
        c = self.truth(self.ev(n['inner'][0], st), st)
        c = self.known(c, st)
        k = c.const()
        if k is not None:
            return self.ev(n['inner'][1 if k != 0 else 2], st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(ONE - c)
        a = self.ev(n['inner'][1], s1)
        b = self.ev(n['inner'][2], s2)
        m = self.merge(s1, s2)
        st.store, st.path = m.store, st.path if m.path == st.path else m.path
        return vmerge(c, a, b)

    def e_UnaryOperator(self, n, st):
        op = n['opcode']
        x = n['inner'][0]
        if op in ('++', '--'):
            lvv = self.lv(x, st)
            v = self.read(st, lvv)
            d = 1 if op == '++' else -1
            if isinstance(v, Iter):
                nv = Iter(v.lv, v.pos + d)
            else:
                nv = self.scalar(v) + d
            self.write(st, lvv, nv)
            return v if n.get('isPostfix') else nv
        if op == '&':
            y = x
            while y.get('kind') in PASS:
                y = y['inner'][0]
            if y.get('kind') == 'DeclRefExpr' and y['referencedDecl']['kind'] in ('CXXMethodDecl', 'FunctionDecl'):
                return self.e_DeclRefExpr(y, st)
            lvv = self.lv(x, st)
            if lvv is None:
                raise Unsupported('address of temporary')
            return Ptr(lvv)
        if op == '*':
            lvv = self.lv(n, st)
            return self.read(st, lvv)
        v = self.ev(x, st)
        if op == '!':
            return ONE - self.truth(v, st)
        v = self.scalar(v)
        if op == '-':
            return -v
        if op == '+':
            return v
        raise Unsupported('unary ' + op)

    def e_BinaryOperator(self, n, st):
        op = n['opcode']
        a, b = n['inner'][:2]
        if op == '=':
            v = self.ev(b, st)
            lvv = self.lv(a, st)
            if lvv is None:
                raise Unsupported('assignment target')
            self.write(st, lvv, v)
            return v
        if op in ('&&', '||'):
            x = self.truth(self.ev(a, st), st)
            k = x.const()
            if k is not None:
                if op == '&&':
                    return self.truth(self.ev(b, st), st) if k != 0 else ZERO
                return ONE if k != 0 else self.truth(self.ev(b, st), st)
            # the right operand is evaluated only on one side: keep its facts local
            s1 = st.copy()
            s1.assume(x if op == '&&' else ONE - x)
            y = self.truth(self.ev(b, s1), s1)
            s2 = st.copy()
            s2.assume(ONE - x if op == '&&' else x)
            m = self.merge(s1, s2)
            st.store = m.store
            return x * y if op == '&&' else bor(x, y)
        if op == ',':
            self.ev(a, st)
            return self.ev(b, st)
        if op in ('.*', '->*'):
            p = self.ev(a, st)
            f = self.ev(b, st)
            return ('memptr', p, f)
        x, y = self.ev(a, st), self.ev(b, st)
        if isinstance(x, (Ptr, Iter)) or isinstance(y, (Ptr, Iter)):
            return self.ptrop(op, x, y)
        return self.arith(op, self.scalar(x), self.scalar(y), n)

    def ptrop(self, op, x, y):
        if isinstance(x, Iter) and isinstance(y, Iter):
            if op == '==':
                return eq(x.pos, y.pos)
            if op == '!=':
                return ne(x.pos, y.pos)
            if op == '-':
                return x.pos - y.pos
            if op == '<':
                return lt(x.pos, y.pos)
        if isinstance(x, Iter) and isinstance(y, P):
            return Iter(x.lv, x.pos + y if op == '+' else x.pos - y)
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            for z in (x, y):
                if z.lv is not None and len(z.lv.root) == 2 and str(z.lv.root[1]).startswith('phi') and x.lv is not None and y.lv is not None:
                    raise Unsupported('comparison of a merged pointer')
            e = None
            if y.lv is None and y.null.const() == 1:
                e = x.null
            elif x.lv is None and x.null.const() == 1:
                e = y.null
            elif x.lv is not None and y.lv is not None:
                e = ONE if (x.lv.root == y.lv.root and str(x.lv.steps) == str(y.lv.steps)) else ZERO
            if e is not None:
                return e if op == '==' else ONE - e
        raise Unsupported('pointer operation ' + op)

    def arith(self, op, x, y, n=None):
        if op == '+':
            return x + y
        if op == '-':
            return x - y
        if op == '*':
            return x * y
        if op == '/':
            t = clean_ty(ty(n)) if n is not None else 'double'
            if t in X.INTU or t in X.INTS:
                return idiv(x, y)
            return x / y
        if op == '%':
            return imod(x, y)
        if op == '<':
            return lt(x, y)
        if op == '>':
            return lt(y, x)
        if op == '<=':
            return le(x, y)
        if op == '>=':
            return le(y, x)
        if op == '==':
            return eq(x, y)
        if op == '!=':
            return ne(x, y)
        if op in ('&', '|', '<<'):
            cx_, cy = x.const(), y.const()
            if cx_ is not None and cy is not None:
                return num({'&': int(cx_) & int(cy), '|': int(cx_) | int(cy), '<<': int(cx_) << int(cy)}[op])
            return app('bit' + {'&': 'and', '|': 'or', '<<': 'shl'}[op], x, y, sort='I')
        raise Unsupported('binary ' + op)

    def e_CompoundAssignOperator(self, n, st):
        op = n['opcode'][:-1]
        a, b = n['inner'][:2]
        y = self.ev(b, st)
        lvv = self.lv(a, st)
        if lvv is None:
            raise Unsupported('compound assignment target')
        x = self.read(st, lvv)
        if isinstance(x, Iter):
            v = self.ptrop(op, x, y)
        else:
            v = self.arith(op, self.scalar(x), self.scalar(y), n)
        self.write(st, lvv, v)
        return v

    def e_ArraySubscriptExpr(self, n, st):
        lvv = self.lv(n, st)
        if lvv is not None:
            return self.read(st, lvv)
        b = self.ev(n['inner'][0], st)
        i = self.scalar(self.ev(n['inner'][1], st))
        return self.read_step(st, b, ('idx', i))

    def e_InitListExpr(self, n, st):
        t = clean_ty(ty(n))
        els = [self.ev(x, st) for x in n.get('inner', [])]
        r = self.recname(self.frames[-1].tu, t)
        if r is not None:
            fs = [f for f in self.frames[-1].tu.fields.get(r, {})]
            return Obj(t, dict(zip(fs, els)))
        if t in ('double', 'int') or t in X.INTU:
            return els[0] if els else ZERO
        return LSeq(els)
    def e_CXXStdInitializerListExpr(self, n, st):
        x = n['inner'][0]
        while x.get('kind') in PASS or x.get('kind') == 'ImplicitCastExpr':
            x = x['inner'][0]
        return LSeq([self.ev(y, st) for y in x.get('inner', [])])

    def e_LambdaExpr(self, n, st):
        return Closure(n, dict(self.frames[-1].env))

    def e_CXXThrowExpr(self, n, st):
        self.throw(st, n)
        st.assume(ZERO)
        return VOID

    def e_CXXNewExpr(self, n, st):
        t = clean_ty(ty(n))
        c = t[:-1].strip()
        inner = n.get('inner', [])
        root = ('h', 'new%d' % next(self.symid), c)
        if n.get('isArray'):
            st.store[root] = Opq(app('buf%d' % next(self.symid), sort='O'), c)
            return Ptr(LV(root))
        v = self.ev(inner[-1], st) if inner else VOID
        st.store[root] = v
        st.store[('own', root)] = ONE
        return Ptr(LV(root))

    def e_CXXDeleteExpr(self, n, st):
        p = self.ev(n['inner'][0], st)
        self.on_delete(p, st)
        return VOID

    def on_delete(self, p, st):
        pass

    # ------------------------------------------------------------ construction
    def e_CXXConstructExpr(self, n, st):
        t = clean_ty(ty(n))
        inner = n.get('inner', [])
        nd = [x for x in inner if x.get('kind') != 'CXXDefaultArgExpr']
        mkd = mat_kind(t)
        if mkd:
            return self.construct_mat(mkd, t, nd, st)
        if t.startswith('optional<'):
            if not nd:
                return Obj('optional', {'has': ZERO, 'val': self.default_init(tmpl_args(t)[0], None)})
            v = self.ev(nd[0], st)
            if isinstance(v, Obj) and v.cls == 'optional':
                return v
            return Obj('optional', {'has': ONE, 'val': v})
        if t.startswith('pair<'):
            if len(nd) == 1:
                return self.ev(nd[0], st)
            if not nd:
                return Obj('pair', {'first': ZERO, 'second': ZERO})
            return Obj('pair', {'first': self.ev(nd[0], st), 'second': self.ev(nd[1], st)})
        if t.startswith('vector<'):
            if not nd:
                return LSeq([])
            v = self.ev(nd[0], st)
            if isinstance(v, (Seq, LSeq)) and len(nd) == 1:
                return v
            if isinstance(v, P):
                el = self.ev(nd[1], st) if len(nd) > 1 else self.default_elem(tmpl_args(t)[0])
                return Seq(v, el)
            if isinstance(v, Iter):
                w = self.ev(nd[1], st)
                base = self.read(st, v.lv)
                if isinstance(base, LSeq):
                    base = to_seq(base)
                return Seq(w.pos - v.pos, vsubst(base.el, {'@k': var('@k') + v.pos}))
            raise Unsupported('vector construction')
        if t.startswith('initializer_list') or t.startswith('variant<') or t in ('string', 'basic_string<char>'):
            if len(nd) >= 1:
                return self.ev(nd[0], st)
            return Str('')
        if t.startswith('unique_ptr<') or t.startswith('shared_ptr<'):
            if not nd:
                return Ptr(None, ONE)
            return self.ev(nd[0], st)
        if t in ('exception', 'runtime_error', 'logic_error', 'invalid_argument', 'out_of_range', 'domain_error'):
            return Obj('exception', {})
        if t.startswith('function<'):
            return self.ev(nd[0], st)
        if t == 'double' or t in X.INTU or t in X.INTS:
            return self.ev(nd[0], st) if nd else ZERO
        cls = self.recname(self.frames[-1].tu, t)
        if cls is not None:
            return self.construct_class(cls, n, nd, st)
        if len(nd) == 1:
            return self.ev(nd[0], st)     # conversions between expression templates
        if not nd:
            return Opq(app('obj%d' % next(self.symid), sort='O'), t)
        raise Unsupported('construction of ' + t)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def default_elem(self, t):
        mkd = mat_kind(t)
        if mkd == 'mat':
            return Mat(ZERO, ZERO, ZERO)
        if mkd == 'col':
            return Mat(ZERO, ONE, ZERO)
        if mkd == 'row':
            return Mat(ONE, ZERO, ZERO)
        if t.endswith('*'):
            return Ptr(None, ONE)
        return ZERO

    def construct_mat(self, mkd, t, nd, st):
        if not nd:
            return self.default_init(t, None)
        vs = [self.ev(x, st) for x in nd]
        fill = None
        if isinstance(vs[-1], Fill):
            fill = vs.pop()
        fv = ZERO
        if fill is not None:
            if fill.kind == 'ones':
                fv = ONE
            elif fill.kind in ('zeros', 'none'):
                fv = ZERO if fill.kind == 'zeros' else lift(mk('app', ('uninit%d' % next(self.symid), (VR, VC)), 'R'))
            elif fill.kind == 'eye':
                fv = eq(VR, VC)
            else:
                raise Unsupported('fill ' + fill.kind)
        if len(vs) == 1 and not isinstance(vs[0], P) or (len(vs) == 1 and isinstance(vs[0], P) and mkd == 'mat' and fill is None):
            v = vs[0]
            if isinstance(v, Obj) and v.cls == 'SizeMat':
                return Mat(v.f['r'], v.f['c'], fv)
            if isinstance(v, Opq) and mkd != 'cube':
                raise Unsupported('matrix from opaque value')
            if mkd == 'cube':
                return v
            if isinstance(v, Mat) and fill is not None:
                raise Unsupported('size ctor')
            return self.convert(v, t, st)
        if isinstance(vs[0], (Ptr, Opq)):
            return self.mat_from_mem(mkd, vs, st)
        vs = [self.scalar(v) for v in vs]
        if mkd == 'col':
            if len(vs) == 2:
                return Mat(vs[0], vs[1], fv)
            return Mat(vs[0], ONE, fv)
        if mkd == 'row':
            return Mat(ONE, vs[0], fv)
        if mkd == 'mat':
            return Mat(vs[0], vs[1], fv)
        return Cube(vs[0], vs[1], vs[2], fv)

    def mat_from_mem(self, mkd, vs, st):
        raise Unsupported('matrix from memory')

    def construct_class(self, cls, n, nd, st):
        h = self.hooks.get((cls, 'ctor'))
        if h is not None and len(nd) == 1 and (cls, 'copy') in self.hooks and clean_ty(ty(nd[0])).split('::')[-1] == cls.split('::')[-1]:
            h = None
        if h is not None:
            self.used_contracts.add(cls + '::' + cls)
            return h(self, st, None, [Arg(self, x, st) for x in nd], n)
        if len(nd) == 1 and clean_ty(ty(nd[0])).split('::')[-1] == cls.split('::')[-1] and not clean_ty(qty(nd[0])).endswith('*'):
            # copy / move
            h = self.hooks.get((cls, 'copy'))
            if h is not None:
                return h(self, st, None, [Arg(self, nd[0], st)], n)
            user = self.find_ctor(cls, n)
            if user is None:
                return self.ev(nd[0], st)
        fn = self.find_ctor(cls, n)
        obj = Obj(cls, {}, None)
        root = ('h', 'tmp%d' % next(self.symid), cls)
        st.store[root] = obj
        if fn is None:
            # defaulted constructor: default member initialisers
            self.default_members(cls, LV(root), st)
            return st.store.pop(root)
        self.run_ctor(fn[0], fn[1], cls, LV(root), nd, st)
        v = st.store.pop(root)
        return v

    def default_members(self, cls, lv, st):
        tu = self.frames[-1].tu
        for b in tu.bases.get(cls, []):
            rb = self.recname(tu, clean_ty(b))
            if rb:
                self.default_members(rb, lv, st)
        for name, f in tu.fields.get(cls, {}).items():
            self.init_member(cls, name, f, lv, st)

    def init_member(self, cls, name, f, lv, st):
        init = [c for c in f.get('inner', []) if c.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))]
        t = clean_ty(ty(f))
        if init:
            # in-class initialiser evaluated with this = lv
            fr = Frame({'name': cls, 'type': {}}, self.frames[-1].tu, lv, next(self.fid))
            self.frames.append(fr)
            try:
                v = self.convert(self.ev(init[0], st), t, st)
            finally:
                self.frames.pop()
        else:
            rec = self.recname(self.frames[-1].tu, t)
            if rec is not None and ('%s' % rec, 'ctor0') in self.hooks:
                v = self.hooks[(rec, 'ctor0')](self, st)
            elif rec is not None:
                v = Obj(rec, {}, 'unset%d' % next(self.symid))
            else:
                v = self.default_init(t, None)
        self.write(st, lv + ('f', name), v)

    def find_ctor(self, cls, n):
        tu = self.frames[-1].tu
        short = cls.split('::')[-1]
        want = n.get('ctorType', {}).get('qualType')
        def search(t):
            for m in t.methods.get((cls, short), []):
                if want is None or self.sig(m['type']['qualType']) == self.sig(want):
                    return m, t
            return None
        r = search(tu)
        if r is None:
            t = self.prog.find_tu_for(short, short)
            if t is not None:
                r = search(t)
        return r

    def sig(self, s):
        s = re.sub(r'\s*noexcept(\([^)]*\))?', '', s)
        return s.replace('gwm::', '').replace('arma::', '').replace('std::', '').replace(' ', '')

    def run_ctor(self, fn, tu, cls, lv, argnodes, st, args=None):
        self.called.add('%s::%s' % (cls, fn.get('name')))
        a = args if args is not None else [Arg(self, x, st) for x in argnodes]
        fr = Frame(fn, tu, lv, next(self.fid))
        self.bind_params(fr, fn, a, st)
        self.frames.append(fr)
        try:
            inits = [c for c in fn.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
            done = set()
            # base and member initialisers
            delegated = False
            for ci in inits:
                if 'anyInit' in ci:
                    nm = ci['anyInit']['name']
                    done.add(nm)
                elif 'delegatingInit' in ci:
                    delegated = True
            if not delegated:
                for name, f in tu.fields.get(cls, {}).items():
                    if name not in done:
                        self.init_member(cls, name, f, lv, st)
            for ci in inits:
                x = ci.get('inner', [None])[0]
                if 'anyInit' in ci:
                    nm = ci['anyInit']['name']
                    f = tu.fields.get(cls, {}).get(nm)
                    if x is None or x.get('kind') == 'CXXDefaultInitExpr' and not x.get('inner'):
                        if f is not None:
                            self.init_member(cls, nm, f, lv, st)
                        continue
                    v = self.ev(x, st)
                    if f is not None:
                        v = self.convert(v, clean_ty(ty(f)), st)
                    self.write(st, lv + ('f', nm), v)
                elif 'baseInit' in ci:
                    b = self.recname(tu, clean_ty(ci['baseInit'].get('qualType', '')))
                    if b is None or x is None:
                        continue
                    y = x
                    while y.get('kind') in PASS:
                        y = y['inner'][0]
                    sub = self.find_ctor(b, y)
                    nd = [q for q in y.get('inner', []) if q.get('kind') != 'CXXDefaultArgExpr']
                    if sub is None:
                        if len(nd) == 1:
                            src = self.ev(nd[0], st)
                            if isinstance(src, Obj):
                                for nm in self.all_fields(tu, b):
                                    self.write(st, lv + ('f', nm), self.read_step(st, src, ('f', nm)))
                                continue
                        self.default_members(b, lv, st)
                    else:
                        self.run_ctor(sub[0], sub[1], b, lv, nd, st)
                elif 'delegatingInit' in ci:
                    y = x
                    while y.get('kind') in PASS:
                        y = y['inner'][0]
                    sub = self.find_ctor(cls, y)
                    nd = [q for q in y.get('inner', []) if q.get('kind') != 'CXXDefaultArgExpr']
                    self.run_ctor(sub[0], sub[1], cls, lv, nd, st)
            body = body_of(fn)
            if body is not None:
                o = self.stmt(body, st)
                m = self.merge(o.normal, o.ret[0] if o.ret else None)
                if m is not None:
                    st.store, st.path = m.store, m.path
                else:
                    st.assume(ZERO)
        finally:
            self.frames.pop()

    def all_fields(self, tu, cls):
        out = []
        for c in self.mro(tu, cls):
            out += list(self.knowing(tu, c).fields.get(c, {}))
        return out

    # ------------------------------------------------------------ calls
    def bind_params(self, fr, fn, args, st):
        ps = params_of(fn)
        for i, p in enumerate(ps):
            t = qty(p)
            a = args[i] if i < len(args) else None
            if a is None or a.default:
                init = [c for c in p.get('inner', []) if c.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))]
                if not init:
                    raise Unsupported('missing argument %s' % p.get('name'))
                self.frames.append(fr)
                try:
                    v = self.ev(init[0], st)
                finally:
                    self.frames.pop()
                a = VArg(v)
            if t.rstrip().endswith('&'):
                l = None
                try:
                    l = a.lv()
                except Unsupported:
                    l = None
                if l is not None:
                    fr.env[p['id']] = l
                    continue
            root = ('l', p['id'], fr.fid)
            self.leafnames[root] = p.get('name')
            fr.env[p['id']] = LV(root)
            st.store[root] = self.convert(a.val(), clean_ty(ty(p)), st)

    def inline(self, fn, tu, this, args, st, cls=''):
        nm = '%s::%s' % (cls or fn.get('_cls', ''), fn.get('name'))
        self.inlined.add(nm)
        if len(self.frames) > 25:
            raise Unsupported('call depth')
        fr = Frame(fn, tu, this, next(self.fid))
        self.bind_params(fr, fn, args, st)
        self.frames.append(fr)
        saveline = self.curline
        try:
            o = self.stmt(body_of(fn), st)
        finally:
            self.frames.pop()
        self.curline = saveline
        ret = o.ret
        if o.normal is not None:
            ret = self.merge_ret(ret, (o.normal, VOID))
        if ret is None:
            st.assume(ZERO)
            return VOID
        st.store, st.path = ret[0].store, ret[0].path
        return ret[1]

    def opname(self, n):
        f = n['inner'][0]
        while f.get('kind') in PASS or f.get('kind') == 'ImplicitCastExpr':
            f = f['inner'][0]
        nm = f.get('referencedDecl', {}).get('name', '')
        return nm[len('operator'):] if nm.startswith('operator') else nm

    def fn_decl(self, rd):
        """definition of a referenced project function -> (node, tu, cls) or None"""
        tu = self.frames[-1].tu
        d = tu.byid.get(rd['id'])
        name = rd['name']
        if d is not None:
            cls = d.get('_cls', '')
            if body_of(d) is not None:
                return d, tu, cls
            return self.method_def(cls, name, rd.get('type', {}).get('qualType'), tu)
        return None

    def method_def(self, cls, name, sig, tu):
        def search(t):
            l = t.methods.get((cls, name), [])
            if sig is not None:
                for m in l:
                    if self.sig(m['type']['qualType']) == self.sig(sig):
                        return m, t, cls
            if len(l) == 1:
                return l[0], t, cls
            return None
        r = search(tu)
        if r is None:
            for t in self.prog.tus.values():
                r = search(t)
                if r is not None:
                    break
        if r is None and cls:
            t = self.prog.find_tu_for(cls.split('::')[-1], name)
            if t is not None:
                r = search(t)
        return r

    def e_CallExpr(self, n, st):
        f = n['inner'][0]
        args = n['inner'][1:]
        g = f
        while g.get('kind') in PASS or g.get('kind') == 'ImplicitCastExpr':
            g = g['inner'][0]
        if g.get('kind') == 'DeclRefExpr' and g['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            rd = g['referencedDecl']
            nm = rd['name']
            tu = self.frames[-1].tu
            d = tu.byid.get(rd['id'])
            cls = d.get('_cls', '') if d is not None else None
            a = [Arg(self, x, st) for x in args]
            if cls is not None:
                h = self.hooks.get((cls, nm))
                if h is not None:
                    self.used_contracts.add('%s::%s' % (cls, nm))
                    return h(self, st, None, a, n)
                r = self.fn_decl(rd)
                if r is not None:
                    return self.inline(r[0], r[1], None, a, st, r[2])
            h = self.hooks.get(('', nm))
            if h is not None:
                return h(self, st, None, a, n)
            b = getattr(self, 'b_' + nm, None)
            if b is not None:
                if len([x for x in a if not x.default]) > MAXARGS.get(nm, 1):
                    raise Unsupported('%s with %d arguments' % (nm, len(a)))
                return b(n, a, st)
            # helper outside namespace gwm
            tu.extra(nm)
            l = tu.methods.get(('', nm), [])
            cand = [m for m in l if self.sig(m['type']['qualType']) == self.sig(rd.get('type', {}).get('qualType', ''))] or (l if len(l) == 1 else [])
            if cand:
                return self.inline(cand[0], tu, None, a, st)
            raise Unsupported('call of %s' % nm)
        fv = self.ev(f, st)
        return self.call_value(fv, [Arg(self, x, st) for x in args], st, n)

    def call_value(self, fv, args, st, n):
        if isinstance(fv, Closure):
            return self.call_closure(fv, args, st)
        if isinstance(fv, Fn):
            return self.call_fn(fv, None, args, st, n)
        raise Unsupported('indirect call of %s' % type(fv).__name__)

    def call_fn(self, fv, this, args, st, n):
        if len(fv.alts) == 1:
            c, cls, nm = fv.alts[0]
            h = self.hooks.get((cls, nm)) or self.hooks.get(('fnptr', nm))
            if h is not None:
                self.used_contracts.add('%s::%s' % (cls, nm))
                return h(self, st, this, args, n)
            if cls == '?':
                raise Unsupported('unknown function pointer ' + nm)
            r = self.method_def(cls, nm, None, self.frames[-1].tu)
            if r is None:
                raise Unsupported('no definition for %s::%s' % (cls, nm))
            return self.inline(r[0], r[1], this, args, st, cls)
        # split
        acc = None
        base = st.copy()
        for c, cls, nm in fv.alts:
            s = base.copy()
            s.assume(c)
            v = self.call_fn(Fn([(ONE, cls, nm)]), this, args, s, n)
            acc = (s, v) if acc is None else self.merge_ret(acc, (s, v))
        st.store, st.path = acc[0].store, acc[0].path
        return acc[1]

    def call_closure(self, fv, args, st):
        n = fv.node
        rec = next(c for c in n['inner'] if c.get('kind') == 'CXXRecordDecl')
        op = None
        for c in rec.get('inner', []):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                op = c
        body = [c for c in n['inner'] if c.get('kind') == 'CompoundStmt'][-1]
        cur = self.frames[-1]
        fr = Frame({'kind': 'LambdaExpr', 'name': 'lambda', 'type': {}}, cur.tu, cur.this, next(self.fid))
        fr.env = dict(fv.env)
        ps = params_of(op)
        self.bind_params(fr, op, args, st)
        self.frames.append(fr)
        try:
            o = self.stmt(body, st)
        finally:
            self.frames.pop()
        ret = o.ret
        if o.normal is not None:
            ret = self.merge_ret(ret, (o.normal, VOID))
        if ret is None:
            st.assume(ZERO)
            return VOID
        st.store, st.path = ret[0].store, ret[0].path
        return ret[1]

    def call_lv(self, node, st):
        return None

    def e_CXXMemberCallExpr(self, n, st):
        me = n['inner'][0]
        while me.get('kind') == 'ParenExpr':
            me = me['inner'][0]
        args = n['inner'][1:]
        if me.get('kind') == 'BinaryOperator' and me['opcode'] in ('->*', '.*'):
            p = self.ev(me['inner'][0], st)
            f = self.ev(me['inner'][1], st)
            this = p.lv if isinstance(p, Ptr) else self.lv(me['inner'][0], st)
            return self.call_fn(f, this, [Arg(self, x, st) for x in args], st, n)
        nm = me.get('name')
        base = me['inner'][0]
        a = [Arg(self, x, st) for x in args if x.get('kind') != 'CXXDefaultArgExpr']
        afull = [Arg(self, x, st) for x in args]
        # object
        if me.get('isArrow'):
            p = self.ev(base, st)
            if isinstance(p, Ptr):
                olv = p.lv
                if olv is None:
                    raise Unsupported('call through null pointer')
                ov = None
            else:
                olv, ov = None, p
        else:
            try:
                olv = self.lv(base, st)
            except Unsupported:
                olv = None
            ov = None
            if olv is None:
                ov = self.ev(base, st)
        if ov is None:
            ov = self.read(st, olv)
        return self.call_method(olv, ov, me, nm, a, afull, st, n)

    def call_method(self, olv, ov, me, nm, a, afull, st, n):
        if isinstance(ov, (Mat, Cube)):
            return self.mat_method(olv, ov, nm, a, st, n)
        if isinstance(ov, Each):
            return self.each_method(ov, nm, a, st)
        if isinstance(ov, (Seq, LSeq)):
            return self.seq_method(olv, ov, nm, a, st)
        if isinstance(ov, P):
            if nm in ('operator bool',):
                return self.truth(ov, st)
            ov = Mat(ONE, ONE, ov)
            return self.mat_method(olv, ov, nm, a, st, n)
        if isinstance(ov, Ptr):
            if nm in ('get', 'release'):
                return ov
            if nm == 'operator bool':
                return ONE - ov.null
            if nm == 'reset':
                self.write(st, olv, a[0].val() if a else Ptr(None, ONE))
                return VOID
            raise Unsupported('pointer method ' + nm)
        if isinstance(ov, Obj):
            if ov.cls == 'optional':
                if nm == 'value_or':
                    h = self.known(ov.f['has'], st).const()
                    if h is not None:
                        return ov.f['val'] if h != 0 else a[0].val()
                    return vmerge(ov.f['has'], ov.f['val'], a[0].val())
                if nm == 'has_value' or nm == 'operator bool':
                    return ov.f['has']
                if nm == 'value':
                    self.req(st)(ov.f['has'], 'optional has a value')
                    return ov.f['val']
            if ov.cls == 'exception':
                return Str('')
            return self.user_method(olv, ov, me, nm, afull, st, n)
        if isinstance(ov, Opq):
            h = self.hooks.get((ov.ty, nm)) or self.hooks.get(('opq', nm))
            if h is not None:
                return h(self, st, olv, a, n)
        if isinstance(ov, Find):
            if nm == 'is_empty':
                return eq(vecsum(ov.mask), 0)
        raise Unsupported('method %s on %s' % (nm, type(ov).__name__ + (':' + ov.ty if isinstance(ov, Opq) else '')))

    def user_method(self, olv, ov, me, nm, a, st, n):
        tu = self.frames[-1].tu
        d = tu.byid.get(me.get('referencedMemberDecl'))
        dcls = d.get('_cls') if d else None
        sig = d['type']['qualType'] if d else None
        if olv is None:
            olv = self.temp(ov, st)
        # hooks by dynamic class order
        for c in self.mro(tu, ov.cls):
            h = self.hooks.get((c, nm))
            if h is not None:
                self.used_contracts.add('%s::%s' % (c, nm))
                return h(self, st, olv, a, n)
        h = self.hooks.get((dcls, nm))
        if h is not None:
            self.used_contracts.add('%s::%s' % (dcls, nm))
            return h(self, st, olv, a, n)
        # explicitly qualified calls (Base::f()) are rendered with the base as static type: use the declared class
        order = self.mro(tu, ov.cls)
        if d is not None and dcls in order and not self.is_virtual(tu, dcls, nm, d):
            order = order[order.index(dcls):]
        if self.qualified(me) and dcls in order:
            order = order[order.index(dcls):]
        for c in order:
            r = self.method_def(c, nm, sig, tu)
            if r is not None:
                return self.inline(r[0], r[1], olv, a, st, c)
        raise Unsupported('method %s::%s has no definition' % (ov.cls, nm))

    def is_virtual(self, tu, cls, nm, d):
        if d.get('virtual') or any(x.get('kind') in ('OverrideAttr', 'FinalAttr') for x in d.get('inner', [])):
            return True
        # overrides a virtual function of a base class without saying so
        for b in self.mro(tu, cls)[1:]:
            for t in [tu] + list(self.prog.tus.values()):
                for o in t.decls_of(b, nm):
                    if o.get('virtual'):
                        return True
        return False

    def qualified(self, me):
        # clang's JSON does not mark qualification; compare source token length between name start and member name
        rng = me.get('range', {})
        b = rng.get('begin', {})
        e = rng.get('end', {})
        if me.get('hasQualifier'):
            return True
        base = me.get('inner', [{}])[0]
        while base.get('kind') == 'ImplicitCastExpr':
            base = base['inner'][0]
        if base.get('kind') == 'CXXThisExpr' and base.get('implicit'):
            return 'offset' in b and 'offset' in e and b['offset'] != e['offset']
        return False

    def temp(self, v, st):
        root = ('l', 'tmp%d' % next(self.symid), 0)
        st.store[root] = v
        return LV(root)

    # ------------------------------------------------------------ operators
    def e_CXXOperatorCallExpr(self, n, st):
        op = self.opname(n)
        args = n['inner'][1:]
        f = n['inner'][0]
        g = f
        while g.get('kind') in PASS or g.get('kind') == 'ImplicitCastExpr':
            g = g['inner'][0]
        if op == '->':
            v = self.ev(args[0], st)
            if isinstance(v, Ptr):
                return v
            if isinstance(v, Iter):
                return Ptr(v.lv + ('idx', v.pos))
            if isinstance(v, Obj) and v.cls == 'optional':
                self.req(st)(v.f['has'], 'optional has a value')
                l = self.lv(args[0], st)
                return Ptr(l + ('f', 'val') if l is not None else self.temp(v.f['val'], st))
            raise Unsupported('operator-> on %s' % type(v).__name__)
        if op in ('()', '[]'):
            lvv = self.lv(n, st)
            if lvv is not None:
                return self.read(st, lvv)
            v = self.ev(args[0], st)
            if isinstance(v, (Closure, Fn)):
                return self.call_value(v, [Arg(self, x, st) for x in args[1:]], st, n)
            idx = [self.ev(a, st) for a in args[1:]]
            if isinstance(v, (Mat, Cube)):
                if len(idx) == 1 and isinstance(idx[0], (Mat, Find)):
                    return self.read_step(st, v, ('elemv', idx[0]))
                if len(idx) == 1:
                    return self.read_step(st, v, ('el1', self.scalar(idx[0])))
                if len(idx) == 2:
                    return self.read_step(st, v, ('el', idx[0], idx[1]))
                return self.read_step(st, v, ('el3',) + tuple(idx))
            if isinstance(v, (Seq, LSeq)):
                return self.read_step(st, v, ('idx', idx[0]))
            if isinstance(v, P):
                return v
            raise Unsupported('call operator on %s' % type(v).__name__)
        if op in ('=', '+=', '-=', '*=', '/=', '%='):
            return self.assign(op, args[0], args[1], st, n)
        if op in ('++', '--'):
            lvv = self.lv(args[0], st)
            v = self.read(st, lvv)
            d = 1 if op == '++' else -1
            nv = Iter(v.lv, v.pos + d) if isinstance(v, Iter) else v + d
            self.write(st, lvv, nv)
            return nv if len(args) == 1 else v
        if op == '*' and len(args) == 1:
            v = self.ev(args[0], st)
            if isinstance(v, Ptr):
                return self.read(st, v.lv)
            if isinstance(v, Iter):
                return self.read(st, v.lv + ('idx', v.pos))
            if isinstance(v, Obj) and v.cls == 'optional':
                self.req(st)(v.f['has'], 'optional has a value')
                return v.f['val']
        if op == '<<':
            for x in args:
                pass
            return Opq('stream', 'stream')
        vs = [self.ev(x, st) for x in args]
        # project-defined operators (e.g. ParallelType bit operators)
        if g.get('kind') == 'DeclRefExpr':
            r = self.fn_decl(g['referencedDecl'])
            if r is not None:
                return self.inline(r[0], r[1], None, [VArg(v) for v in vs], st, r[2])
        if len(vs) == 1:
            if op == '-':
                return emap(lambda x: -x, vs[0]) if isinstance(vs[0], Mat) else -vs[0]
            if op == '+':
                return vs[0]
            raise Unsupported('unary operator' + op)
        a, b = vs
        if isinstance(a, (Ptr, Iter)) or isinstance(b, (Ptr, Iter)):
            return self.ptrop(op, a, b)
        if isinstance(a, (Str, Opq)) or isinstance(b, (Str, Opq)):
            return self.opq_op(op, a, b)
        return self.mat_op(op, a, b, st)

    def opq_op(self, op, a, b):
        if op in ('==', '!=') and isinstance(a, Opq) and isinstance(b, Opq) and isinstance(a.t, P) and isinstance(b.t, P):
            e = eq(a.t, b.t)
            return e if op == '==' else ONE - e
        if op == '+':
            return Str('?')
        raise Unsupported('operator %s on opaque' % op)

    def mat_op(self, op, a, b, st):
        req = self.req(st)
        if isinstance(a, Each) or isinstance(b, Each):
            return self.each_op(op, a, b, st)
        if isinstance(a, Cube) or isinstance(b, Cube):
            raise Unsupported('cube operator')
        fs = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '%': lambda x, y: x * y, '/': lambda x, y: x / y,
              '<': lt, '>': lambda x, y: lt(y, x), '<=': le, '>=': lambda x, y: le(y, x), '==': eq, '!=': ne,
              '&&': lambda x, y: ne(x, 0) * ne(y, 0), '||': lambda x, y: bor(ne(x, 0), ne(y, 0))}
        if op == '*':
            return matmul(a, b, req)
        if op in fs:
            return ebin(fs[op], a, b, req, 'operator' + op)
        raise Unsupported('operator' + op)

    def each_op(self, op, a, b, st):
        fs = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '%': lambda x, y: x * y, '/': lambda x, y: x / y}
        f = fs[op]
        req = self.req(st)
        if isinstance(a, Each):
            e, v, swap = a, b, False
        else:
            e, v, swap = b, a, True
        m = e.m
        if e.axis == 'col':
            req(eq(v.nr, m.nr) * eq(v.nc, 1), 'each_col: vector length')
            vb = subst(v.body, {C_: ZERO})
        else:
            req(eq(v.nc, m.nc) * eq(v.nr, 1), 'each_row: vector length')
            vb = subst(v.body, {R_: ZERO})
        return Mat(m.nr, m.nc, f(vb, m.body) if swap else f(m.body, vb))

    def assign(self, op, target, src, st, n):
        t = target
        while t.get('kind') in PASS or (t.get('kind') == 'ImplicitCastExpr' and t.get('castKind') in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase')):
            t = t['inner'][0]
        # each_row() -= v
        if t.get('kind') == 'CXXMemberCallExpr' and t['inner'][0].get('name') in ('each_col', 'each_row', 'each_slice'):
            e = self.ev(t, st)
            v = self.ev(src, st)
            if op == '=':
                m = e.m
                vb = subst(v.body, {C_: ZERO}) if e.axis == 'col' else subst(v.body, {R_: ZERO})
                r = Mat(m.nr, m.nc, vb)
            else:
                r = self.each_op({'%=': '%', '+=': '+', '-=': '-', '/=': '/', '*=': '%'}[op], e, v, st)
            self.write(st, e.lv, r)
            return r
        v = self.ev(src, st)
        lvv = self.lv(target, st)
        if lvv is None:
            if self.assign_special(op, target, v, st):
                return v
            raise Unsupported('assignment target %s' % t.get('kind'))
        old = None
        tt = clean_ty(ty(target))
        if op == '=':
            if mat_kind(tt) in ('col', 'row', 'mat'):
                v = self.convert(v, tt, st)
            cur = None
            if tt.startswith('optional<') and not (isinstance(v, Obj) and v.cls == 'optional'):
                v = Obj('optional', {'has': ONE, 'val': v})
            cls = self.recname(self.frames[-1].tu, tt)
            if cls is not None and (cls, 'assign') in self.hooks:
                return self.hooks[(cls, 'assign')](self, st, lvv, v, n)
            if cls is not None and isinstance(v, Obj):
                g = n['inner'][0]
                while g.get('kind') in PASS or g.get('kind') == 'ImplicitCastExpr':
                    g = g['inner'][0]
                r = self.fn_decl(g['referencedDecl'])
                if r is not None and body_of(r[0]) is not None and not r[0].get('isImplicit') and not r[0].get('explicitlyDefaulted'):
                    return self.inline(r[0], r[1], lvv, [Arg(self, src, st)], st, cls)
            if lvv.steps and lvv.steps[-1][0] in ('col', 'row', 'cols', 'rows', 'sub', 'slice', 'diag', 'elemv') and isinstance(v, P) and not isinstance(v, Mat):
                # subview = scalar expression of size 1x1
                tgt = self.read(st, lvv) if lvv.steps[-1][0] != 'elemv' else None
                if isinstance(tgt, Mat):
                    self.req(st)(eq(tgt.nr, 1) * eq(tgt.nc, 1), 'subview assigned from 1x1')
            if lvv.steps and lvv.steps[-1][0] in ('col', 'row') and isinstance(v, Mat):
                pass
            self.write(st, lvv, v)
            return v
        old = self.read(st, lvv)
        o = op[0]
        if isinstance(old, P):
            r = self.arith(o, old, self.scalar(v), None)
        else:
            r = self.mat_op(o, old, v, st)
        self.write(st, lvv, r)
        return r

    def assign_special(self, op, target, v, st):
        return False

    # ------------------------------------------------------------ Armadillo member functions
    def mat_method(self, olv, m, nm, a, st, n):
        req = self.req(st)
        if a and nm in ('t', 'st', 'max', 'min', 'is_empty', 'size', 'i', 'eval', 'as_col', 'index_min', 'index_max', 'is_finite'):
            raise Unsupported('%s with arguments' % nm)
        if nm in ('t', 'st'):
            return m.T()
        if nm in ('each_col', 'each_row'):
            if a:
                return self.each_apply(m, nm[5:], olv, a, st)
            return Each(m, nm[5:], olv)
        if nm in ('col', 'row', 'cols', 'rows', 'submat', 'slice', 'diag', 'elem', 'at', 'head', 'tail', 'head_cols', 'head_rows', 'tail_cols', 'tail_rows', 'subvec', 'back', 'front', 'unsafe_col'):
            args = [x.val() for x in a]
            step = self.view_step(LV(('x',)), m, nm, args).steps[0]
            return self.read_step(st, m, step)
        if nm == 'max':
            return vmax(m) if (m.iscol or m.isrow) else app('mmax', mlam(m), m.nr, m.nc)
        if nm == 'min':
            return vmin(m) if (m.iscol or m.isrow) else app('mmin', mlam(m), m.nr, m.nc)
        if nm == 'is_empty':
            return eq(m.n_elem, 0)
        if nm == 'size':
            return m.n_elem
        if nm == 'i':
            self.may_fail(m, st)
            return inv(m, req)
        if nm == 'eval' or nm == 'as_col':
            return m
        if nm == 'index_min':
            N = vlen(m).const()
            if getattr(self, 'expand_min', 0) and N is not None and N <= self.expand_min:
                el = lambda k: m.get(num(k), 0) if m.iscol else m.get(0, num(k))
                best = ZERO
                for k in range(1, int(N)):
                    bv = el(0)
                    for q in range(1, k):
                        bv = min2(bv, el(q))
                    best = ite(lt(el(k), bv), num(k), best)
                return best
            return app('index_min', vlam(m), vlen(m), sort='I')
        if nm == 'index_max':
            return app('index_max', vlam(m), vlen(m), sort='I')
        if nm == 'is_finite':
            return bapp('finite', mlam(self.inrange(st, m)), m.nr, m.nc)
        if nm in ('zeros', 'ones', 'fill', 'clear', 'reset', 'resize', 'set_size', 'eye'):
            args = [x.val() for x in a]
            if nm == 'fill':
                r = Mat(m.nr, m.nc, self.scalar(args[0])) if isinstance(m, Mat) else Cube(m.nr, m.nc, m.ns, args[0])
                if olv.steps and olv.steps[-1][0] == 'elemv':
                    r = self.scalar(args[0])
            elif nm in ('zeros', 'ones'):
                c = ZERO if nm == 'zeros' else ONE
                if not args:
                    r = Mat(m.nr, m.nc, c)
                    if olv.steps and olv.steps[-1][0] == 'diag':
                        r = c
                elif len(args) == 1:
                    r = Mat(args[0], ONE, c) if not m.isrow else Mat(ONE, args[0], c)
                else:
                    r = Mat(args[0], args[1], c)
            elif nm in ('clear', 'reset'):
                r = Mat(ZERO, ONE if m.iscol else ZERO, ZERO)
            elif nm == 'resize':
                nr = args[0]
                nc = args[1] if len(args) > 1 else ONE
                r = Mat(nr, nc, ite(lt(VR, m.nr) * lt(VC, m.nc), m.body, ZERO))
            elif nm == 'eye':
                r = Mat(args[0], args[1], eq(VR, VC)) if args else Mat(m.nr, m.nc, eq(VR, VC))
            else:
                r = Mat(args[0], args[1] if len(args) > 1 else ONE, lift(mk('app', ('uninit%d' % next(self.symid), (VR, VC)), 'R')))
            if olv is None:
                raise Unsupported('mutating a temporary')
            self.write(st, olv, r)
            return r if isinstance(r, Mat) else VOID
        if nm in ('begin', 'cbegin'):
            return Iter(olv if olv is not None else self.temp(m, st), ZERO)
        if nm in ('end', 'cend'):
            return Iter(olv if olv is not None else self.temp(m, st), vlen(m))
        if nm == 'memptr':
            return Ptr(olv)
        if nm == 'swap':
            self.b_swap(None, [VArg(m, olv), a[0]], st)
            return VOID
        if nm == 'has_nan':
            return bapp('hasnan', mlam(self.inrange(st, m)), m.nr, m.nc)
        if nm == 'is_vec':
            return bor(eq(m.nr, 1), eq(m.nc, 1))
        if nm == 'is_square':
            return eq(m.nr, m.nc)
        if nm == 'as_row':
            return m if m.isrow else m.T() if m.iscol else m
        if nm == 'operator()':
            idx = [x.val() for x in a]
            return self.read_step(st, m, ('el1', idx[0]) if len(idx) == 1 else ('el', idx[0], idx[1]))
        raise Unsupported('Armadillo method ' + nm)

    def each_apply(self, m, axis, olv, a, st):
        """m.each_col(f): f applied to every column in place; f may change nothing but its argument"""
        fv = a[0].val()
        if not isinstance(fv, Closure) or olv is None:
            raise Unsupported('each_%s(indices)' % axis)
        c = fresh('c')
        col = Mat(m.nr, ONE, subst(m.body, {C_: var(c)})) if axis == 'col' else Mat(ONE, m.nc, subst(m.body, {R_: var(c)}))
        tmp = self.temp(col, st)
        before = dict(st.store)
        lc = self.loopctx
        self.loopctx = lc + [le(0, var(c)), lt(var(c), m.nc if axis == 'col' else m.nr)]
        nthr = len(self.throws[-1])
        try:
            self.call_closure(fv, [VArg(col, tmp)], st)
        finally:
            self.loopctx = lc
        if len(self.throws[-1]) != nthr:
            raise Unsupported('each_%s: function that may throw' % axis)
        for r, v in before.items():
            if r != tmp.root and st.store.get(r) is not v:
                raise Unsupported('each_%s: function with side effects' % axis)
        out = self.read(st, tmp)
        if not isinstance(out, Mat):
            raise Unsupported('each_%s' % axis)
        r = Mat(m.nr, m.nc, subst(out.body, {c: VC} if axis == 'col' else {c: VR}))
        self.write(st, olv, r)
        return r

    def each_method(self, e, nm, a, st):
        raise Unsupported('each view method ' + nm)

    def seq_method(self, olv, s, nm, a, st):
        n = s.n if isinstance(s, Seq) else num(len(s.els))
        if nm == 'size':
            return n
        if nm == 'empty':
            return eq(n, 0)
        if nm in ('begin', 'cbegin'):
            return Iter(olv if olv is not None else self.temp(s, st), ZERO)
        if nm in ('end', 'cend'):
            return Iter(olv if olv is not None else self.temp(s, st), n)
        if nm in ('push_back', 'emplace_back'):
            v = a[0].val()
            if isinstance(s, LSeq) and not self.inloop():
                r = LSeq(s.els + [v])
            elif isinstance(s, LSeq):
                r = LSeq(s.els + [v])
            else:
                r = Seq(n + 1, vmerge(eq(var('@k'), n), v, s.el))
            self.write(st, olv, r)
            return VOID
        if nm == 'pop_back':
            if isinstance(s, LSeq):
                r = LSeq(s.els[:-1])
            else:
                self.req(st)(lt(0, n), 'pop_back of a non-empty vector')
                r = Seq(n - 1, s.el)
            self.write(st, olv, r)
            return VOID
        if nm == 'clear':
            self.write(st, olv, LSeq([]))
            return VOID
        if nm == 'erase':
            it = a[0].val()
            s2 = to_seq(s) if isinstance(s, LSeq) else s
            k = var('@k')
            self.req(st)(le(0, it.pos) * lt(it.pos, n), 'erase position in range')
            if len(a) > 1:
                raise Unsupported('erase of a range')
            if isinstance(s, LSeq) and len(s.els) <= 8:
                r = LSeq([vmerge(lt(num(k), it.pos), s.els[k], s.els[k + 1]) for k in range(len(s.els) - 1)])
                self.write(st, olv, r)
                return it
            r = Seq(n - 1, vmerge(lt(k, it.pos), s2.el, vsubst(s2.el, {'@k': k + 1})))
            self.write(st, olv, r)
            return it
        if nm in ('at', 'back', 'front'):
            return self.read(st, self.view_step(olv, s, nm, [x.val() for x in a]))
        if nm == 'resize':
            v = self.scalar(a[0].val())
            s2 = to_seq(s) if isinstance(s, LSeq) else s
            self.write(st, olv, Seq(v, vmerge(lt(var('@k'), n), s2.el, ZERO) if not (isinstance(s, LSeq) and not s.els) else ZERO))
            return VOID
        if nm == 'data':
            return Ptr(olv)
        if nm == 'swap':
            self.b_swap(None, [VArg(s, olv), a[0]], st)
            return VOID
        if nm in ('reserve', 'shrink_to_fit'):
            return VOID
        raise Unsupported('vector method ' + nm)

    def inloop(self):
        return bool(self.loopctx)

    def may_fail(self, m, st):
        """matrix inversion / decomposition may throw (singular input)"""
        if self.numfail == 'never':
            return
        c = bapp('singular', mlam(m), m.nr)
        s = st.copy()
        s.assume(c)
        if not self.is_dead(s):
            self.throw(s, 'singular')
        st.assume(ONE - c)

    # ------------------------------------------------------------ library functions
    def _v(self, a, i=0):
        return a[i].val()
    def _mapf(f):
        def g(self, n, a, st):
            v = a[0].val()
            if isinstance(v, P):
                return f(v)
            return emap(f, v)
        return g
    b_exp = _mapf(expp)
    b_log = _mapf(logp)
    b_log2 = _mapf(log2p)
    b_sqrt = _mapf(T.sqrt)
    b_abs = _mapf(absp)
    b_fabs = _mapf(absp)
    b_sin = _mapf(sinp)
    b_cos = _mapf(cosp)
    b_tan = _mapf(tanp)
    b_atan = _mapf(atanp)
    b_lgamma = _mapf(lgammap)
    b_floor = _mapf(floorp)
    b_round = _mapf(roundp)
    b_square = _mapf(lambda x: x * x)
    b_trunc = _mapf(truncp)
    b_move = _mapf2 = None

    def b_ceil(self, n, a, st):
        return -floorp(-self.scalar(a[0].val()))
    def b_move(self, n, a, st):
        return a[0].val()
    b_forward = b_move
    b_get = None
    def b_pow(self, n, a, st):
        x, y = a[0].val(), a[1].val()
        if isinstance(x, P):
            return powp(x, self.scalar(y))
        return emap(lambda b: powp(b, self.scalar(y)), x)
    def b_trans(self, n, a, st):
        v = a[0].val()
        return v.T() if isinstance(v, Mat) else v
    b_strans = b_trans
    def b_sum(self, n, a, st):
        v = a[0].val()
        args = [x for x in a[1:] if not x.default]
        dim = None
        if args:
            y = args[0].val()
            if isinstance(y, P):
                dim = y.const()
        t = clean_ty(ty(n))
        if isinstance(v, P):
            return v
        if dim is None:
            if t in ('double', 'unsigned long long', 'elem_type', 'uword') or self.vectype(a[0].node):
                return vecsum(v)
            dim = 0
        return dimsum(v, int(dim))
    def vectype(self, node):
        """is the argument's static type a vector expression (Col/Row/subview_col/row)?"""
        return False
    def scal_or_dim(self, n, a, fscal, fdim):
        v = a[0].val()
        args = [x for x in a[1:] if not x.default]
        if isinstance(v, P):
            return v
        if len(args) >= 1:
            y = args[0].val()
            if isinstance(y, P) and y.const() is not None:
                return fdim(v, int(y.const()))
        t = clean_ty(ty(n))
        if self.is_scalar_ty(t):
            return fscal(v)
        return fdim(v, 0)
    def is_scalar_ty(self, t):
        return t in ('double', 'unsigned long long', 'elem_type', 'uword') or ('elem_type' in t and '<' not in t.split('::')[0] and 'Op' not in t) or t.endswith('::elem_type') or t.endswith('result') and 'typename' not in t
    def b_mean(self, n, a, st):
        return self.scal_or_dim(n, a, mean, dimmean)
    def b_max(self, n, a, st):
        if len(a) == 2 and isinstance(a[0].val(), P) and isinstance(a[1].val(), P):
            return max2(a[0].val(), a[1].val())
        if len(a) == 1 and isinstance(a[0].val(), LSeq):
            r = None
            for e in a[0].val().els:
                r = e if r is None else max2(r, e)
            return r
        return self.scal_or_dim(n, a, vmax, lambda m, d: dimext('rmax', m, d))
    def b_min(self, n, a, st):
        if len(a) == 2 and isinstance(a[0].val(), P) and isinstance(a[1].val(), P):
            return min2(a[0].val(), a[1].val())
        return self.scal_or_dim(n, a, vmin, lambda m, d: dimext('rmin', m, d))
    b_fmax = b_max
    b_fmin = b_min
    def b_accu(self, n, a, st):
        return vecsum(a[0].val())
    def b_dot(self, n, a, st):
        # any two shapes with equally many elements: a row and a column are aligned first
        x, y = a[0].val(), a[1].val()
        if isinstance(x, Mat) and isinstance(y, Mat) and (x.nr, x.nc) != (y.nr, y.nc):
            if x.nr == ONE:
                x = x.T()
            if y.nr == ONE:
                y = y.T()
        return vecsum(ebin(lambda p, q: p * q, x, y, self.req(st), 'dot'))
    def b_var(self, n, a, st):
        args = [x for x in a[1:] if not x.default]
        norm = int(args[0].val().const()) if args else 0
        v = a[0].val()
        if len(args) < 2 and self.is_scalar_ty(clean_ty(ty(n))) and (v.nr == ONE or v.nc == ONE):
            return variance(v, norm)
        return dimvariance(v, int(args[1].val().const()) if len(args) > 1 else 0, norm)
    def b_stddev(self, n, a, st):
        r = self.b_var(n, a, st)
        return T.sqrt(r) if isinstance(r, P) else emap(T.sqrt, r)
    def b_median(self, n, a, st):
        v = a[0].val()
        args = [x for x in a[1:] if not x.default]
        return app('median', vlam(v), vlen(v))
    def b_norm(self, n, a, st):
        v = a[0].val()
        args = [x for x in a[1:] if not x.default]
        if args and not (isinstance(args[0].val(), P) and args[0].val().const() == 2):
            raise Unsupported('norm p')
        if v.iscol or v.isrow:
            return T.sqrt(vecsum(emap(lambda x: x * x, v)))
        return app('norm2', mlam(v), v.nr, v.nc)
    def inv_(self, n, a, st):
        v = a[0].val()
        if len([x for x in a if not x.default]) > 1:
            y = a[1].val()
            if isinstance(y, Mat):
                return self.inv2(a, st)
            raise Unsupported('options of inv')
        if isinstance(v, P):
            v = Mat(ONE, ONE, v)
        self.may_fail(v, st)
        return inv(v, self.req(st))
    b_inv = inv_
    b_inv_sympd = inv_
    def inv2(self, a, st):
        """bool inv(out, in): false (and an empty out) when the input is singular"""
        m = a[1].val()
        out = a[0].lv()
        r = inv(m, self.req(st))
        if self.numfail == 'never':
            self.write(st, out, r)
            return ONE
        c = bapp('singular', mlam(m), m.nr)
        self.write(st, out, vmerge(c, Mat(ZERO, ZERO, ZERO), r))
        return ONE - c
    def b_swap(self, n, a, st):
        x, y = a[0].val(), a[1].val()
        lx, ly = a[0].lv(), a[1].lv()
        if lx is None or ly is None:
            raise Unsupported('swap of temporaries')
        self.write(st, lx, y)
        self.write(st, ly, x)
        return VOID
    def b_exchange(self, n, a, st):
        x, y = a[0].val(), a[1].val()
        self.write(st, a[0].lv(), y)
        return x
    def b_from(self, n, a, st):
        # conv_to<T>::from: the same elements
        v = a[0].val()
        t = clean_ty(ty(n))
        if isinstance(v, Find):
            raise Unsupported('conv_to of find')
        if isinstance(v, (Seq, LSeq)):
            raise Unsupported('conv_to of a vector')
        k = mat_kind(t)
        if 'vector' in t:
            raise Unsupported('conv_to vector')
        if k == 'col' and v.isrow and not v.iscol:
            return v.T()
        if k == 'row' and v.iscol and not v.isrow:
            return v.T()
        if ('unsigned' in t or 'u64' in t or 'uvec' in t or 'umat' in t or 'int' in t) and not is_int(v.body):
            raise Unsupported('rounding conversion')
        return v
    def b_hypot(self, n, a, st):
        x, y = self.scalar(a[0].val()), self.scalar(a[1].val())
        return T.sqrt(x * x + y * y)
    def b_fma(self, n, a, st):
        x, y, z = [self.scalar(q.val()) for q in a]
        return x * y + z
    def b_clamp(self, n, a, st):
        x, lo, hi = a[0].val(), self.scalar(a[1].val()), self.scalar(a[2].val())
        f = lambda q: min2(max2(q, lo), hi)
        return f(x) if isinstance(x, P) else emap(f, x)
    def b_cbrt(self, n, a, st):
        raise Unsupported('cbrt')
    def b_repmat(self, n, a, st):
        m, r, c = a[0].val(), self.scalar(a[1].val()), self.scalar(a[2].val())
        if m.iscol and r == ONE:
            return Mat(m.nr, c, m.get(VR, 0))
        if m.isrow and c == ONE:
            return Mat(r, m.nc, m.get(0, VC))
        raise Unsupported('repmat')
    def b_regspace(self, n, a, st):
        s_, e_ = self.scalar(a[0].val()), self.scalar(a[1].val())
        if len([x for x in a if not x.default]) > 2:
            raise Unsupported('regspace step')
        self.req(st)(le(s_, e_ + 1), 'increasing regspace')
        N = e_ - s_ + 1
        t = clean_ty(ty(n))
        return Mat(ONE, N, s_ + VC) if mat_kind(t) == 'row' else Mat(N, ONE, s_ + VR)
    def _range(self, a, st):
        """(lvalue, container value) of a whole-container iterator pair"""
        b, e = a[0].val(), a[1].val()
        if not isinstance(b, Iter) or not isinstance(e, Iter) or b.pos != ZERO or b.lv.root != e.lv.root:
            raise Unsupported('iterator range')
        v = self.read(st, b.lv)
        N = vlen(v) if isinstance(v, Mat) else (num(len(v.els)) if isinstance(v, LSeq) else v.n if isinstance(v, Seq) else None)
        if N is None or e.pos != N:
            raise Unsupported('partial iterator range')
        return b.lv, v, N
    def sort_range(self, n, a, st):
        """std::sort of a literally known range: compare and exchange until every neighbouring pair is in order (the order of equivalent elements is one of the possible ones)"""
        b, e = a[0].val(), a[1].val()
        f = a[2].val() if len(a) > 2 else None
        v = self.read(st, b.lv)
        lo, hi = b.pos.const(), e.pos.const()
        if not isinstance(v, LSeq) or b.lv.root != e.lv.root or lo is None or hi is None or hi - lo > 5:
            raise Unsupported('sort of an iterator range')
        self.req(st)(num(1 if 0 <= lo <= hi <= len(v.els) else 0), 'sorted range within the vector')
        els = list(v.els)
        for top in range(int(hi) - 1, int(lo), -1):
            for k in range(int(lo), top):
                x, y = els[k], els[k + 1]
                before = dict(st.store)
                c = self.truth(self.call_value(f, [VArg(y), VArg(x)], st, n), st) if f is not None else lt(y, x)
                if any(q in st.store and not vsame(before[q], st.store[q]) for q in before):
                    raise Unsupported('comparison with side effects')
                els[k], els[k + 1] = vmerge(c, y, x), vmerge(c, x, y)
        self.write(st, b.lv, LSeq(els))
        return VOID
    def b_iota(self, n, a, st):
        l, v, N = self._range(a, st)
        s_ = self.scalar(a[2].val())
        if isinstance(v, LSeq):
            self.write(st, l, LSeq([s_ + i for i in range(len(v.els))]))
        elif isinstance(v, Seq):
            self.write(st, l, Seq(N, s_ + var('@k')))
        else:
            raise Unsupported('iota')
        return VOID
    def b_transform(self, n, a, st):
        """unary std::transform over a whole container by a function without side effects"""
        l, v, N = self._range(a, st)
        d = a[2].val()
        if len(a) != 4 or not isinstance(d, Iter) or d.pos != ZERO:
            raise Unsupported('transform')
        w = self.read(st, d.lv)
        M = vlen(w) if isinstance(w, Mat) else (num(len(w.els)) if isinstance(w, LSeq) else w.n)
        self.req(st)(le(N, M), 'transform writes within the destination')
        f = a[3].val()
        j = T.fresh('j')
        k = var(j)
        s2 = st.copy()
        s2.assume(le(0, k) * lt(k, N))
        before = dict(s2.store)
        el = self.read_step(s2, v, ('el1', k) if isinstance(v, Mat) else ('idx', k))
        r = self.call_value(f, [VArg(el)], s2, n)
        if any(not vsame(before[q], s2.store[q]) for q in before):
            raise Unsupported('transform with side effects')
        inside = lt(k, N) if N != M else ONE
        if isinstance(w, Mat):
            r = self.scalar(r)
            new = Mat(w.nr, w.nc, vmerge(subst(inside, {j: VR if w.nc == ONE else VC}), subst(r, {j: VR if w.nc == ONE else VC}), w.body))
        elif isinstance(w, Seq):
            new = Seq(w.n, vmerge(subst(inside, {j: var('@k')}), vsubst(r, {j: var('@k')}), w.el))
        else:
            m = N.const()
            if m is None:
                raise Unsupported('transform into a literal vector')
            new = LSeq([vsubst(r, {j: num(q)}) if q < m else e for q, e in enumerate(w.els)])
        self.write(st, d.lv, new)
        return Iter(d.lv, N)
    def b_accumulate(self, n, a, st):
        l, v, N = self._range(a, st)
        if len(a) > 3:
            raise Unsupported('accumulate with an operation')
        s_ = self.scalar(a[2].val())
        if is_int(s_) and 'double' not in clean_ty(ty(n)):
            raise Unsupported('integer accumulate')
        if isinstance(v, Mat):
            return s_ + vecsum(v)
        if isinstance(v, LSeq):
            for x in v.els:
                s_ = s_ + x
            return s_
        j = fresh('j')
        return s_ + ssum(j, N, v.at(var(j)))
    def b_pinv(self, n, a, st):
        v = a[0].val()
        return Mat(v.nc, v.nr, app('pinv', mlam(v), v.nr, v.nc, VR, VC))
    def b_solve(self, n, a, st):
        args = [x for x in a if not x.default]
        A, B = args[0].val(), args[1].val()
        self.may_fail(A, st)
        # square systems only: solution of A x = B
        return solve(A, B, self.req(st))
    def b_det(self, n, a, st):
        v = a[0].val()
        if isinstance(v, P):
            return v
        self.req(st)(eq(v.nr, v.nc), 'det of a square matrix')
        return det(v)
    def b_trace(self, n, a, st):
        return trace(a[0].val())
    def b_as_scalar(self, n, a, st):
        v = a[0].val()
        if isinstance(v, P):
            return v
        self.req(st)(eq(v.nr, 1) * eq(v.nc, 1), 'as_scalar of a 1x1 matrix')
        return v.get(0, 0)
    def b_diagmat(self, n, a, st):
        v = a[0].val()
        if v.iscol:
            return Mat(v.nr, v.nr, eq(VR, VC) * subst(v.body, {C_: ZERO}))
        if v.isrow:
            return Mat(v.nc, v.nc, eq(VR, VC) * subst(v.body, {R_: ZERO, C_: VR}))
        return Mat(v.nr, v.nc, eq(VR, VC) * v.body)
    def b_diagvec(self, n, a, st):
        v = a[0].val()
        return Mat(v.nr, ONE, subst(v.body, {C_: VR}))
    def gen(c):
        def g(self, n, a, st):
            vs = [x.val() for x in a if not x.default]
            t = clean_ty(ty(n))
            vs = [v for v in vs if isinstance(v, P)]
            if len(vs) == 1:
                if mat_kind(t) == 'row' or 'Row' in t:
                    return Mat(ONE, vs[0], c)
                return Mat(vs[0], ONE, c)
            return Mat(vs[0], vs[1], c)
        return g
    b_zeros = gen(ZERO)
    b_ones = gen(ONE)
    def b_eye(self, n, a, st):
        vs = [x.val() for x in a if not x.default]
        return Mat(vs[0], vs[1], eq(VR, VC))
    def b_linspace(self, n, a, st):
        vs = [self.scalar(x.val()) for x in a if not x.default]
        s, e, N = vs
        t = clean_ty(ty(n))
        step = (e - s) / (N - 1)
        # integer linspace(s, s+N-1, N): step 1
        if (e - s) == (N - 1):
            step = ONE
        if 'Row' in t or mat_kind(t) == 'row':
            return Mat(ONE, N, s + VC * step)
        return Mat(N, ONE, s + VR * step)
    def b_join_rows(self, n, a, st):
        return joinrows(a[0].val(), a[1].val(), self.req(st))
    b_join_horiz = b_join_rows
    def b_join_cols(self, n, a, st):
        return joincols(a[0].val(), a[1].val(), self.req(st))
    b_join_vert = b_join_cols
    def b_sort(self, n, a, st):
        v = a[0].val()
        if isinstance(v, Iter):
            return self.sort_range(n, a, st)
        args = [x for x in a[1:] if not x.default]
        if args:
            raise Unsupported('sort order')
        return sortv(v)
    def b_index_max(self, n, a, st, op='index_max'):
        m = a[0].val()
        args = [x.val() for x in a[1:] if not x.default]
        if not args and (m.iscol or m.isrow):
            return app(op, vlam(m), vlen(m), sort='I')
        d = args[0].const() if args else F(0)
        if d == 1:
            return Mat(m.nr, ONE, app(op, T.lam(['t#'], m.get(VR, var('t#'))), m.nc, sort='I'))
        if d == 0:
            return Mat(ONE, m.nc, app(op, T.lam(['t#'], m.get(var('t#'), VC)), m.nr, sort='I'))
        raise Unsupported(op)
    def b_index_min(self, n, a, st):
        return self.b_index_max(n, a, st, 'index_min')
    def b_sort_index(self, n, a, st):
        args = [x for x in a[1:] if not x.default]
        if args:
            raise Unsupported('sort_index order')
        return sort_index(a[0].val())
    def b_cumsum(self, n, a, st):
        v = a[0].val()
        j = fresh()
        if v.iscol:
            return Mat(v.nr, ONE, ssum(j, VR + 1, v.get(var(j), 0)))
        if v.isrow:
            return Mat(ONE, v.nc, ssum(j, VC + 1, v.get(0, var(j))))
        raise Unsupported('cumsum of matrix')
    def b_rank(self, n, a, st):
        v = a[0].val()
        return app('rank', mlam(v), v.nr, v.nc, sort='I')
    def b_vectorise(self, n, a, st):
        v = a[0].val()
        if v.iscol:
            return v
        if v.isrow:
            return v.T()
        raise Unsupported('vectorise of matrix')
    def b_find(self, n, a, st):
        args = [x for x in a if not x.default]
        if len(args) > 1:
            raise Unsupported('find with count')
        v = args[0].val()
        return Find(emap(lambda x: x if self.isbool(x) else ne(x, 0), v))
    def b_all(self, n, a, st):
        v = a[0].val()
        t = clean_ty(ty(n))
        if v.iscol or v.isrow:
            j = fresh()
            x = v.lin(var(j))
            return forall(j, vlen(v), x if self.isbool(x) else ne(x, 0))
        j = fresh()
        x = v.get(var(j), VC)
        return Mat(ONE, v.nc, forall(j, v.nr, x if self.isbool(x) else ne(x, 0)))
    def b_any(self, n, a, st):
        v = a[0].val()
        if v.iscol or v.isrow:
            j = fresh()
            x = v.lin(var(j))
            return exists(j, vlen(v), x if self.isbool(x) else ne(x, 0))
        raise Unsupported('any')
    def b_isfinite(self, n, a, st):
        return bapp('isfinite', self.scalar(a[0].val()))
    def b_isinf(self, n, a, st):
        return bapp('isinf', self.scalar(a[0].val()))
    def b_isnan(self, n, a, st):
        return bapp('isnan', self.scalar(a[0].val()))
    def b_get(self, n, a, st):
        # std::get<T>(variant): the held value (the alternative is chosen by the argument's static type)
        return a[0].val()
    def b_make_pair(self, n, a, st):
        return Obj('pair', {'first': a[0].val(), 'second': a[1].val()})
    def b_size(self, n, a, st):
        v = a[0].val()
        return Obj('SizeMat', {'r': v.nr, 'c': v.nc})
    def b_omp_get_thread_num(self, n, a, st):
        if self.ompk is None:
            return ZERO
        return app('thr', self.omp_threads, self.ompk, sort='I')
    def b_omp_get_num_procs(self, n, a, st):
        st.assume(lt(0, var('procs$')))
        return var('procs$')
    def b_omp_get_max_threads(self, n, a, st):
        st.assume(lt(0, var('maxthreads$')))
        return var('maxthreads$')
    def b_to_string(self, n, a, st):
        return Str('?')
    def b_make_unique(self, n, a, st):
        t = clean_ty(ty(n))
        m = re.search(r'<(.*)>', t)
        cls = clean_ty(m.group(1)).split('>')[0].strip() if m else '?'
        if cls.startswith('_MakeUniq<'):
            cls = cls[len('_MakeUniq<'):]
        cls = self.recname(self.frames[-1].tu, cls) or cls
        root = ('h', 'new%d' % next(self.symid), cls)
        fake = {'kind': 'CXXConstructExpr'}
        fn = None
        for c in self.frames[-1].tu.methods.get((cls, cls.split('::')[-1]), []):
            if len(params_of(c)) == len(a):
                fn = c
        st.store[root] = Obj(cls, {})
        if fn is None:
            raise Unsupported('make_unique of ' + cls)
        self.run_ctor(fn, self.frames[-1].tu, cls, LV(root), None, st, args=a)
        return Ptr(LV(root))
    def b_svd(self, n, a, st):
        vs = [x for x in a if not x.default]
        if len(vs) == 1:
            v = vs[0].val()
            return Mat(min2(v.nr, v.nc), ONE, app('svd_s', mlam(v), v.nr, v.nc, VR))
        if len(vs) == 4:
            v = vs[3].val()
            args = (mlam(v), v.nr, v.nc)
            self.write(st, vs[0].lv(), Mat(v.nr, v.nr, app('svd_U', *args, VR, VC)))
            self.write(st, vs[1].lv(), Mat(min2(v.nr, v.nc), ONE, app('svd_s', *args, VR)))
            self.write(st, vs[2].lv(), Mat(v.nc, v.nc, app('svd_V', *args, VR, VC)))
            return ONE
        if len(vs) == 2:
            v = vs[1].val()
            self.write(st, vs[0].lv(), Mat(min2(v.nr, v.nc), ONE, app('svd_s', mlam(v), v.nr, v.nc, VR)))
            return ONE
        raise Unsupported('svd')

DBLMAX = var('DBL_MAX', 'R')
PI = var('pi', 'R')
