"""Running one function of /repo under a contract."""
import time
from expr import *
import expr as E

class Ctx:
    pass

def find_method(prog, cls, name, sig=None, tu=None):
    cand = []
    for t in ([tu] if tu else []) + list(prog.tus.values()):
        for m in t.methods.get((cls, name), []):
            if sig is None or sig in m['type']['qualType']:
                return m, t
    t = prog.find_tu_for(cls.split('::')[-1], name)
    if t is not None:
        for m in t.methods.get((cls, name), []):
            if sig is None or sig in m['type']['qualType']:
                return m, t
    return None

def run(prog, cls, name, hooks=None, setup=None, numfail='never', stop='never', sig=None, dyncls=None, safety=True,
        noncount=None, budget=60, interp=Interp):
    r = find_method(prog, cls, name, sig)
    if r is None:
        return None
    fn, tu = r
    T.set_budget(budget)
    prove.AXIOMS.clear(); prove._ecache.clear()
    ex = interp(prog, tu, hooks, numfail, stop, safety)
    ex.noncount_loop = noncount
    T.COND['simp'] = lambda c: cond_simp(ex, c)
    c = Ctx()
    c.ex, c.fn, c.tu, c.cls, c.name = ex, fn, tu, cls, name
    ex.thiscls = dyncls or cls
    st = State()
    this = LV(('this',))
    st.store[('this',)] = Obj(dyncls or cls, {}, 'this')
    fr = Frame(fn, tu, this, next(ex.fid))
    ex.frames.append(fr)
    c.st = st
    c.args = []
    c.F = {}
    # parameters
    args = []
    c.argvals = {}
    if setup:
        setup(c)
    ps = params_of(fn)
    pvals = []
    for i, p in enumerate(ps):
        v = c.argvals.get(i)
        if v is None:
            v = ex.default(ty(p), 'arg%d' % i)
        root = ('l', p['id'], fr.fid)
        ex.leafnames[root] = p.get('name')
        if isinstance(v, LV):
            fr.env[p['id']] = v
            pvals.append(v)
            continue
        fr.env[p['id']] = LV(root)
        st.store[root] = v
        pvals.append(LV(root))
    c.params = pvals
    for k, v in c.F.items():
        st.store[('this',)] = st.store[('this',)].with_(k, v)
    c.pre = st.copy()
    st = st.copy()
    inits = [x for x in fn.get('inner', []) if x.get('kind') == 'CXXCtorInitializer']
    o = ex.stmt(body_of(fn), st)
    ret = o.ret
    if o.normal is not None:
        ret = ex.merge_ret(ret, (o.normal, VOID))
    c.ret = ret
    c.thrown = ex.throws[-1]
    if ret is not None:
        c.post, c.result = ret
    else:
        c.post, c.result = None, None
    return c

_cs = {}
def cond_simp(ex, c):
    if c.const() is not None:
        return c
    key = (c.key, len(ex.base))
    r = _cs.get(key)
    if r is None:
        r = prove.decide(c, ex.base) if is_small(c) else c
        _cs[key] = r
    return r
def is_small(c):
    return len(c.t) <= 6
