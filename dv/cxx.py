"""Mechanical extraction: clang's own AST of /repo's current sources (no hand-written copy).

Each translation unit is parsed by clang++ with the defines/includes of the project's build
(OpenMP + MPI on, CUDA off) and the declarations in namespace gwm are read from the JSON dump.
What extraction drops: CUDA code (#ifdef ENABLE_CUDA, not built here), comments, source locations
other than line numbers, implicit destructor calls of locals.
"""
import json, os, re, subprocess, glob, concurrent.futures

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFS = ['-DARMA_USE_LAPACK', '-DARMA_USE_BLAS', '-DARMA_DONT_USE_WRAPPER', '-DENABLE_OPENMP', '-DENABLE_MPI',
        '-DM_PI=3.14159265358979323846', '-DM_PI_2=1.57079632679489661923', '-DDOUBLE_EPS=1e-8', '-DDBL_MAX=__DBL_MAX__']
INCS = ['-I%s/include' % REPO, '-I%s/include/gwmodelpp' % REPO, '-I%s/include/gwmodelpp/utils' % REPO,
        '-I%s/include/gwmodelcuda' % REPO, '-I/usr/lib/x86_64-linux-gnu/openmpi/include']
CLANG = 'clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'

class ExtractError(Exception):
    pass

def dump(tu, filt='gwm::'):
    cmd = [CLANG, '-std=gnu++17', '-fopenmp', '-I' + os.path.join(HERE, 'include')] + DEFS + INCS + \
          ['-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, tu]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise ExtractError('clang failed on %s: %s' % (tu, r.stderr.decode()[-800:]))
    return r.stdout.decode('utf8', 'replace')

def stream(s):
    d = json.JSONDecoder()
    i = 0
    n = len(s)
    ws = re.compile(r'\s*')
    while True:
        i = ws.match(s, i).end()
        if i >= n:
            return
        o, i = d.raw_decode(s, i)
        yield o

class TU:
    def __init__(self, path):
        self.path = path
        self.byid = {}
        self.records = {}      # name -> node (definition)
        self.rec_id = {}       # id -> name
        self.methods = {}      # (class or '', name) -> [node with body]
        self.fields = {}       # class -> {name: fielddecl}
        self.enums = {}        # constant id -> (enum, name, value) ; and by name
        self.enumvals = {}     # enum name -> {const name: value}
        self.vars = {}         # id -> VarDecl
        self.bases = {}
        self.tried = set()
        for o in stream(dump(path)):
            self.index(o, None)
        self.link()

    def index(self, o, parent):
        k = o.get('kind')
        if k is None:
            return
        i = o.get('id')
        if i is not None:
            self.byid[i] = o
        o['_parent_rec'] = parent
        if k in ('NamespaceDecl', 'LinkageSpecDecl'):
            for c in o.get('inner', []):
                self.index(c, parent)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            nm = o.get('name', '')
            if parent:
                nm = parent + '::' + nm
            self.rec_id[i] = nm
            if o.get('completeDefinition'):
                self.records.setdefault(nm, o)
                self.bases.setdefault(nm, [re.sub(r'^(class |struct )?', '', b['type']['qualType']).replace('gwm::', '') for b in o.get('bases', [])])
            for c in o.get('inner', []):
                self.index(c, nm)
        elif k == 'FieldDecl':
            self.fields.setdefault(parent, {})[o.get('name')] = o
        elif k in ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            pass
        elif k == 'FunctionTemplateDecl':
            for c in o.get('inner', []):
                self.index(c, parent)
        elif k == 'EnumDecl':
            v = -1
            d = {}
            for c in o.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    self.byid[c['id']] = c
                    val = enum_value(c, d)
                    v = val if val is not None else v + 1
                    d[c['name']] = v
                    self.enums[c['id']] = (o.get('name'), c['name'], v)
            self.enumvals[o.get('name')] = d
        elif k == 'VarDecl':
            self.vars[i] = o

    def link(self):
        for i, o in list(self.byid.items()):
            if o.get('kind') in ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                cls = o.get('_parent_rec')
                if cls is None and 'parentDeclContextId' in o:
                    cls = self.rec_id.get(o['parentDeclContextId'])
                if cls is None and 'previousDecl' in o:
                    p = self.byid.get(o['previousDecl'])
                    if p is not None:
                        cls = p.get('_parent_rec')
                o['_cls'] = cls or ''
                if body_of(o) is not None or o.get('kind') == 'CXXConstructorDecl':
                    if body_of(o) is None:
                        continue
                    l = self.methods.setdefault((cls or '', o.get('name', '')), [])
                    if not any(x['id'] == o['id'] for x in l):
                        l.append(o)
            elif o.get('kind') == 'VarDecl':
                self.vars[i] = o

    def decls_of(self, cls, name):
        if not hasattr(self, '_decls'):
            self._decls = {}
            for o in self.byid.values():
                if o.get('kind') == 'CXXMethodDecl':
                    self._decls.setdefault((o.get('_cls'), o.get('name')), []).append(o)
        return self._decls.get((cls, name), [])

    def extra(self, name):
        """on-demand dump of helper functions outside namespace gwm (static / anonymous)"""
        if name in self.tried:
            return
        self.tried.add(name)
        for o in stream(dump(self.path, name)):
            if o.get('kind') == 'FunctionDecl' and body_of(o) is not None and o.get('name') == name:
                self.byid.setdefault(o['id'], o)
                o['_cls'] = ''
                l = self.methods.setdefault(('', name), [])
                if not any(same_sig(x, o) for x in l):
                    l.append(o)

def same_sig(a, b):
    return a.get('type', {}).get('qualType') == b.get('type', {}).get('qualType')

def enum_value(c, d):
    for x in c.get('inner', []):
        return const_value(x, d)
    return None

def const_value(x, d):
    k = x.get('kind')
    if k == 'ConstantExpr' and 'value' in x:
        try:
            return int(x['value'])
        except ValueError:
            pass
    if k == 'IntegerLiteral':
        return int(x['value'])
    if k == 'DeclRefExpr':
        return d.get(x.get('referencedDecl', {}).get('name'))
    if k == 'BinaryOperator':
        a, b = [const_value(y, d) for y in x['inner'][:2]]
        if a is None or b is None:
            return None
        return {'<<': lambda: a << b, '|': lambda: a | b, '+': lambda: a + b, '&': lambda: a & b, '-': lambda: a - b}[x['opcode']]()
    for y in x.get('inner', []):
        return const_value(y, d)
    return None

def body_of(o):
    for c in o.get('inner', []):
        if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
            return c
    return None

def params_of(o):
    return [c for c in o.get('inner', []) if c.get('kind') == 'ParmVarDecl']

def line_of(o):
    def f(l):
        return l.get('line') or l.get('expansionLoc', {}).get('line') or l.get('spellingLoc', {}).get('line')
    return f(o.get('loc', {})) or f(o.get('range', {}).get('begin', {}))

class Program:
    def __init__(self):
        self.tus = {}
        self.srcs = None

    def sources(self):
        if self.srcs is None:
            self.srcs = sorted(glob.glob(REPO + '/src/gwmodelpp/**/*.cpp', recursive=True)) + \
                        sorted(glob.glob(REPO + '/src/*.cpp'))
            # CUDA sources are not part of this build (ENABLE_CUDA is off, no CUDA headers here)
            self.srcs = [s for s in self.srcs if os.path.basename(s) not in ('CudaUtils.cpp', 'cumat.cpp')]
        return self.srcs

    def preload(self, paths):
        paths = [p for p in paths if p not in self.tus]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for p, t in zip(paths, ex.map(TU, paths)):
                self.tus[p] = t

    def tu(self, path):
        if path not in self.tus:
            self.tus[path] = TU(path)
        return self.tus[path]

    def find_tu_for(self, cls, name):
        """source file that defines cls::name (textually located, header-inline code comes with any TU)"""
        pat = re.compile(r'\b%s\s*::\s*%s\s*\(' % (re.escape(cls), re.escape(name)))
        for s in self.sources():
            try:
                txt = open(s, errors='replace').read()
            except OSError:
                continue
            if pat.search(txt):
                # a definition, not a call: look for it after parsing
                t = self.tu(s)
                if (cls, name) in t.methods:
                    return t
        return None
