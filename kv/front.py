"""clang front end: JSON ASTs of /repo's translation units, indexed.

The text that is verified is the text that is compiled: each .cpp is parsed by clang 18 from /repo's working tree on
every run, with the standard headers replaced by declaration-only stubs (kv/stubs), which is what keeps the library
functions abstract.  Nothing of /repo's own code is dropped; -fopenmp keeps the OpenMP directives visible."""
import json
import os
import re
import subprocess
import hashlib
import tempfile
import concurrent.futures as cf

CLANG = '/usr/bin/clang++-18'
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('KV_REPO', '/repo')
STUBS = os.path.join(HERE, 'stubs')

ALL_TUS = ['params', 'cheb', 'finite_diff', 'sphere', 'grid', 'io', 'field', 'initial_data', 'scalar_eom', 'main']


class FrontError(Exception):
    pass


def source_tus():
    """the translation units that make up the program: those listed in Source/Makefile's OBJ, by default"""
    mk = os.path.join(REPO, 'Source/Makefile')
    try:
        txt = open(mk).read()
        m = re.search(r'^OBJ\s*=((?:.*\\\n)*.*)', txt, re.M)
        names = re.findall(r'(\w+)\.o', m.group(1))
        out = []
        for n in names:
            if n not in out and os.path.exists(os.path.join(REPO, 'Source', n + '.cpp')):
                out.append(n)
        if out:
            return out
    except Exception:
        pass
    return ALL_TUS


def parse(tu, defs):
    src = os.path.join(REPO, 'Source', tu + '.cpp')
    for std in ('c++11', 'c++17'):      # the Makefile's standard first
        r = parse_as(src, defs, std)
        if r.returncode == 0 and r.stdout:
            return json.loads(r.stdout)
        err = r.stderr if std == 'c++11' else err
    raise FrontError('clang (with stub headers) failed on %s: %s' % (tu, err[:600]))


def parse_as(src, defs, std):
    cmd = [CLANG, '-std=' + std, '-fsyntax-only', '-nostdinc', '-nostdinc++', '-isystem', STUBS, '-fopenmp',
           '-ferror-limit=3', '-w'] + defs + ['-Xclang', '-ast-dump=json', src]
    return subprocess.run(cmd, capture_output=True, text=True)


class Node(dict):
    pass


class TU:
    pass


FUNC_KINDS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')


class Program:
    """all translation units of one build configuration"""

    def __init__(self, cheb, contiguous, tus=None):
        self.cheb, self.contiguous = cheb, contiguous
        self.defs = (['-DUSE_CHEB=1'] if cheb else []) + (['-DSHTNS_CONTIGUOUS_LONGITUDES=1'] if contiguous else [])
        self.funcs = {}       # mangled -> FunctionDecl with body
        self.classes = {}     # qualified name -> record node
        self.decl = {}        # (tu, id) -> node
        self.qual = {}        # mangled -> qualified name
        self.globals = {}     # qualified name -> VarDecl node with init
        self.fail = {}
        self.byname = {}      # qualified function name -> [mangled]
        self.text = {}
        self.mutable = {}     # key -> VarDecl of static storage that some code may change
        self.refs = {}        # (tu, decl id) -> is every use a plain read
        tus = tus or source_tus()
        with cf.ThreadPoolExecutor(8) as ex:
            futs = [(t, ex.submit(parse, t, self.defs)) for t in tus]
            for t, f in futs:
                try:
                    root = f.result()
                except FrontError as e:
                    self.fail[t] = str(e)
                    continue
                self.index(t, root)

    def index(self, tu, root):
        state = {'file': None, 'line': None}

        def loc(d):
            """clang's JSON omits file and line when unchanged from the last printed location"""
            if 'spellingLoc' in d:
                loc(d['spellingLoc'])
                loc(d['expansionLoc'])
                d['line'] = d['expansionLoc'].get('line')
                d['file'] = d['expansionLoc'].get('file')
                return
            if 'offset' in d:
                if 'file' in d:
                    state['file'] = d['file']
                if 'line' in d:
                    state['line'] = d['line']
                d['file'] = state['file']
                d['line'] = state['line']

        decl = self.decl

        infn = [0]

        def walk(n, path, cls, up=None):
            if 'loc' in n and isinstance(n['loc'], dict):
                loc(n['loc'])
            if 'range' in n:
                loc(n['range'].get('begin', {}))
                loc(n['range'].get('end', {}))
            k = n.get('kind')
            n['_tu'] = tu
            if k and 'id' in n:
                old = decl.get((tu, n['id']))
                if old is None:
                    decl[(tu, n['id'])] = n
            name = n.get('name')
            sub = path
            c2 = cls
            if k == 'VarDecl' and infn[0]:
                n['_infn'] = True
            if k == 'VarDecl' and (n.get('loc') or {}).get('file', state['file'] or '').startswith(REPO) and \
                    (n.get('storageClass') == 'static' or n.get('tls') or not infn[0]) and not n.get('constexpr') and \
                    (not is_const(n['type']['qualType']) or (infn[0] and call_dependent(n, decl, tu))):
                n['_first'] = bool(infn[0] and call_dependent(n, decl, tu))
                n['_mut'] = name if not infn[0] else name + '@' + str(n.get('loc', {}).get('line'))
                self.mutable.setdefault(n['_mut'], []).append((tu, n['id']))
            if k == 'DeclRefExpr' and (n.get('referencedDecl') or {}).get('kind') == 'VarDecl':
                plain = False
                for q in (up, up.get('_up') if up is not None and up.get('kind') in ('CXXOperatorCallExpr', 'ArraySubscriptExpr') else None):
                    if q is not None and (q.get('castKind') == 'LValueToRValue' or (q.get('castKind') == 'NoOp' and q['type']['qualType'].startswith('const '))):
                        plain = True
                key = (tu, n['referencedDecl']['id'])
                self.refs[key] = self.refs.get(key, True) and plain
            if k == 'EnumDecl':
                at = 0
                for c in n.get('inner', []) or []:
                    if c and c.get('kind') == 'EnumConstantDecl':
                        vals = [x for x in c.get('inner', []) or [] if x and x.get('kind') == 'ConstantExpr']
                        at = int(vals[0]['value']) if vals and 'value' in vals[0] else at
                        c['_enum'] = at
                        at += 1
            if k == 'NamespaceDecl':
                sub = path + [name] if name else path
            elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                sub = path + [(name or '') + (template_args(n) if k == 'ClassTemplateSpecializationDecl' else '')]
                q = '::'.join(sub)
                n['_qual'] = q
                if n.get('completeDefinition') and (k == 'CXXRecordDecl' or sub[0] == 'own' or (n.get('loc') or {}).get('file', state['file'] or '').startswith(REPO)):
                    if q not in self.classes:
                        self.classes[q] = n
                c2 = n
            elif k in FUNC_KINDS:
                n['_class'] = cls.get('_qual') if cls is not None else None
                if cls is None and n.get('parentDeclContextId'):
                    p = decl.get((tu, n['parentDeclContextId']))
                    if p is not None and p.get('_qual'):
                        n['_class'] = p['_qual']
                        sub = p['_qual'].split('::')
                elif n.get('previousDecl'):
                    p = decl.get((tu, n['previousDecl']))
                    if p is not None:
                        n['_class'] = p.get('_class')
                base = '::'.join(([n['_class']] if n.get('_class') else sub) + [name or ''])
                n['_qual'] = base
                m = n.get('mangledName') or base
                n['_m'] = m
                if any(x.get('kind') in ('CompoundStmt', 'CXXTryStmt') for x in n.get('inner', []) if x):
                    if m not in self.funcs:
                        self.funcs[m] = n
                        self.byname.setdefault(base, []).append(m)
                sub = path
            elif k == 'VarDecl' and any(x.get('kind', '').endswith(('Expr', 'Literal', 'Cleanups')) for x in n.get('inner', []) if x):
                if not n.get('_infunc'):
                    q = '::'.join(path + [name or ''])
                    n['_qual'] = q
                    n['_tunit'] = tu
            n['_up'] = up
            infn[0] += k in FUNC_KINDS
            if 'array_filler' in n and 'inner' not in n:
                n['inner'] = [c for c in n['array_filler'][1:]]
            for c in n.get('inner', []) or []:
                if c:
                    walk(c, sub, c2 if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'AccessSpecDecl') else (c2 if k == 'FunctionTemplateDecl' else None), n)
            infn[0] -= k in FUNC_KINDS
            del n['_up']
            if 'array_filler' in n:
                pass
        import sys
        sys.setrecursionlimit(20000)
        walk(root, [], None)

    # ---------------------------------------------------------------- helpers
    def changeable(self):
        """variables of static storage duration whose value may differ from their initialiser"""
        out = {}
        for m, ds in self.mutable.items():
            n = self.decl[ds[0]]
            if not n.get('_first') and '*' not in n['type']['qualType'] and all(self.refs.get(d, True) for d in ds):
                continue
            out[m] = n
        return out

    def find(self, qual, nparams=None):
        ms = self.byname.get(qual, [])
        if nparams is None:
            return [self.funcs[m] for m in ms]
        return [self.funcs[m] for m in ms if len(params(self.funcs[m])) == nparams]

    def one(self, qual, nparams=None, sig=None):
        fs = self.find(qual, nparams)
        if sig:
            fs = [f for f in fs if sig in f['type']['qualType']]
        if len(fs) != 1:
            raise FrontError('expected one definition of %s, found %d' % (qual, len(fs)))
        return fs[0]

    def ref(self, node, r):
        return self.decl.get((node['_tu'], r))


def is_const(t):
    """is the object itself const (a pointer to const is not)"""
    if t.endswith('*') or t.endswith('&'):
        return False
    return t.startswith('const ') or t.endswith(' const') or t.endswith('*const')


def call_dependent(n, decl, tu, depth=0):
    """does the initialiser of a function's static variable depend on the call that runs it"""
    if depth > 40:
        return True
    for c in n.get('inner', []) or []:
        if not c:
            continue
        r = c.get('referencedDecl') or {}
        if c.get('kind') == 'CXXThisExpr' or r.get('kind') == 'ParmVarDecl':
            return True
        if r.get('kind') == 'VarDecl':
            d = decl.get((tu, r['id']))
            if d is not None and d.get('_infn') and d.get('storageClass') != 'static' and not d.get('constexpr'):
                if not is_const(d['type']['qualType']) or call_dependent(d, decl, tu, depth + 1):
                    return True
        if c.get('kind') == 'LambdaExpr':
            return True
        if call_dependent(c, decl, tu, depth + 1):
            return True
    return False


def template_args(n):
    """'<double, 3>' of a class template specialisation, spelled as in type names"""
    out = []
    for x in n.get('inner', []) or []:
        if x and x.get('kind') == 'TemplateArgument':
            if 'type' in x:
                out.append(x['type']['qualType'])
            elif 'value' in x:
                out.append(str(x['value']))
            else:
                out.append('?')
    return '<%s>' % ', '.join(out)


def short(q):
    """the unqualified name of a class, without template arguments"""
    return q.split('<')[0].split('::')[-1]


def params(fn):
    return [x for x in fn.get('inner', []) if x and x.get('kind') == 'ParmVarDecl']


def body(fn):
    for x in fn.get('inner', []):
        if x and x.get('kind') == 'CompoundStmt':
            return x
    return None


def inits(fn):
    return [x for x in fn.get('inner', []) if x and x.get('kind') == 'CXXCtorInitializer']


def qtype(n):
    t = n.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''


def where(n):
    r = n.get('range', {}).get('begin', {})
    f = r.get('file')
    if f:
        f = os.path.relpath(f, REPO) if f.startswith(REPO) else os.path.basename(f)
    return '%s:%s' % (f, r.get('line'))


_progs = {}


def program(cheb, contiguous):
    k = (cheb, contiguous)
    if k not in _progs:
        _progs[k] = Program(cheb, contiguous)
    return _progs[k]


def preload():
    """parse every build configuration (before worker processes are forked)"""
    for c in (True, False):
        for d in (True, False):
            program(c, d)
