"""Front end: parse the real sources of /repo with clang-18 on every run and
index the functions, methods and records found in the JSON syntax tree."""
import json, os, re, subprocess, sys, tempfile, shlex
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('DV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/bin/clang-18'

def mpi_flags():
    try:
        r = subprocess.run(['mpicxx', '--showme:compile'], capture_output=True, text=True)
        return shlex.split(r.stdout)
    except OSError:
        return []

def flags(cxx=True):
    f = ['-x', 'c++', '-std=c++17'] if cxx else ['-x', 'c', '-std=gnu99']
    f += ['-fopenmp', '-w', '-fsyntax-only', '-DUSE_MPI', '-I' + VERIF + '/inc']
    for d in ('levels/c_utils', 'levels/libfftpack', 'levels/cxxsupport', 'levels/Healpix_cxx', 'src'):
        f.append('-I%s/%s' % (REPO, d))
    return f + mpi_flags()

class FrontEndError(Exception):
    pass

def _docs(text):
    d = json.JSONDecoder()
    i, n, out = 0, len(text), []
    while True:
        while i < n and text[i] in ' \n\r\t':
            i += 1
        if i >= n:
            return out
        o, i = d.raw_decode(text, i)
        out.append(o)

_norm_cache = {}
def norm(t):
    """canonical spelling of a type"""
    r = _norm_cache.get(t)
    if r is None:
        r = re.sub(r'\b(class|struct|enum|typename)\s+', '', t)
        r = re.sub(r'\b(levels|conviqt|std|__cxx11|__1)::', '', r)
        r = re.sub(r'\s+', ' ', r).strip()
        r = re.sub(r'\s*([<>,*&()])\s*', r'\1', r)
        r = r.replace(',', ', ')
        _norm_cache[t] = r
    return r

def ns_enum(name): return name in ('NDT', 'redOp')      # enumerations used as plain numbers

class Func:
    def __init__(self, node, cls, qual, file):
        self.node, self.cls, self.qual, self.file = node, cls, qual, file
        self.name = node.get('name')
        self.unit = None
        self.id = node.get('id')
        self.type = node['type']['qualType']
        self.params = [c for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        self.body = None
        self.inits = []
        for c in node.get('inner', []):
            if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                self.body = c
            if c.get('kind') == 'CXXCtorInitializer':
                self.inits.append(c)
    def __repr__(self):
        return '<Func %s %s>' % (self.qual, self.type)

def _fill_lines(doc):
    last = [None]
    def walk(x):
        if isinstance(x, dict):
            if 'offset' in x and 'tokLen' in x:
                if 'line' in x: last[0] = x['line']
                else: x['line'] = last[0]
            if 'inner' in x: x['inner'] = [c for c in x['inner'] if c.get('kind') != 'FullComment']
            for k, v in x.items():
                if isinstance(v, (dict, list)): walk(v)
        else:
            for v in x:
                if isinstance(v, (dict, list)): walk(v)
    walk(doc)

class Unit:
    """One translation unit of the repository."""
    def __init__(self, src, filters=('levels::', 'onviqt::'), cxx=True, extra=()):
        self.src = src
        self.funcs = {}      # qualified name -> list of Func with body
        self.decls = {}      # id -> node of function declarations
        self.byid = {}       # decl id -> Func with a body
        self.records = {}    # canonical name -> {'fields': [(name,type)], 'bases': [...]}
        self.enums = {}      # id of an enumerator -> value
        self.vars = {}       # namespace-scope constants: name -> node
        self.prev = {}
        path = src if os.path.isabs(src) else os.path.join(REPO, src)
        if not os.path.exists(path):
            raise FrontEndError('missing source ' + path)
        def run(f):
            cmd = [CLANG] + flags(cxx) + list(extra) + ['-Xclang', '-ast-dump=json']
            if f:
                cmd += ['-Xclang', '-ast-dump-filter=' + f]
            cmd.append(path)
            r = subprocess.run(['setarch', '-R'] + cmd, capture_output=True, text=True)
            if 'setarch' in r.stderr and not r.stdout:
                r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0:
                raise FrontEndError('clang failed on %s: %s' % (src, r.stderr[:2000]))
            return r.stdout
        fl = list(filters) if cxx else list(filters or [None])
        with ThreadPoolExecutor(4) as ex:
            outs = list(ex.map(run, fl))
        self.docs = []
        for o in outs:
            self.docs += _docs(o)
        if len(outs) > 1 and not self._consistent():
            # identities differ between the dumps (they are addresses inside clang): take one dump of everything
            self.docs = [d for d in _docs(run(None))[0]['inner'] if d.get('kind') == 'NamespaceDecl' and d.get('name') in ('levels', 'conviqt', None) or d.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'LinkageSpecDecl')]
        self._file = None
        for d in self.docs: _fill_lines(d)
        for d in self.docs:
            self._index(d, None, '')
        # constants outside the namespaces
        for nm in sorted(self._foreign()):
            for d in _docs(run(nm)):
                _fill_lines(d)
                if d.get('kind') == 'VarDecl' and d.get('name') == nm: self._index(d, None, '')
        # resolve out-of-line definitions: id of every redeclaration -> definition
        for f in [g for l in self.funcs.values() for g in l]:
            n = f.node
            seen = set()
            pid = n.get('previousDecl')
            while pid and pid not in seen:
                seen.add(pid)
                self.byid.setdefault(pid, f)
                pid = self.prev.get(pid)

    def _foreign(self):
        """names of arithmetic constants that are used but not declared in the dumps"""
        known, used = set(), set()
        def walk(x):
            if isinstance(x, dict):
                if x.get('kind') == 'VarDecl': known.add(x.get('name'))
                r = x.get('referencedDecl')
                if r and r.get('kind') == 'VarDecl' and re.match(r'const (unsigned )?(char|short|int|long|long long|float|double|bool|std::size_t|size_t)$', r['type']['qualType']): used.add(r['name'])
                for c in x.get('inner', []): walk(c)
        for d in self.docs: walk(d)
        return used - known

    def _consistent(self):
        """do the identities used in one dump name the declarations of the other?"""
        known, ids = set(), set()
        def decls(x):
            if isinstance(x, dict):
                if x.get('kind') in ('FunctionDecl', 'CXXMethodDecl') and 'type' in x and 'loc' in x:
                    ids.add(x['id']); known.add((x.get('name'), x['type']['qualType']))
                for c in x.get('inner', []): decls(c)
        for d in self.docs: decls(d)
        bad = []
        def refs(x):
            if isinstance(x, dict):
                r = x.get('referencedDecl')
                if r and r.get('kind') in ('FunctionDecl', 'CXXMethodDecl') and (r.get('name'), r['type']['qualType']) in known and r['id'] not in ids: bad.append(r)
                for c in x.get('inner', []): refs(c)
        for d in self.docs: refs(d)
        return not bad

    def _index(self, n, cls, ns):
        k = n.get('kind')
        if k == 'NamespaceDecl' or k == 'LinkageSpecDecl' or k == 'TranslationUnitDecl':
            for c in n.get('inner', []):
                self._index(c, cls, ns)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'RecordDecl', 'ClassTemplatePartialSpecializationDecl'):
            name = n.get('name', '')
            if k == 'ClassTemplateSpecializationDecl':
                args = []
                for c in n.get('inner', []):
                    if c.get('kind') == 'TemplateArgument':
                        if 'type' in c:
                            args.append(norm(c['type']['qualType']))
                        elif 'value' in c:
                            args.append(str(c['value']))
                name = name + '<' + ', '.join(args) + '>'
            self._cid = getattr(self, '_cid', {})
            self._cid[n.get('id')] = name
            fields, bases = [], [norm(b['type']['qualType']) for b in n.get('bases', [])]
            for c in n.get('inner', []):
                if c.get('kind') == 'FieldDecl':
                    t = c['type']
                    fields.append((c.get('name', ''), t.get('desugaredQualType', t['qualType'])))
                self._index(c, name, ns)
            if not name: self._anon = getattr(self, '_anon', {}); self._anon[n['id']] = {'fields': fields, 'bases': bases}
            elif n.get('completeDefinition') or fields:
                r = self.records.setdefault(name, {'fields': [], 'bases': []})
                if fields or bases:
                    r['fields'], r['bases'] = fields, bases
        elif k == 'TypedefDecl':
            for c in n.get('inner', []):
                g = c.get('ownedTagDecl')
                if g and g['id'] in getattr(self, '_anon', {}): self.records.setdefault(n['name'], self._anon[g['id']])
        elif k == 'EnumDecl':
            v = -1
            if n.get('name') and ns_enum(n['name']):
                from . import prof, engine
                if n['name'] not in prof.ENUMS:
                    prof.ENUMS[n['name']] = 1; engine._tc.clear()
                    if cls: prof.ENUMS[cls + '::' + n['name']] = 1
            for c in n.get('inner', []):
                if c.get('kind') != 'EnumConstantDecl': continue
                e = [x for x in c.get('inner', []) if 'value' in x]
                v = v + 1 if not c.get('inner') else int(e[0]['value']) if e else None
                if v is None: break
                self.enums[c['id']] = v
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            if cls is None and n.get('parentDeclContextId'):
                cls = getattr(self, '_cid', {}).get(n['parentDeclContextId'])
            qual = (cls + '::' if cls else '') + n.get('name', '')
            f = Func(n, cls, qual, None)
            f.unit = self
            self.decls[n['id']] = f
            if n.get('previousDecl'):
                self.prev[n['id']] = n['previousDecl']
            if f.body is not None:
                l = self.funcs.setdefault(qual, [])
                if not any(g.id == f.id for g in l):
                    l.append(f)
                self.byid[n['id']] = f
        elif k in ('FunctionTemplateDecl', 'ClassTemplateDecl'):
            pattern_seen = False
            for c in n.get('inner', []):
                ck = c.get('kind')
                if ck in ('FunctionDecl', 'CXXMethodDecl', 'CXXRecordDecl', 'CXXConstructorDecl'):
                    if not pattern_seen:
                        pattern_seen = True
                        if ck == 'CXXRecordDecl' or ck == 'CXXConstructorDecl':
                            continue
                        continue
                if ck in ('FunctionDecl', 'CXXMethodDecl', 'ClassTemplateSpecializationDecl', 'CXXConstructorDecl'):
                    self._index(c, cls, ns)
        elif k == 'VarDecl':
            if [c for c in n.get('inner', []) if not c.get('kind', '').endswith('Attr')]:
                self.vars[n['name']] = n
        elif k == 'ClassTemplateSpecializationDecl':
            pass

    def find(self, qual, ntype=None):
        l = self.funcs.get(qual, [])
        if ntype is not None:
            m = [f for f in l if norm(f.type) == norm(ntype)]
            if m:
                l = m
        return l
