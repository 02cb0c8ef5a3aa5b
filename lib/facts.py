"""Loads the resolved program (see tool/extract.cpp) of the repository's current working tree."""
import os, sys, json, subprocess, hashlib, shutil, glob, time, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, '.build'))
LLVM = '/usr/lib/llvm-18'


class AnalysisBroken(Exception):
    """The analysis could not be carried out (not a verdict on the code)."""


def build_tool():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'extract-' + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    fl = subprocess.check_output([LLVM + '/bin/llvm-config', '--cxxflags'], text=True).split()
    tmp = exe + '.%d.tmp' % os.getpid()
    cxx = shutil.which('clang++') or LLVM + '/bin/clang++'
    cmd = [cxx, '-O1'] + fl + ['-fno-rtti', '-w', src, '-o', tmp, '-L' + LLVM + '/lib', '-l:libclang-cpp.so.18.1',
                               '-l:libLLVM-18.so', '-Wl,-rpath,' + LLVM + '/lib']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('cannot build the fact extractor: ' + r.stderr[-2000:])
    os.replace(tmp, exe)
    return exe


def source_files(repo):
    out = []
    for root, dirs, files in os.walk(repo):
        rel = os.path.relpath(root, repo)
        dirs[:] = [d for d in dirs if not d.startswith('.') and not (rel == '.' and d in ('tests', 'doc', '_build', 'testfiles', 'cmake', 'scripts'))
                   and not d.startswith('_build') and not d.startswith('build')]
        for f in files:
            if f.endswith('.cpp'):
                out.append(os.path.normpath(os.path.join(root, f)))
    return sorted(out)


def _flags(repo, wd):
    res = os.path.join(repo, '_build')
    if not (os.path.exists(res + '/resources/config.h') and os.path.exists(res + '/resources/iso_language_codes.h')):
        res = os.path.join(VERIF, 'stubs')
    return ['-DCHRONO_UTILITIES_TIMESPAN_INTEGER_SCALE_OVERLOADS', '-DCPP_UTILITIES_USE_NATIVE_FILE_BUFFER', '-DTAG_PARSER_STATIC',
            '-I' + repo, '-I' + res, '-isystem', '/usr/include/martchus-c++utilities', '-I' + wd + '/shim', '-I' + os.path.join(VERIF, 'stubs'),
            '-DNDEBUG', '-std=gnu++17', '-w', '-resource-dir', LLVM + '/lib/clang/18']


def _run_extract(exe, out, src, roots, flags, wd):
    r = subprocess.run([exe, out, src, roots, '--'] + flags, capture_output=True, text=True, cwd=wd)
    if r.returncode or not os.path.exists(out) or os.path.getsize(out) == 0:
        return r.stderr[-3000:] or 'no output'
    return None


def digest(repo):
    h = hashlib.sha256()
    h.update(open(os.path.join(VERIF, 'tool', 'extract.cpp'), 'rb').read())
    h.update(open(os.path.join(VERIF, 'stubs', 'instantiate.inc'), 'rb').read())
    h.update(repo.encode())
    for root, dirs, files in sorted(os.walk(repo)):
        if '/.git' in root or '/_build' in root[len(repo):] or '/testfiles' in root:
            continue
        for f in sorted(files):
            if f.endswith(('.cpp', '.h', '.hpp', '.in')):
                p = os.path.join(root, f)
                h.update(p.encode())
                try:
                    h.update(open(p, 'rb').read())
                except OSError:
                    pass
    return h.hexdigest()[:24]


def extract(repo=None, files=None, extra_flags=(), roots=None):
    """Returns the list of raw dumps (one per analysed unit)."""
    repo = repo or REPO
    exe = build_tool()
    os.makedirs(BUILD, exist_ok=True)
    wd = tempfile.mkdtemp(prefix='w', dir=BUILD)
    try:
        os.makedirs(wd + '/shim')
        os.symlink(repo, wd + '/shim/tagparser')
        flags = _flags(repo, wd) + list(extra_flags)
        roots = roots or (repo + '/,/usr/include/martchus-c++utilities/,' + wd + '/shim/tagparser/')
        srcs = files or source_files(repo)
        if len(srcs) < 1:
            raise AnalysisBroken('no sources found in ' + repo)
        unity = wd + '/unity.cpp'
        out = wd + '/all.json'
        err = None
        for inst in ((True, False) if files is None else (False,)):
            with open(unity, 'w') as f:
                for s in srcs:
                    f.write('#include "%s"\n' % s)
                if inst:
                    f.write('#include "%s"\n' % os.path.join(VERIF, 'stubs', 'instantiate.inc'))
            err = _run_extract(exe, out, unity, roots, flags, wd)
            if err is None:
                break
        dumps = []
        if err is None:
            dumps.append(json.load(open(out)))
        else:
            # a single combined unit does not compile (e.g. equal static names in two files): analyse each file on its own
            def one(i):
                o = '%s/%d.json' % (wd, i)
                e = _run_extract(exe, o, srcs[i], roots, flags, wd)
                if e:
                    raise AnalysisBroken('cannot analyse %s: %s' % (srcs[i], e))
                return json.load(open(o))
            with ThreadPoolExecutor(8) as ex:
                dumps = list(ex.map(one, range(len(srcs))))
        shim = wd + '/shim/tagparser/'
        for d in dumps:
            for key in ('functions', 'records', 'enums', 'globals'):
                for e in d[key]:
                    fn = e['file']
                    if fn.startswith(shim):
                        fn = repo + '/' + fn[len(shim):]
                    e['file'] = os.path.normpath(fn)
        return dumps, len(srcs)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def walk(n, f):
    """pre-order visit of all AST nodes below n"""
    if isinstance(n, dict):
        if 'k' in n:
            f(n)
        for v in n.values():
            if type(v) in (dict, list):
                walk(v, f)
    elif isinstance(n, list):
        for x in n:
            if type(x) in (dict, list):
                walk(x, f)


def nodes(n):
    """all AST nodes below n (pre-order)"""
    st = [n]
    while st:
        x = st.pop()
        if type(x) is dict:
            if 'k' in x:
                yield x
            vs = [v for v in x.values() if type(v) in (dict, list)]
            st.extend(reversed(vs))
        elif type(x) is list:
            st.extend(reversed([v for v in x if type(v) in (dict, list)]))


class Fn:
    __slots__ = ('d', 'T', 'id', 'q', 'n', 'file', 'l', 'body', 'inits', 'params', 'rec', 'prog', '_cfg', '_cfgt', 'extra')

    def __init__(self, d, T, prog):
        self.d, self.T, self.prog = d, T, prog
        self.id, self.q, self.n, self.file, self.l = d['id'], d['q'], d['n'], d['file'], d['l']
        self.body = d.get('body')
        self.inits = d.get('inits', [])
        self.params = d.get('params', [])
        self.rec = d.get('rec')
        self._cfg = None
        self.extra = {}

    def __repr__(self):
        return '<Fn %s>' % self.q

    @property
    def rel(self):
        r = self.prog.repo + '/'
        return self.file[len(r):] if self.file.startswith(r) else self.file

    def where(self, n=None):
        return '%s:%s' % (self.rel, n['l'] if isinstance(n, dict) and 'l' in n else self.l)

    def roots(self):
        out = [i['e'] for i in self.inits if i.get('e')]
        if self.body:
            out.append(self.body)
        return out

    def nodes(self):
        for r in self.roots():
            yield from nodes(r)

    def ty(self, n):
        """type record of an expression"""
        t = n.get('t', -1) if n else -1
        return self.T[t] if t is not None and t >= 0 else {}


class Program:
    def __init__(self, dumps, repo, nsrc):
        self.repo = repo
        self.nsrc = nsrc
        self.fns = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.tbl = []
        for d in dumps:
            T = d['types']
            self.tbl.append(T)
            for f in d['functions']:
                if f['id'] in self.fns and (self.fns[f['id']].body or not f.get('body')):
                    continue
                self.fns[f['id']] = Fn(f, T, self)
            for r in d['records']:
                if r['n'] not in self.records:
                    r['T'] = T
                    self.records[r['n']] = r
            for e in d['enums']:
                self.enums.setdefault(e['q'], e)
            for g in d['globals']:
                g['T'] = T
                self.globals.setdefault(g['gid'], g)
        # class hierarchy (by canonical name), also for external classes seen as types
        self.bases = {}
        for T in self.tbl:
            for t in T:
                if t.get('k') == 'rec' and 'b' in t:
                    self.bases.setdefault(t['s'], [T[b]['s'] for b in t['b']])
        for r in self.records.values():
            self.bases.setdefault(r['n'], [r['T'][b]['s'] for b in r['bases']])
        self.derived = {}
        for c, bs in self.bases.items():
            for b in bs:
                self.derived.setdefault(b, set()).add(c)
        # overriders
        self.overriders = {}
        for r in self.records.values():
            for m in r['methods']:
                for o in m.get('over', ()):
                    self.overriders.setdefault(o, set()).add(m['id'])
        self.minfo = {}
        for r in self.records.values():
            for m in r['methods']:
                m['rec'] = r['n']
                self.minfo[m['id']] = m
        self.byq = {}
        for f in self.fns.values():
            self.byq.setdefault(f.q, []).append(f)
        self.lambda_parent = {f.id: f.d['lambda'] for f in self.fns.values() if 'lambda' in f.d}
        self._anc = {}
        # closure types -> call operators
        self.closures = {}
        for f in self.fns.values():
            for n in f.nodes():
                if n['k'] == 'Lambda' and n.get('t', -1) >= 0 and f.T[n['t']].get('k') == 'rec':
                    self.closures.setdefault(f.T[n['t']]['s'], n['fns'])
        self.invoked = set()
        ops = {x for l in self.closures.values() for x in l}
        if ops:
            for f in self.fns.values():
                for n in f.nodes():
                    if n['k'] in ('Call', 'MCall', 'OCall', 'Ctor'):
                        if n.get('fn') in ops:
                            self.invoked.add(n['fn'])
                        self.invoked.update(self.handed(f, n))

    def handed(self, fn, n):
        """call operators of the closures passed to a function without known body"""
        if n['k'] not in ('Call', 'MCall', 'OCall', 'Ctor') or not self.closures:
            return ()
        q = n.get('q', '')
        if q in ('std::move', 'std::forward'):
            return ()
        out = []
        for a in n.get('c', []):
            if a is None or a.get('t', -1) < 0:
                continue
            s = fn.T[a['t']].get('s')
            l = self.closures.get(s[6:] if s and s.startswith('const ') else s)
            if l:
                out += l
        if not out or n['k'] == 'Ctor' and n.get('t', -1) >= 0 and fn.T[n['t']].get('s') in self.closures:
            return ()
        if n.get('fn') in out:
            return ()       # direct call of a call operator
        ts = self.targets(n)
        if ts and all(t in self.fns and (self.fns[t].body or self.fns[t].inits) for t in ts):
            return ()
        return out

    # ---- lookups
    def q(self, name, must=True):
        """functions by qualified name (with or without the TagParser:: prefix)"""
        l = self.byq.get(name) or self.byq.get('TagParser::' + name) or []
        if must and not l:
            raise AnalysisBroken('anchor function %s not found' % name)
        return l

    def rec(self, name, must=True):
        r = self.records.get(name) or self.records.get('TagParser::' + name)
        if must and not r:
            raise AnalysisBroken('anchor class %s not found' % name)
        return r

    def enum(self, name):
        e = self.enums.get(name) or self.enums.get('TagParser::' + name)
        if not e:
            raise AnalysisBroken('anchor enum %s not found' % name)
        return e

    def repo_fns(self):
        p = self.repo + '/'
        return [f for f in self.fns.values() if f.file.startswith(p)]

    def ancestors(self, cls):
        """cls and all its bases (canonical names)"""
        r = self._anc.get(cls)
        if r is None:
            r = {cls}
            for b in self.bases.get(cls, ()):
                r |= self.ancestors(b)
            self._anc[cls] = r
        return r

    def isa(self, cls, base):
        return base in self.ancestors(cls)

    def all_overriders(self, fid):
        out, st = set(), [fid]
        while st:
            x = st.pop()
            for o in self.overriders.get(x, ()):
                if o not in out:
                    out.add(o)
                    st.append(o)
        return out

    def targets(self, n):
        """possible callee function ids of a call node (over-approximated for virtual calls)"""
        fid = n.get('fn')
        if not fid:
            return []
        if n.get('virt'):
            return [fid] + sorted(self.all_overriders(fid))
        return [fid]


def _stable(fns, T, n, depth=0):
    """lvalue path which designates the same object as long as the variables it starts from exist"""
    if n is None or depth > 8:
        return False
    k = n['k']
    if k == 'This':
        return True
    if k == 'Var':
        return T[n['t']].get('k') not in ('ptr',) if n.get('t', -1) >= 0 else False
    if k == 'Un' and n['op'] == '*':
        return n['c'][0]['k'] == 'This'
    if k == 'Member':
        if not n.get('c') or n['c'][0] is None:
            return False
        return (not n.get('arrow') or n['c'][0]['k'] == 'This') and _stable(fns, T, n['c'][0], depth + 1)
    if k == 'Cast':
        return n.get('ck') in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase') and bool(n.get('c')) and _stable(fns, T, n['c'][0], depth + 1)
    if k == 'MCall' and not n.get('c') and not n.get('virt') and n.get('obj') is not None:
        g = fns.get(n.get('fn'))
        if g is None or g.get('rt', -1) < 0 or not g.get('body') or g['body']['k'] != 'Compound':
            return False
        b = [x for x in g['body']['c'] if x and x['k'] != 'Null']
        if len(b) != 1 or b[0]['k'] != 'Return' or not b[0].get('c') or T[g['rt']].get('k') != 'ref':
            return False
        return (not n.get('arrow') or n['obj']['k'] == 'This') and _stable(fns, T, b[0]['c'][0], depth + 1) and _stable(fns, T, n['obj'], depth + 1)
    return False


def dealias(d, repo):
    """replaces uses of local references to members and variables by what they refer to"""
    T = d['types']
    fns = {f['id']: f for f in d['functions']}
    alias = {}
    for f in d['functions']:
        if not f['file'].startswith(repo + '/') or not f.get('body'):
            continue
        for n in nodes(f['body']):
            if n['k'] == 'DeclStmt':
                for v in n.get('decls', ()):
                    if v and v.get('i') and not v.get('static') and v.get('t', -1) >= 0 and T[v['t']].get('k') == 'ref' and _stable(fns, T, v['i']):
                        alias[v['id']] = v['i']
    if not alias:
        return 0

    def copy(n, l):
        if isinstance(n, dict):
            r = {k: copy(v, l) for k, v in n.items()}
            if 'l' in r:
                r['l'] = l
            return r
        return [copy(x, l) for x in n] if isinstance(n, list) else n

    def replace(root):
        again = True
        while again:
            again = False
            for n in list(nodes(root)):
                if n['k'] == 'Var' and n.get('v') in alias:
                    e = copy(alias[n['v']], n.get('l', 0))
                    n.clear()
                    n.update(e)
                    again = True
        for n in nodes(root):
            c = (n.get('c') or [None])[0] if n['k'] == 'Member' else None
            if c and c['k'] == 'Un' and c['op'] == '*' and c['c'][0]['k'] == 'This':
                n['c'][0] = c['c'][0]
                n['arrow'] = 1

    for f in d['functions']:
        if f['file'].startswith(repo + '/') and f.get('body'):
            replace(f['body'])
    return len(alias)


_prog = None


def load(repo=None):
    global _prog
    repo = os.path.realpath(repo or REPO)
    if _prog and _prog.repo == repo:
        return _prog
    t = time.time()
    os.makedirs(BUILD, exist_ok=True)
    key = digest(repo)
    cache = os.path.join(BUILD, 'facts-%s.json' % key)
    if os.path.exists(cache) and not os.environ.get('VP_NOCACHE'):
        try:
            dumps, nsrc = json.load(open(cache))
        except Exception:
            dumps, nsrc = extract(repo)
    else:
        dumps, nsrc = extract(repo)
        for old in glob.glob(os.path.join(BUILD, 'facts-*.json')):
            if len(glob.glob(os.path.join(BUILD, 'facts-*.json'))) > 6:
                try:
                    os.unlink(old)
                except OSError:
                    pass
        tmp = cache + '.%d' % os.getpid()
        json.dump([dumps, nsrc], open(tmp, 'w'))
        os.replace(tmp, cache)
    sys.setrecursionlimit(20000)
    aliases = sum(dealias(d, repo) for d in dumps)
    _prog = Program(dumps, repo, nsrc)
    _prog.aliases = aliases
    _prog.load_s = time.time() - t
    n = len(_prog.repo_fns())
    if n < 900:
        raise AnalysisBroken('only %d functions of the repository were analysed (expected > 900)' % n)
    return _prog
