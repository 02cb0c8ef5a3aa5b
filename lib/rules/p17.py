"""Dataflow over all arguments designating files in stream openings and filesystem calls: each one is the result of the URL-stripping
function or of canonicalising a path, passed on through local variables, reference parameters and helper functions (must-analysis; values
of parameters are established at every call site)."""
from backup import strip, FS
from effects import openmode

EXPLAIN = __doc__
ASSUME = ['std::filesystem::canonical() returns a local path']
STRIP = 'TagParser::BasicFileInfo::pathForOpen'
PASS = ('makeNativePath', 'std::move', 'std::forward', 'std::basic_string', 'absolute', 'std::filesystem::path')
METH = ('data', 'c_str', 'string', 'native', 'u8string', 'operator basic_string_view', 'parent_path', 'path', 'begin', 'end')


class Paths:
    def __init__(self, sh):
        self.sh, self.p = sh, sh.p
        self.sets = {}
        self.ens = {}
        self.callers = {}
        for f in sh.p.repo_fns():
            for n, ts in sh.calls(f):
                for t in ts:
                    self.callers.setdefault(t, []).append((f, n))

    def clean(self, fn, e, vars, depth=0):
        """(clean?, offending expression); vars: clean variables at this point ('p' marks untouched parameters)"""
        e = strip(e)
        if e is None:
            return True
        if depth > 15:
            return False
        k = e['k']
        if k in ('Str', 'Null0', 'Char', 'Int') or 'cv' in e:
            return True
        if k == 'Var':
            if e['v'] in vars:
                return True
            if ('p', e['v']) in vars:
                return self.param(fn, e['v'])
            return False
        q = e.get('q', '')
        if k == 'Call':
            if q == STRIP:
                return True
            if q == FS + 'canonical' or q == FS + 'weakly_canonical':
                return True
            g = self.p.fns.get(e.get('fn'))
            if g is not None and g.file.startswith(self.p.repo + '/') and g.body:
                return self.returns(g)
            return all(self.clean(fn, c, vars, depth + 1) for c in e['c'] if c and self.isstr(fn, c))
        if k == 'MCall':
            g = self.p.fns.get(e.get('fn'))
            if g is not None and g.file.startswith(self.p.repo + '/') and g.body:
                return self.returns(g)
            if q.split('::')[-1] in METH or q.startswith(('std::basic_string', 'std::filesystem')):
                return self.clean(fn, e['obj'], vars, depth + 1)
            return False
        if k == 'Member':
            return False
        if k == 'Cond':
            return self.clean(fn, e['c'][1], vars, depth + 1) and self.clean(fn, e['c'][2], vars, depth + 1)
        if k in ('Ctor', 'OCall', 'Bin', 'InitList', 'FnCast', 'Index', 'Un'):
            return all(self.clean(fn, c, vars, depth + 1) for c in e.get('c', []) if c and c['k'] != 'DefArg' and self.isstr(fn, c))
        return False

    def isstr(self, fn, c):
        s = strip(c)
        if s is None:
            return False
        t = fn.ty(c).get('s', '') + fn.ty(s).get('s', '')
        return 'error_code' not in t and ('string' in t or 'char' in t or 'path' in t or 'Tuple' in t or 'tuple' in t)

    def returns(self, g):
        """every returned value is clean"""
        r = self.ens.get(('ret', g.id))
        if r is None:
            self.ens[('ret', g.id)] = True
            cfg = self.sh.cfgs.get(g.id)
            S = self.flow(g)
            r = any(n.k == 'r' for n in cfg.nodes)
            for n in cfg.nodes:
                if n.k == 'r' and n.i in S and n.a.get('c') and n.a['c'][0]:
                    r = r and self.clean(g, n.a['c'][0], S[n.i])
            self.ens[('ret', g.id)] = r
        return r

    def param(self, fn, v):
        """clean at every call site"""
        key = ('par', fn.id, v)
        r = self.ens.get(key)
        if r is None:
            self.ens[key] = True
            idx = [i for i, p in enumerate(fn.params) if p.get('id') == v][0]
            cs = self.callers.get(fn.id, [])
            r = bool(cs)
            for g, n in cs:
                a = n.get('c', [])
                if n['k'] == 'OCall' and n.get('m'):
                    a = a[1:]
                if n['k'] not in ('Call', 'MCall', 'OCall', 'Ctor') or idx >= len(a):
                    r = False
                    continue
                S = self.flow(g)
                node = [m for m in self.sh.cfgs.get(g.id).nodes if m.k == 'e' and m.a is n and m.i in S]
                r = r and all(self.clean(g, a[idx], S[m.i]) for m in node)
            self.ens[key] = r
        return r

    def ensures(self, g, i):
        """reference parameter i is clean when g returns normally"""
        key = ('ens', g.id, i)
        r = self.ens.get(key)
        if r is None:
            self.ens[key] = False
            cfg = self.sh.cfgs.get(g.id)
            S = self.flow(g)
            r = cfg.exit.i in S and i < len(g.params) and g.params[i].get('id') in S[cfg.exit.i]
            self.ens[key] = r
        return r

    def flow(self, fn):
        S = self.sets.get(fn.id)
        if S is not None:
            return S
        cfg = self.sh.cfgs.get(fn.id)
        init = frozenset(('p', p['id']) for p in fn.params if 'id' in p)
        if 'lambda' in fn.d:
            init |= {x for x in self.captured(fn)}
        S = self.sets[fn.id] = {cfg.entry.i: init}
        work = [cfg.entry]
        while work:
            n = work.pop()
            s = S[n.i]
            o = self.transfer(fn, n, s)
            for lab, m in n.succ:
                x = o if not (isinstance(lab, tuple) and lab[0] == 'x') else o & s
                old = S.get(m.i)
                new = x if old is None else old & x
                if new != old:
                    S[m.i] = new
                    work.append(m)
        return S

    def captured(self, fn):
        g = self.p.fns.get(fn.d['lambda'])
        if g is None or g.id in self.sets and False:
            return ()
        out = None
        S = self.flow(g)
        for m in self.sh.cfgs.get(g.id).nodes:
            if m.k == 'e' and m.a['k'] == 'Lambda' and fn.id in m.a['fns'] and m.i in S:
                out = S[m.i] if out is None else out & S[m.i]
        return {x for x in out or () if not isinstance(x, tuple)}

    def transfer(self, fn, n, s):
        a = n.a
        if n.k == 'd':
            if 'id' not in a:
                return s
            s = s - {a['id'], ('p', a['id'])}
            return s | {a['id']} if a.get('i') and self.clean(fn, a['i'], s) else s
        if n.k != 'e':
            return s
        k = a['k']
        if k == 'Assign' or k == 'OCall' and a['op'] == '=':
            t = strip(a['c'][0])
            if t is not None and t['k'] == 'Var':
                c = self.clean(fn, a['c'][1], s)
                s = s - {t['v'], ('p', t['v'])}
                return s | {t['v']} if c else s
            return s
        if k == 'OCall' and a['op'] == '+=' or k == 'MCall' and a.get('q', '').split('::')[-1] in ('append', 'push_back', 'erase', 'substr'):
            t = strip(a['c'][0] if k == 'OCall' else a['obj'])
            args = a['c'][1:] if k == 'OCall' else a['c']
            if t is not None and t['k'] == 'Var' and all(self.clean(fn, x, s) for x in args if x and self.isstr(fn, x)):
                return s
            return s - {t['v'], ('p', t['v'])} if t is not None and t['k'] == 'Var' else s
        if k in ('Call', 'MCall', 'OCall', 'Ctor'):
            args = a.get('c', [])
            if k == 'OCall' and a.get('m'):
                args = args[1:]
            mu = a.get('mu') or []
            for i, x in enumerate(args):
                t = strip(x)
                if t is not None and t['k'] == 'Un' and t['op'] == '&':
                    t = strip(t['c'][0])
                if t is None or t['k'] != 'Var' or i >= len(mu) or not mu[i]:
                    continue
                g = self.p.fns.get(a.get('fn'))
                e = g is not None and (g.body is not None) and not a.get('virt') and self.ensures(g, i)
                s = s - {t['v'], ('p', t['v'])}
                if e:
                    s = s | {t['v']}
            if k == 'MCall' and not a.get('mc') and a.get('obj') is not None:
                t = strip(a['obj'])
                if t is not None and t['k'] == 'Var' and a.get('q', '').split('::')[-1] in ('assign', 'swap', 'insert', 'replace', 'clear', 'replace_extension', 'replace_filename'):
                    if not all(self.clean(fn, x, s) for x in a['c'] if x and self.isstr(fn, x)):
                        s = s - {t['v'], ('p', t['v'])}
        return s


def run(ctx):
    p, sh = ctx.p, ctx.sh
    P = Paths(sh)
    for f in p.repo_fns():
        cfg = None
        for n in f.nodes():
            o = openmode(f, n)
            args = []
            if o:
                args = [o[0]]
                rule = 'open'
            elif n['k'] == 'Call' and n.get('q', '').startswith(FS) and not n['q'].startswith(FS + 'path'):
                args = [x for x in n['c'] if x and 'path' in f.ty(x).get('s', '') and 'error_code' not in f.ty(x).get('s', '')]
                rule = 'filesystem'
            if not args or n['q'].startswith(FS + 'operator'):
                continue
            cfg = sh.cfgs.get(f.id)
            S = P.flow(f)
            at = [m for m in cfg.nodes if m.k == 'e' and m.a is n and m.i in S]
            for m in at[:4]:
                for i, x in enumerate(args):
                    ctx.check(P.clean(f, x, S[m.i]), rule, f, n, 'argument %d of %s()' % (i + 1, n['q'].split('::')[-1]),
                              'path is not derived from pathForOpen()/a canonical path on every path; a file given as URL is not found')
    ctx.need('open', 6)
    ctx.need('filesystem', 4)
