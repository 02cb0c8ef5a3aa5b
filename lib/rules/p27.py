"""Parsing again starts clean. (reset) For every container format, every data member which parsing may modify (mod analysis over everything
reachable from the parse methods) is put back on every path of the format's reset function, to the value the constructor sets where both are
constants; likewise for file elements, and for members which are library objects themselves the function called to put them back
has to cover all of what their own methods modify. (again) Typestate over the parse methods of the containers, MediaFileInfo and the re-parsable
objects: starting with unknown contents, adding to a member (push_back, emplace, +=, ...) taints the attempt unless the member has been emptied
or assigned before within the same attempt; a tainted attempt must not end without being recorded as completed (container: normal return, upon which
the flag is set; MediaFileInfo: status other than "not parsed yet"; objects without such record: not at all), as it would then be repeated."""
from vals import ValState, V, NotIn
from rules.p26 import unc, own, RESET, NS
from mfi import Mfi
from facts import nodes

EXPLAIN = __doc__
ADD = ('push_back', 'emplace_back', 'insert', 'emplace', 'append', 'emplace_hint', 'try_emplace', 'insert_or_assign', 'push_front', 'emplace_front', 'push', 'operator+=')
THROUGH = ('back', 'front', 'at', 'begin', 'end', 'rbegin', 'find', 'operator[]', 'find_if')
PARTS = ('Header', 'Tags', 'Tracks', 'Chapters', 'Attachments')
CONTAINERS = ('Mp4Container', 'MatroskaContainer', 'OggContainer')
# parse methods without any record of having been completed: may be called any number of times
AGAIN = ('MatroskaEditionEntry::parse', 'MatroskaEditionEntry::parseNested', 'AbstractChapter::parse', 'AbstractChapter::parseNested', 'MatroskaCuePositionUpdater::parse',
         'Mp4TagField::reparse', 'MatroskaTagField::reparse', 'OggPage::parseHeader')
CONCRETE = {'AbstractChapter': 'MatroskaChapter'}
EXEMPT = {
    ('OggIterator', 'm_idFilter'): 'only used together with m_hasIdFilter',
    ('AbstractContainer', 'm_stream'): 'the stream the container works on',
    ('GenericFileElement', 'm_startOffset'): 'where the element is located; not a result of parsing',
    ('GenericFileElement', 'm_maxSize'): 'where the element is located',
    ('GenericFileElement', 'm_parent'): 'where the element is located',
}


class Roots:
    def __init__(self, p):
        self.p = p

    def ret(self, t, depth=0):
        """(function, expression) returned by an accessor returning a reference"""
        if t is None or not t.body or t.body['k'] != 'Compound' or not t.body['c']:
            return None
        if t.T[t.d['rt']].get('k') != 'ref':
            return None
        s = [x for x in t.body['c'] if x and x['k'] != 'Null']
        return s[-1]['c'][0] if s and s[-1]['k'] == 'Return' and s[-1].get('c') else None

    def root(self, f, n, depth=0):
        """path of members starting at *this which the lvalue designates; None if an element of a list is designated"""
        n = unc(n)
        if n is None or depth > 10:
            return None
        m = own(f, n)
        if m:
            return m
        k = n['k']
        if k == 'Member' and n.get('c'):
            r = self.root(f, n['c'][0], depth + 1)
            return r + '.' + n['n'] if r else None
        if k == 'OCall' and n['op'] in ('->', '*') and len(n['c']) == 1 and n.get('q', '').startswith(('std::unique_ptr', 'std::shared_ptr', 'std::optional', 'std::__shared_ptr')):
            return self.root(f, n['c'][0], depth + 1)
        if k == 'MCall' and n.get('obj') is not None:
            nm = n.get('q', '').split('::')[-1]
            o = unc(n['obj'])
            t = self.p.fns.get(n.get('fn'))
            if n.get('c') or nm in THROUGH:
                return None
            e = self.ret(t)
            if o['k'] == 'This':
                return self.root(t, e, depth + 1) if e is not None else None
            r = self.root(f, o, depth + 1)
            if r and nm == 'get':
                return r
            x = self.root(t, e, depth + 1) if r and e is not None else None
            return r + '.' + x if x else None
        return None


class Resolve:
    """the program with virtual calls on the current object resolved for one class"""

    def __init__(self, p, cls):
        self.p = p
        self.order = linear(p, cls)

    def __getattr__(self, a):
        return getattr(self.p, a)

    def targets(self, n):
        ts = self.p.targets(n)
        if n['k'] == 'MCall' and n.get('virt') and n.get('obj') is not None and unc(n['obj'])['k'] == 'This' and len(ts) > 1:
            for c in self.order:
                r = [t for t in ts if t in self.p.fns and self.p.fns[t].rec == c]
                if r:
                    return r
        return ts


def linear(p, cls):
    """the class and its bases, nearest first"""
    return [cls] + sorted(p.ancestors(cls), key=lambda c: -len(p.ancestors(c)))


class Clean(ValState):
    """x: 'c:<member>' emptied/assigned in this attempt, 'a:<member>@<where>' added to without having been emptied"""

    def __init__(self, sh, cls, stop=(), status=None):
        super().__init__(sh)
        self.p = Resolve(sh.p, cls)
        self.fam = set(self.p.order)
        self.R = Roots(sh.p)
        self.stop = stop
        self.status = status
        self.sites, self.nest = set(), {}

    def keyok(self, key):
        return self.status is not None and (key == self.status)

    def track(self, key):
        return self.keyok(key)

    def descend(self, fid):
        f = self.p.fns[fid]
        return (f.rec in self.fam or 'lambda' in f.d) and fid not in self.stop and not f.d.get('role') and f.file.startswith(self.p.repo + '/')

    def relevant(self, fid):
        return fid in self.p.fns and self.descend(fid)

    def effect(self, fn, n, st):
        e = super().effect(fn, n, st)
        if self.status is None:
            return e._replace(env=frozenset(), ret=None)
        return e._replace(env=frozenset(kv for kv in e.env if kv[0] == self.status))

    def enter(self, fn, node, target, st):
        s = super().enter(fn, node, target, st)
        return s._replace(env=frozenset(kv for kv in s.env if kv[0] == self.status))

    def leave(self, fn, node, target, before, st, exc=None):
        return V(st.env if self.status else frozenset(), st.x, None)

    def clean(self, st, m):
        return st._replace(x=frozenset(e for e in st.x if not e.startswith(('a:%s@' % m, 'a:%s.' % m))) | {'c:' + m})

    def add(self, fn, a, st, m):
        self.sites.add((m, fn.where(a)))
        if self.known(st, m):
            return st
        return st._replace(x=st.x | {'a:%s@%s' % (m, fn.where(a))})

    @staticmethod
    def known(st, m):
        parts = m.split('.')
        return any('c:' + '.'.join(parts[:i + 1]) in st.x for i in range(len(parts))) or any(e.startswith('a:%s@' % m) for e in st.x)

    def numeric(self, fn, n):
        return fn.ty(n).get('k') not in ('enum', 'bool')

    def step(self, fn, n, st):
        if n.k != 'e':
            return None
        a = n.a
        k = a['k']
        s = st
        if k in ('Call', 'MCall', 'OCall', 'Ctor') and 'fn' in a:
            ts = self.p.targets(a)
            if any(t in self.stop for t in ts):
                return (st,) if self.status is None else (self.effect(fn, n, st),)
            same = k == 'MCall' and a.get('obj') is not None and unc(a['obj'])['k'] == 'This'
            if same and any(self.relevant(t) and self.p.fns[t].body for t in ts) or any('lambda' in self.p.fns[t].d for t in ts if t in self.p.fns):
                return None
        if k in ('Assign', 'CAssign') or k == 'OCall' and a['op'] in ('=', '+=', '-=', '*=', '<<=', '|=', '^=') and len(a['c']) == 2 or k in ('Un', 'OCall') and a['op'] in ('++', '--'):
            r = self.R.root(fn, a['c'][0])
            if r and k != 'CAssign' and a.get('op', '=') == '=' and len(a['c']) == 2:
                v = unc(a['c'][1])
                if v is not None and v['k'] in ('Bin', 'OCall') and v.get('op') in ('+', '|') and self.numeric(fn, a['c'][0]) and any(own(fn, x) == r for x in nodes(v)):
                    s = self.add(fn, a, s, r)
                else:
                    s = self.clean(s, r)
            elif r and self.numeric(fn, a['c'][0]) and fn.ty(a['c'][0]).get('k') != 'ptr':
                s = self.add(fn, a, s, r)
        elif k == 'MCall' and a.get('obj') is not None:
            nm = a.get('q', '').split('::')[-1]
            r = self.R.root(fn, a['obj'])
            if r:
                lib = a.get('fn') in self.p.fns and self.p.fns[a['fn']].file.startswith(self.p.repo + '/')
                if (nm in RESET or nm in ('assign', 'swap') or nm == 'resize' and unc(a['c'][0]).get('cv') == 0 or nm == 'erase' and len(a['c']) == 2):
                    if lib:
                        self.nest.setdefault(r, set()).add((a['fn'], fn.where(a)))
                    s = self.clean(s, r)
                elif nm in ADD and not lib:
                    s = self.add(fn, a, s, r)
        elif k == 'OCall' and a['op'] == '[]' and len(a['c']) == 2 and 'map<' in a.get('q', ''):
            r = self.R.root(fn, a['c'][0])
            if r:
                s = self.add(fn, a, s, r)
        elif k == 'Call' and a.get('q', '') in ('std::swap', 'std::exchange', 'std::move'):
            for x in a.get('c', ())[:1 if a['q'] != 'std::swap' else 2]:
                r = self.R.root(fn, x) if x else None
                if r and a['q'] != 'std::move':
                    s = self.clean(s, r)
        if k == 'MCall' and a.get('q', '').split('::')[-1] == 'swap' and a.get('c') and a['c'][0]:
            r = self.R.root(fn, a['c'][0])
            if r:
                s = self.clean(s, r)
        # members passed to helper functions
        if k in ('Call', 'MCall') and a.get('fn') in self.p.fns and self.p.fns[a['fn']].file.startswith(self.p.repo + '/'):
            for i, x in enumerate(a.get('c', ())):
                r = self.R.root(fn, x) if x and i < len(a.get('mu') or ()) and a['mu'][i] else None
                what = self.helper(a['fn'], i) if r else None
                if what == 'clean':
                    s = self.clean(s, r)
                elif what == 'add':
                    s = self.add(fn, a, s, r)
        # other objects calling back
        if k in ('Call', 'MCall', 'Ctor') and 'fn' in a:
            for m, w in sorted(self.foreign(a)):
                self.sites.add((m, w))
                if not self.known(s, m):
                    s = s._replace(x=s.x | {'a:%s@%s' % (m, w)})
        e = self.effect(fn, n, s)
        return (e._replace(x=s.x),)

    def helper(self, fid, i):
        """what a function does with the object passed as i-th argument: empties it (first), adds to it or neither"""
        memo = self.__dict__.setdefault('_hm', {})
        if (fid, i) not in memo:
            memo[fid, i] = None
            g = self.p.fns[fid]
            if g.body and i < len(g.params) and g.T[g.params[i]['t']].get('k') == 'ref':
                v = g.params[i]['id']

                def at(x):
                    x = unc(x)
                    return x is not None and x['k'] == 'Var' and x.get('v') == v
                top = [unc(x) for x in (g.body['c'] if g.body['k'] == 'Compound' else [g.body]) if x]
                for x in top:
                    if x['k'] == 'MCall' and at(x.get('obj')) and x.get('q', '').split('::')[-1] in RESET + ('assign', 'swap') or x['k'] in ('Assign', 'OCall') and x.get('op') == '=' and at(x['c'][0]):
                        memo[fid, i] = 'clean'
                        break
                    if any(y['k'] == 'MCall' and at(y.get('obj')) and y.get('q', '').split('::')[-1] in ADD for y in nodes(x)):
                        memo[fid, i] = 'add'
                        break
        return memo[fid, i]

    def event_x(self, fn, n, st, t):
        if n.k == 'e' and n.a['k'] in ('Call', 'MCall', 'OCall', 'Ctor') and 'fn' in n.a and any(x in self.stop for x in self.p.targets(n.a)):
            return (st,)
        return super().event_x(fn, n, st, t)

    def foreign(self, a):
        """members of the family added to by its functions when called through objects of other classes"""
        out = set()
        for t in self.p.targets(a):
            out |= self._foreign(t)
        return out

    def _foreign(self, t):
        memo = self.__dict__.setdefault('_fm', {})
        if t not in memo:
            memo[t] = set()
            f = self.p.fns.get(t)
            if f is not None and f.file.startswith(self.p.repo + '/') and f.rec not in self.fam:
                seen, work, out = {t}, [t], set()
                while work:
                    x = work.pop()
                    g = self.p.fns.get(x)
                    if g is None or not g.file.startswith(self.p.repo + '/') or x in self.stop:
                        continue
                    if g.rec in self.fam and 'lambda' not in g.d:
                        if not g.d.get('role'):
                            out |= self.direct(g)
                        continue
                    for y in self.sh.callees(x):
                        if y not in seen:
                            seen.add(y)
                            work.append(y)
                memo[t] = out
        return memo[t]

    def direct(self, g):
        out = set()
        for n in g.nodes():
            if n['k'] == 'MCall' and n.get('obj') is not None and n.get('q', '').split('::')[-1] in ADD:
                r = self.R.root(g, n['obj'])
                if r:
                    out.add((r, g.where(n)))
        return out

    def edge(self, fn, n, lab, st):
        st = super().edge(fn, n, lab, st)
        if st is not None and n.k == 'b' and lab in (True, False):
            c, want = unc(n.a), True
            while c is not None and c['k'] in ('Un', 'OCall') and c.get('op') == '!' and len(c['c']) == 1:
                c, want = unc(c['c'][0]), not want
            if c is not None and c['k'] == 'MCall' and c.get('obj') is not None:
                nm = c.get('q', '').split('::')[-1]
                if nm in ('empty', 'isEmpty') and lab == want or nm == 'size' and lab != want:
                    r = self.R.root(fn, c['obj'])
                    if r:
                        return self.clean(st, r)
        return st


def wrote(sh, reach, fam):
    """members of the classes modified by the functions"""
    out = {}
    for fid in sorted(reach):
        f = sh.p.fns.get(fid)
        if f is None or f.d.get('role') in ('ctor', 'dtor'):
            continue
        for q in sh.mod.direct.get(fid, ()):
            c, _, m = q.rpartition('::')
            if c in fam:
                out.setdefault((c, m), fid)
    return out


def initial(p, fam):
    """constants the constructors set"""
    vals = {}
    for c in reversed(fam):
        for f in p.repo_fns():
            if f.rec != c or f.d.get('role') != 'ctor' or f.d.get('copy') or f.d.get('move'):
                continue
            for i in f.inits:
                if 'field' in i or 'm' in i:
                    e = i.get('e') or i.get('init')
                    vals[i.get('field') or i.get('m')] = unc(e).get('cv') if e else None
            for n in f.nodes():
                if n['k'] == 'Assign':
                    m = own(f, n['c'][0])
                    if m:
                        vals[m] = n['c'][1].get('cv')
    return vals


def covers(ctx, f, cls, seen=()):
    """(members put back on all paths of f, spelled-out shortcomings of nested objects)"""
    T = Clean(ctx.sh, cls)
    ex, xx, par, cfg = T.explore(f, V(frozenset(), frozenset(), None))
    done = None
    for s in ex:
        c = {e[2:] for e in s.x if e.startswith('c:')}
        done = c if done is None else done & c
    return done or set(), T


def complete(ctx, f, cls, need, what):
    p, sh = ctx.p, ctx.sh
    done, T = covers(ctx, f, cls)
    T.done = done
    for (c, m), by in sorted(need.items()):
        if (c.replace(NS, '').split('<')[0], m) in EXEMPT:
            continue
        ctx.check(m in done, 'reset', f, None, '%s%s' % (c.replace(NS, '') + '::', m), 'not put back by %s although modified by %s' % (f.q.replace(NS, ''), p.fns[by].q.replace(NS, '')))
    for m, calls in sorted(T.nest.items()):
        for fid, where in sorted(calls):
            g = p.fns[fid]
            mine = {x.id for x in p.repo_fns() if x.rec == g.rec and not x.d.get('role')}
            need2 = {k: v for k, v in wrote(sh, mine, {g.rec}).items() if p.fns[v].id != fid}
            inner, _ = covers(ctx, g, g.rec)
            for (c, mm), by in sorted(need2.items()):
                if (c.replace(NS, '').split('<')[0], mm) in EXEMPT:
                    continue
                ctx.check(mm in inner, 'reset', g, None, '%s::%s' % (c.replace(NS, ''), mm), 'not put back when %s is reset at %s' % (m, where))
    return T


def run(ctx):
    p, sh = ctx.p, ctx.sh
    n = 0
    parse = {f.id for part in PARTS for f in p.q('AbstractContainer::parse' + part)}
    if len(parse) != len(PARTS):
        ctx.lost('AbstractContainer::parse*')
    for C in CONTAINERS:
        cls = NS + C
        order = linear(p, cls)
        R = Resolve(p, cls)
        roots = []
        for part in PARTS:
            for c in order:
                r = [f for f in p.repo_fns() if f.rec == c and f.n == 'internalParse' + part]
                if r:
                    roots.append((part, r[0]))
                    break
        if len(roots) < len(PARTS):
            ctx.lost(C + ' parse methods')
        # ---- reset
        reach = sh.reach([f for _, f in roots]) | parse
        need = wrote(sh, reach, set(order))
        reset = next((f for c in order for f in p.repo_fns() if f.rec == c and f.n == 'reset'), None)
        if reset is None:
            ctx.lost(C + '::reset')
        T = complete(ctx, reset, cls, need, C)
        vals = initial(p, order)
        final = last(ctx, T, reset)
        for m, v in sorted(final.items()):
            if m in vals and vals[m] is not None and v is not None:
                ctx.check(v == vals[m], 'initial', reset, None, '%s: %s is reset to what the constructor sets' % (C, m), 'reset to %s but constructed with %s' % (v, vals[m]))
        # ---- again
        for part, f in roots:
            if f.rec == NS + 'AbstractContainer':
                continue
            T = Clean(sh, cls, parse)
            ex, xx, par, cfg = T.explore(f, V(frozenset(), frozenset(), None))
            n += T.visits
            bad = {}
            for (t, s), key in xx.items():
                for e in s.x:
                    if e.startswith('a:'):
                        m, w = e[2:].split('@', 1)
                        bad.setdefault(m, (w, t, key))
            for m, (w, t, key) in sorted(bad.items()):
                ctx.bad('again', f, None, '%s: %s is added to without being emptied first although the attempt may fail and be repeated' % (C, m), 'added at %s, left by %s' % (w, t),
                        ['%s:%s' % (f.rel, l) for l in T.path(cfg, par, key)[-14:]])
            for m in sorted({m for m, _ in T.sites} - set(bad)):
                ctx.ok('again', f, None, '%s: %s' % (C, m))
    # ---- elements
    for f in sorted(p.repo_fns(), key=lambda f: f.id):
        if f.rec and f.rec.startswith(NS + 'GenericFileElement<') and f.n == 'clear':
            fam, clear = {f.rec}, f
            impl = [x for x in p.repo_fns() if x.n == 'internalParse' and f.rec in p.ancestors(x.rec or '')]
            own_ = [x for x in p.repo_fns() if x.rec == f.rec and x.n in ('parse', 'validateSubsequentElementStructure', 'makeBuffer')]
            need = {k: v for k, v in wrote(sh, {x.id for x in impl + own_}, fam).items()}
            complete(ctx, clear, f.rec, need, f.rec)
            done, _ = covers(ctx, clear, f.rec)
            ctx.check('m_parsed' in done, 'reset', clear, None, 'element is flagged as not parsed')
    # ---- MediaFileInfo
    M = Mfi(sh)
    entries = {f.id for part in M.status for f in p.q('MediaFileInfo::parse' + part)}
    for part, key in sorted(M.status.items()):
        f = p.q('MediaFileInfo::parse' + part)[0]
        T = Clean(sh, NS + 'MediaFileInfo', entries - {f.id}, key)
        ex, xx, par, cfg = T.explore(f, V(frozenset([(key, M.vals['NotParsedYet'])]), frozenset(), None))
        n += T.visits
        bad = {}
        for s, k in list(ex.items()) + [(s, k) for (_, s), k in xx.items()]:
            v = dict(s.env).get(key)
            settled = isinstance(v, NotIn) and M.vals['NotParsedYet'] in v or v is not None and not isinstance(v, NotIn) and v != M.vals['NotParsedYet']
            if settled:
                continue
            for e in s.x:
                if e.startswith('a:'):
                    m, w = e[2:].split('@', 1)
                    bad.setdefault(m, (w, k))
        for m, (w, k) in sorted(bad.items()):
            ctx.bad('again', f, None, '%s is added to without being emptied first although the attempt may be repeated' % m, 'added at ' + w, ['%s:%s' % (f.rel, l) for l in T.path(cfg, par, k)[-14:]])
        for m in sorted({m for m, _ in T.sites} - set(bad)):
            ctx.ok('again', f, None, m)
    # ---- objects
    for q in AGAIN:
        fs = p.q(q)
        if not fs:
            ctx.lost(q)
        f = fs[0]
        T = Clean(sh, NS + CONCRETE.get(f.rec.split('::')[-1], f.rec.split('::')[-1]))
        ex, xx, par, cfg = T.explore(f, V(frozenset(), frozenset(), None))
        n += T.visits
        bad = {}
        for s, k in list(ex.items()) + [(s, k) for (_, s), k in xx.items()]:
            for e in s.x:
                if e.startswith('a:'):
                    m, w = e[2:].split('@', 1)
                    bad.setdefault(m, (w, k))
        for m, (w, k) in sorted(bad.items()):
            ctx.bad('again', f, None, '%s is added to without being emptied first' % m, 'added at ' + w, ['%s:%s' % (f.rel, l) for l in T.path(cfg, par, k)[-14:]])
        for m in sorted({m for m, _ in T.sites} - set(bad)):
            ctx.ok('again', f, None, m)
        alls = [{e[2:] for e in s.x if e[0] in 'ca' and e[1] == ':' and e[0] == 'c'} for s in ex]
        some, every = set().union(*alls), set.intersection(*alls) if alls else set()
        for m in sorted(some):
            k = next((ex[s] for s in ex if 'c:' + m not in s.x), None)
            ctx.check(m in every, 'stale', f, None, '%s is set anew by every attempt' % m, 'may be left as set by the previous attempt', ['%s:%s' % (f.rel, l) for l in T.path(cfg, par, k)[-14:]] if k else [])
    ctx.need('stale', 30)
    ctx.need('reset', 30)
    ctx.need('initial', 12)
    ctx.need('again', 15)
    ctx.cov['product_states'] = n


def last(ctx, T, reset):
    """constant last assigned to each member in straight-line order of the reset functions"""
    out = {}

    def go(f, seen):
        for s in f.body['c'] if f.body and f.body['k'] == 'Compound' else []:
            if s is None:
                continue
            x = unc(s)
            if x['k'] == 'MCall' and x.get('obj') is not None and unc(x['obj'])['k'] == 'This' and x.get('fn') in ctx.p.fns and x['fn'] not in seen:
                go(ctx.p.fns[x['fn']], seen | {x['fn']})
            elif x['k'] == 'Assign':
                ms, v = [], x
                while v['k'] == 'Assign':
                    m = own(f, v['c'][0])
                    if m:
                        ms.append(m)
                    w = v['c'][1]
                    v = unc(w)
                for m in ms:
                    out[m] = w.get('cv', v.get('cv'))
    go(reset, {reset.id})
    return out
