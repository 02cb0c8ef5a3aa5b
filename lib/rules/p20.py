"""Interprocedural typestate of the pages written by OggContainer::internalMakeFile. Per page (turn of the loop which records
pages): the output position at the start of the page has been recorded for updating the checksum / the page has been modified.
Recorded offsets: pending until the loop updating the checksums has finished; each turn of that loop must update the checksum."""
from collections import namedtuple
from facts import nodes
from streams import FlushState, is_write
from backup import Labels, strip

EXPLAIN = __doc__
ASSUME = ['a page copied from the original file without any further write operation keeps its valid checksum',
          'OggPage::computeChecksum() computes the checksum of the Ogg format', 'aborted and failing runs are reported and need no valid checksums']

P = namedtuple('P', 'dirty off lost env bind here reg mod offs regd pos pend inl cs')
# here: nothing written since the start of the page; reg: offset of the page recorded; mod: unrecorded modification (where)
# offs: variable -> 'cur' (start of this page) / 'old' (start of an earlier page); regd: variables recorded outside of the page loop
# pos: variable the output position has been derived from; pend: recorded, checksum not updated yet; inl: loops a turn is running of;
# cs: checksum updated in this turn
INIT = P(frozenset(), frozenset(), None, frozenset(), frozenset(), True, False, None, frozenset(), frozenset(), None, None, frozenset(), False)
ADD = ('push_back', 'emplace_back', 'insert', 'emplace', 'push_front', 'emplace_front')
UPDATE = 'TagParser::OggPage::updateChecksum'


def is_reg(fn, n):
    """argument of an expression recording an offset in a container, or None"""
    if n['k'] != 'MCall' or not n.get('q', '').startswith('std::') or n['q'].split('::')[-1] not in ADD or not n.get('c'):
        return None
    return n['c'][-1] if is_vec(fn, n['obj']) else None


def is_vec(fn, obj):
    e = fn.ty(obj)
    if e.get('k') in ('ref', 'ptr') and 'e' in e:
        e = fn.T[e['e']]
    s = e.get('s', '').replace('const ', '')
    if s.startswith(('std::vector<', 'std::deque<', 'std::list<', 'std::set<')) and s.split('<', 1)[1].startswith(('unsigned long', 'long', 'std::uint64_t', 'uint64_t')):
        return True
    return False


class Pages(FlushState):
    def __init__(self, sh, report):
        self.issue = report
        super().__init__(sh, Labels(sh.p, sh.acc, sh.mod))
        self.regs, self.mods, self.upds, self.copies = set(), set(), set(), set()
        def has(pred):
            d = {f.id for f in sh.p.fns.values() if f.file.startswith(sh.p.repo + '/') and any(pred(f, n) for n in f.nodes())}
            return sh.may_reach(lambda i, q: i in d)
        self.mayreg = has(lambda f, n: is_reg(f, n) is not None)
        self.mayupd = has(lambda f, n: n.get('q') == UPDATE)
        self.kind = {}

    def direct(self, f):
        return f.file.startswith(self.sh.p.repo + '/') and (super().direct(f) or any(
            is_reg(f, n) is not None or n.get('q') == UPDATE for n in f.nodes()))

    # --- loops
    def loop(self, fn, n):
        """'page' (records offsets), 'upd' (updates checksums) or None"""
        k = (fn.id, id(n))
        r = self.kind.get(k)
        if r is None:
            reg = upd = False
            for x in nodes(n['body']):
                reg |= is_reg(fn, x) is not None or self.filecopy(fn, x)
                upd |= x.get('q') == UPDATE
                if 'fn' in x:
                    t = [i for i in self.p.targets(x) if i in self.p.fns and self.p.fns[i].file.startswith(self.p.repo + '/')]
                    reg |= any(i in self.mayreg for i in t)
                    upd |= any(i in self.mayupd for i in t) and not reg
            r = self.kind[k] = 'page' if reg else 'upd' if upd else ''
        return r

    def filecopy(self, fn, x):
        """copies from one file to another: the loop writes pages"""
        return x['k'] == 'MCall' and x.get('q', '').startswith('CppUtilities::CopyHelper<') and x['q'].split('::')[-1] in ('copy', 'callbackCopy') and \
            self.sl.of(fn, x['c'][0], ()) != 'S' and self.sl.of(fn, x['c'][1], ()) != 'S'

    def always_updates(self, f):
        cfg = self.cfgs.get(f.id)
        seen, work = set(), [cfg.entry]
        while work:
            n = work.pop()
            if n.i in seen or n.k == 'e' and n.a.get('q') == UPDATE:
                continue
            seen.add(n.i)
            work += [m for lab, m in n.succ if not (isinstance(lab, tuple) and lab[0] == 'x')]
        return cfg.exit.i not in seen

    # --- expressions
    def tell(self, fn, n, depth=0):
        n = strip(n)
        while n is not None and n['k'] == 'Ctor' and len(n.get('c') or ()) == 1:
            n = strip(n['c'][0])
        if n is None or depth > 4:
            return False
        q = n.get('q', '')
        if n['k'] == 'MCall' and q.split('::')[-1] == 'tellp' and q.startswith('std::'):
            return n
        if n['k'] == 'MCall' and q.startswith('std::fpos<'):
            return self.tell(fn, n['obj'], depth + 1)
        if n['k'] in ('Call', 'MCall', 'OCall') and 'fn' in n:
            for t in self.p.targets(n):
                f = self.p.fns.get(t)
                if f is not None and f.file.startswith(self.p.repo + '/'):
                    rs = [x for x in f.nodes() if x['k'] == 'Return']
                    if len(rs) == 1 and rs[0].get('c') and rs[0]['c'][0] is not None and len(list(f.nodes())) < 25:
                        return self.tell(f, rs[0]['c'][0], depth + 1)
        return False

    def track(self, fn, n, st, depth=0):
        """tracked variables an expression is derived from"""
        r = set()
        if n is None or depth > 8:
            return r
        o = dict(st.offs)
        decl, modv = self.sl.lab.info(fn)
        for x in nodes(n):
            if x['k'] == 'Var':
                v = x['v']
                if v in o or v in self.told(fn):
                    r.add(v)
                elif v in decl and v not in modv:
                    r |= self.track(fn, decl[v], st, depth + 1)
        return r

    def cls(self, fn, n, st):
        """'cur' / 'old' / None of the value of an expression; and the variable"""
        n = strip(n)
        while n is not None and n['k'] == 'Ctor' and len(n.get('c') or ()) == 1:
            n = strip(n['c'][0])
        if n is None:
            return None, None
        t = self.tell(fn, n)
        if t:
            return ('cur' if st.here else 'bad'), None
        if n['k'] == 'Var':
            o = dict(st.offs)
            if n['v'] in o:
                return o[n['v']], n['v']
            decl, modv = self.sl.lab.info(fn)
            if n['v'] in decl and n['v'] not in modv and decl[n['v']] is not None and not self.tell(fn, decl[n['v']]):
                return self.cls(fn, decl[n['v']], st)
            if n['v'] in self.told(fn):
                return 'old', n['v']
        return None, None

    def told(self, fn):
        """variables assigned from the output position anywhere in the function"""
        r = fn.extra.get('told')
        if r is None:
            r = set()
            for x in fn.nodes():
                if x['k'] == 'Assign' and self.tell(fn, x['c'][1]):
                    t = strip(x['c'][0])
                    if t is not None and t['k'] == 'Var':
                        r.add(t['v'])
            fn.extra['told'] = r
        return r

    def setoff(self, st, v, c):
        o = {x for x in st.offs if x[0] != v}
        if c:
            o.add((v, c))
        return st._replace(offs=frozenset(o))

    # --- automaton
    def enter(self, fn, node, target, st):
        s = super().enter(fn, node, target, st)
        f = self.p.fns[target]
        if 'lambda' in f.d:
            offs = set(st.offs)
        else:
            offs = set()
        a = node.a
        args = a.get('c', [])
        if a['k'] == 'OCall' and a.get('m'):
            args = args[1:]
        for p, x in zip(f.params, args):
            c, _ = self.cls(fn, x, st) if x is not None else (None, None)
            if c:
                offs.add((p['id'], c))
        return s._replace(offs=frozenset(offs), inl=frozenset())

    def leave(self, fn, node, target, before, st, exc=None):
        f = self.p.fns[target]
        s = super().leave(fn, node, target, before, st, exc)
        s = s._replace(offs=st.offs if 'lambda' in f.d else before.offs, inl=before.inl)
        a = node.a
        args = a.get('c', [])
        if a['k'] == 'OCall' and a.get('m'):
            args = args[1:]
        o = dict(st.offs)
        for p, x in zip(f.params, args):
            x = strip(x)
            if x is not None and x['k'] == 'Var' and f.T[p['t']].get('k') == 'ref':
                s = self.setoff(s, x['v'], o.get(p['id']))
        return s

    def modify(self, fn, a, st):
        self.mods.add((fn.id, a['l']))
        st = st._replace(here=False)
        if not st.reg and not (st.pos is not None and st.pos in st.regd):
            if st.mod is None:
                st = st._replace(mod=(fn.where(a), fn.id, a['l'], st.pos))
        return st

    def event(self, fn, n, st):
        if n.k == 'j' or n.k == 'l' or n.k == 'd':
            st2 = self.loops(fn, n, st)
            if n.k == 'd' and 'id' in n.a and n.a.get('i') is not None:
                c, _ = self.cls(fn, n.a['i'], st2)
                decl, modv = self.sl.lab.info(fn)
                if c and (n.a['id'] in modv or self.tell(fn, n.a['i'])):
                    st2 = self.setoff(st2, n.a['id'], c)
                elif any(v == n.a['id'] for v, _ in st2.offs):
                    st2 = self.setoff(st2, n.a['id'], None)
            return (st2,) if st2 is not st else None
        if n.k != 'e':
            return None
        a = n.a
        k = a['k']
        if k in ('Assign', 'CAssign') or k == 'Un' and a['op'] in ('++', '--'):
            t = strip(a['c'][0])
            if t is not None and t['k'] == 'Var':
                c = self.cls(fn, a['c'][1], st)[0] if k == 'Assign' else None
                if c or any(v == t['v'] for v, _ in st.offs):
                    return (self.setoff(st, t['v'], c),)
            return None
        if k not in ('Call', 'MCall', 'OCall'):
            return None
        q = a.get('q', '')
        if q == UPDATE:
            self.upds.add((fn.id, a['l']))
            self.where_upd = (fn, a)
            x = strip(a['c'][1])
            while x is not None and x['k'] == 'Ctor' and len(x.get('c') or ()) == 1:
                x = strip(x['c'][0])
            good = x is not None and (x['k'] in ('Var', 'Index', 'Member') or x['k'] == 'Un' and x['op'] == '*' or x['k'] == 'OCall' and x['op'] in ('*', '[]', '->')
                                      or x['k'] == 'MCall' and x.get('q', '').split('::')[-1] in ('at', 'front', 'back'))
            if not good:
                self.issue('offset', fn, a, 'the checksum is updated at another offset than the recorded one', 'the recorded page keeps its stale checksum', ())
            return (st._replace(cs=True, here=False, pos=None),)
        if q.startswith('std::for_each') or q.startswith('std::ranges::for_each'):
            for x in nodes(a):
                if x['k'] == 'Lambda':
                    fs = [self.p.fns[i] for i in x['fns'] if i in self.p.fns]
                    us = [(g, u) for g in fs for u in g.nodes() if u.get('q') == UPDATE]
                    if us:
                        self.upds |= {(g.id, u['l']) for g, u in us}
                        if all(self.always_updates(g) for g in fs if any(h is g for h, _ in us)):
                            return (st._replace(pend=None, regd=frozenset(), here=False, pos=None),)
                        self.issue('skipped', fn, a, 'a recorded page is skipped when updating the checksums', 'there is a path which does not call OggPage::updateChecksum()', ())
        if k == 'MCall' and st.pend and q.startswith('std::vector<') and q.split('::')[-1] in ('clear', 'pop_back', 'erase', 'resize', 'assign', 'swap') and is_vec(fn, a['obj']):
            self.issue('dropped', fn, a, 'recorded pages are dropped before their checksums have been updated', 'they keep their stale checksum', ())
            return (st,)
        arg = is_reg(fn, a)
        if arg is not None:
            c, v = self.cls(fn, arg, st)
            if c not in ('cur', 'old'):
                return (st,)
            self.regs.add((fn.id, a['l']))
            st = st._replace(pend=(fn.id, a['l']))
            if c == 'cur':
                return (st._replace(reg=True, mod=None),)
            if c == 'old' and v is not None and not st.reg:
                st = st._replace(regd=st.regd | {v})
                if st.mod is not None and st.mod[3] == v:
                    st = st._replace(mod=None)
                return (st,)
            return (st,)
        r = super().event(fn, n, st._replace(dirty=frozenset(), lost=None, off=frozenset()))
        w = is_write(a)
        if w is not None:
            l = self.label(fn, w, st)
            if l == 'S':
                return (st,)
            if q.split('::')[-1] in ('copy', 'callbackCopy') and q.startswith('CppUtilities::CopyHelper<'):
                self.copies.add((fn.id, a['l']))
                if self.label(fn, a['c'][0], st) != 'S':
                    return (st._replace(here=False),)
            if q.endswith('::flush'):
                return (st,)
            return (self.modify(fn, a, st),)
        if k == 'MCall' and q.startswith('std::basic_ostream<') and q.split('::')[-1] == 'seekp':
            if self.label(fn, a['obj'], st) == 'S':
                return (st,)
            pos = st.pos
            if len([x for x in a['c'] if x is not None]) == 1:
                t = sorted(self.track(fn, a['c'][0], st))
                pos = t[0] if t else None
            return (st._replace(here=False, pos=pos),)
        if r is not None:
            r = tuple(s._replace(dirty=frozenset(), lost=None, off=frozenset()) for s in r)
        return r

    def loops(self, fn, n, st):
        cfg = self.cfgs.get(fn.id)
        e = cfg.loops.get(n.i)
        if e is None:
            return st
        what, loop = e
        kind = self.loop(fn, loop)
        if not kind:
            return st
        me = (fn.id, loop.get('l'))
        if what == 'turn':
            st = st._replace(inl=st.inl | {me})
            if kind == 'upd':
                return st._replace(cs=False)
            return self.newpage(st)
        if kind == 'upd':
            if what == 'end':
                if not st.cs:
                    self.issue('skipped', fn, loop, 'a recorded page is skipped when updating the checksums', 'there is a path through the loop which does not call OggPage::updateChecksum()', ())
                return st._replace(inl=st.inl - {me}, cs=False)
            if me in st.inl:  # left via break
                return st._replace(inl=st.inl - {me})
            if st.mod is None:
                return st._replace(pend=None, regd=frozenset())
            return st._replace(pend=None, regd=frozenset())
        # page loop
        st = self.turn_end(st)
        return st._replace(inl=st.inl - {me})

    def newpage(self, st):
        return self.turn_end(st)._replace(here=True, offs=frozenset((v, 'old' if c == 'cur' else c) for v, c in st.offs), pos=None)

    def turn_end(self, st):
        if st.mod is not None:
            self.unreg(st)
        return st._replace(reg=False, mod=None, offs=frozenset((v, 'old' if c == 'cur' else c) for v, c in st.offs), pos=None)

    def unreg(self, st):
        fn = self.p.fns[st.mod[1]]
        self.issue('record', fn, {'l': st.mod[2]}, 'page is modified without recording its offset for updating the checksum',
                   'the page keeps the checksum of the original page', ())


def run(ctx):
    p = ctx.p
    seen = set()

    def issue(rule, fn, n, what, why, path):
        if (rule, fn.id, n['l']) not in seen:
            seen.add((rule, fn.id, n['l']))
            ctx.bad(rule, fn, n, what, why, list(path))

    T = Pages(ctx.sh, issue)
    for f in p.q('OggContainer::internalMakeFile'):
        ex, xx, par, cfg = T.explore(f, INIT)
        if not ex:
            ctx.lost('%s never returns normally' % f.q)
        for s, key in sorted(ex.items(), key=str):
            path = ['%s:%s' % (f.rel, l) for l in T.path(cfg, par, key)[-14:]]
            if s.mod is not None:
                T.unreg(s)
            if s.pend:
                g = p.fns[s.pend[0]]
                issue('update', g, {'l': s.pend[1]}, 'returns normally without updating the checksums of all recorded pages', 'a recorded page keeps its stale checksum', path)
    for what, s, need in (('records', T.regs, 1), ('modifications', T.mods, 3), ('updates', T.upds, 1), ('copies', T.copies, 1)):
        ctx.cov[what] = len(s)
        for fid, l in sorted(s):
            ctx.ok(what, p.fns[fid], {'l': l}, 'analysed on all paths')
        if len(s) < need:
            ctx.lost('only %d %s found' % (len(s), what))
    ctx.cov['product_states'] = T.visits
    # what updating the checksum does
    for f in p.q('OggPage::updateChecksum'):
        check_update(ctx, f)


def check_update(ctx, f):
    """seeks to the checksum field of the same page and writes the computed checksum (4 bytes, little endian) there on every path"""
    decl, modv = Labels(ctx.p, ctx.sh.acc, ctx.sh.mod).info(f)
    off = f.params[1]['id']
    cfg = ctx.sh.cfgs.get(f.id)
    comp = [n for n in f.nodes() if n.get('q') == 'TagParser::OggPage::computeChecksum']
    if not comp:
        ctx.bad('compute', f, None, 'does not compute the checksum', 'the checksum written is not the one of the page')
    for n in comp:
        x = strip(n['c'][1])
        ctx.check(x['k'] == 'Var' and x['v'] == off, 'compute', f, n, 'computes the checksum of the page at the passed offset', 'another page is used')
    ws = {n.i for n in cfg.nodes if n.k == 'e' and n.a['k'] in ('MCall', 'OCall') and is_write(n.a) is not None}
    seen, work = set(), [cfg.entry]
    while work:
        n = work.pop()
        if n.i in seen or n.i in ws:
            continue
        seen.add(n.i)
        work += [m for lab, m in n.succ if not (isinstance(lab, tuple) and lab[0] == 'x')]
    ctx.check(ws and cfg.exit.i not in seen, 'write', f, None, 'writes the checksum on every path', 'a path leaves the stale checksum in place')
