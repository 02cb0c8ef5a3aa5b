"""Path-sensitive interprocedural exploration of the parse methods with the parsing status as tracked value: starting with "not parsed
yet", every normal exit has a settled status unless parsing has been aborted, and a status of "critical failure" if a failure other than
"not implemented"/"no data found" was caught; starting with any other status, nothing is parsed or changed. The containers' own parse
methods are explored for both values of their flags: a part flagged as parsed is not parsed again, and the flag is set if and only if
parsing it completed."""
from vals import ValState, V
from mfi import Mfi
from backup import strip
from access import lroot

EXPLAIN = __doc__
AB, NI, ND, FAIL = ('TagParser::' + x for x in ('OperationAbortedException', 'NotImplementedException', 'NoDataFoundException', 'Failure'))


class Status(ValState):
    def __init__(self, sh, M):
        super().__init__(sh)
        self.M = M
        self.entries = {f.id: part for part in M.status for f in self.p.q('MediaFileInfo::parse' + part)}
        self.members = set(M.results)

    def descend(self, fid):
        f = self.p.fns[fid]
        return self.M.own(fid) and not f.n.startswith('operator') and (fid in self.entries or bool(self.sh.mod.sum.get(fid, set()) & self.members) or self.throws(fid) or self.hands(f))

    @staticmethod
    def hands(f):
        """is a status or a closure passed by reference?"""
        ts = [f.T[x['t']].get('s', '') for x in f.params if x.get('t', -1) >= 0]
        return any(t.startswith(('TagParser::ParsingStatus &', '(lambda', 'const (lambda')) for t in ts)

    def throws(self, fid):
        return bool(self.sh.exc.sum.get(fid)) and self.p.fns[fid].rec in self.M.family

    def keyok(self, key):
        return key in self.M.status.values() or key == 'this.m_containerFormat' or key.startswith('v') and key[1:].isdigit()

    def enter(self, fn, node, target, st):
        s = super().enter(fn, node, target, st)
        return s._replace(x=frozenset()) if target in self.entries else s

    def leave(self, fn, node, target, before, st, exc=None):
        s = super().leave(fn, node, target, before, st, exc)
        if target in self.entries:
            s = s._replace(x=before.x | (st.x & {'aborted', 'modified'}))
        return s

    def handler(self, fn, node, t, st):
        if self.p.isa(t, AB):
            return st._replace(x=st.x | {'aborted'})
        if self.p.isa(t, NI):
            return st._replace(x=st.x | {'notimpl'})
        if self.p.isa(t, ND):
            return st
        if self.p.isa(t, FAIL):
            return st._replace(x=st.x | {'failed'})
        return st

    def step(self, fn, n, st):
        if n.k == 'e':
            a = n.a
            x = st.x
            if a['k'] in ('Assign', 'CAssign', 'OCall', 'MCall'):
                t = a['c'][0] if a['k'] != 'MCall' else a.get('obj')
                r = lroot(t) if t is not None else ('?',)
                if r[0] == 'f' and r[1] in self.members and (a['k'] in ('Assign', 'CAssign') or a.get('m') and not a.get('mc') or a['k'] == 'MCall' and not a.get('mc')) \
                        and a.get('op') not in ('->', '*', '[]') and strip(t)['k'] == 'Member' and a.get('q', '').split('::')[-1] not in ('get', 'begin', 'end', 'front', 'back', 'operator->'):
                    x = x | {'modified'}
            if 'fn' in a and not any(self.relevant(t) for t in self.p.targets(a)) and any(self.sh.mod.sum.get(t, set()) & self.members for t in self.p.targets(a)):
                x = x | {'modified'}
            if x != st.x:
                st = st._replace(x=x)
                if 'fn' in a and any(self.relevant(t) for t in self.p.targets(a)):
                    return None
                return (self.effect(fn, n, st),)
        return None

    def edge(self, fn, n, lab, st):
        st = super().edge(fn, n, lab, st)
        if st is not None and n.k == 'b' and lab is True:
            c = strip(n.a)
            if c is not None and c['k'] == 'MCall' and c.get('q', '').endswith('AbortableProgressFeedback::isAborted'):
                return st._replace(x=st.x | {'aborted'})
        return st


class Once(ValState):
    def __init__(self, sh, fam):
        super().__init__(sh)
        self.fam = fam

    def descend(self, fid):
        f = self.p.fns[fid]
        return f.rec in self.fam and not f.n.startswith('internal') and not f.d.get('role') and f.n.startswith('parse') or 'lambda' in f.d

    def step(self, fn, n, st):
        if n.k == 'e' and n.a['k'] == 'MCall' and n.a.get('q', '').split('::')[-1].startswith('internalParse'):
            e = self.effect(fn, n, st)
            # the flags are only managed by the base class
            env = frozenset({kv for kv in st.env if kv[0].startswith('this.m_')} | set(e.env))
            return (V(env, tuple(sorted(st.x + (n.a['q'].split('::')[-1],))), None),)
        return None

    def event_x(self, fn, n, st, t):
        return (st,) if n.k == 'e' and n.a['k'] == 'MCall' and n.a.get('q', '').split('::')[-1].startswith('internalParse') else super().event_x(fn, n, st, t)


def run(ctx):
    p, sh = ctx.p, ctx.sh
    M = Mfi(sh)
    name = {v: k for k, v in M.vals.items()}
    vis = 0
    for part, key in sorted(M.status.items()):
        f = p.q('MediaFileInfo::parse' + part)[0]
        S = Status(sh, M)
        ex, xx, par, cfg = S.explore(f, V(frozenset([(key, M.vals['NotParsedYet'])]), frozenset(), None))
        vis += S.visits
        bad = {}
        n = 0
        for s, k in ex.items():
            v = dict(s.env).get(key)
            n += 1
            settled = isinstance(v, int) and v != M.vals['NotParsedYet'] or hasattr(v, 'union') and M.vals['NotParsedYet'] in v
            if not settled and 'aborted' not in s.x:
                bad.setdefault(('settled', 'status of %s may still be "not parsed yet" after parsing without abort' % part), k)
            if 'failed' in s.x and v != M.vals['CriticalFailure'] and 'aborted' not in s.x:
                bad.setdefault(('failure', 'status of %s may be other than critical failure after a failure' % part), k)
            if 'notimpl' in s.x and v not in (M.vals['CriticalFailure'], M.vals['NotSupported']) and 'aborted' not in s.x:
                bad.setdefault(('failure', 'status of %s may claim success although parsing is not implemented' % part), k)
        for (rule, d), k in sorted(bad.items()):
            ctx.bad(rule, f, None, d, '', ['%s:%s' % (f.rel, l) for l in S.path(cfg, par, k)[-14:]])
        if not bad and n:
            ctx.ok('settled', f, None, '%d exit states' % n)
            ctx.ok('failure', f, None)
        for v0 in sorted(M.vals.values()):
            if v0 == M.vals['NotParsedYet']:
                continue
            S = Status(sh, M)
            ex, xx, par, cfg = S.explore(f, V(frozenset([(key, v0)]), frozenset(), None))
            bad = [k for s, k in ex.items() if dict(s.env).get(key) != v0 or 'modified' in s.x]
            ctx.check(not bad and not xx and ex, 'repeat', f, None, 'called with status "%s"' % name[v0], 'results are parsed or changed again',
                      ['%s:%s' % (f.rel, l) for l in S.path(cfg, par, bad[0])[-14:]] if bad else [])
    fam = p.ancestors('TagParser::AbstractContainer') | {'TagParser::AbstractContainer'}
    for part, getter in (('Header', 'isHeaderParsed'), ('Tags', 'areTagsParsed'), ('Tracks', 'areTracksParsed'), ('Chapters', 'areChaptersParsed'), ('Attachments', 'areAttachmentsParsed')):
        g = sh.acc.trivial(p.q('AbstractContainer::' + getter)[0].id)
        key = sh.acc.key(*g) if g else None
        if not key:
            ctx.lost('AbstractContainer::' + getter)
        f = p.q('AbstractContainer::parse' + part)[0]
        T = Once(sh, fam)
        what = 'internalParse' + part
        ex, xx, _, _ = T.explore(f, V(frozenset([(key, 1)]), (), None))
        ctx.check(ex and not xx and all(what not in s.x and dict(s.env).get(key) == 1 for s in ex), 'once', f, None, 'not parsed again once it has been parsed')
        T = Once(sh, fam)
        ex, xx, _, _ = T.explore(f, V(frozenset([(key, 0)]), (), None))
        ctx.check(ex and all(s.x.count(what) == 1 and dict(s.env).get(key) == 1 for s in ex), 'flag', f, None, 'parsed once and flagged as parsed')
        ctx.check(xx and all(dict(s.env).get(key) == 0 for _, s in xx), 'flag', f, None, 'not flagged as parsed when parsing fails')
    ctx.need('repeat', 5)
    ctx.need('once', 5)
    ctx.cov['product_states'] = vis
