"""Interprocedural typestate: (1) after a copy which stops silently when aborted, an abort check is passed before anything else is
written or a writer returns normally; (2) once the abort exception has been caught, a writer can only be left by it; (3) a parse
method which caught it does not end with a status of "ok"; (4) the abort check throws whenever an abort has been requested."""
from collections import namedtuple
from ts import Typestate
from backup import Labels, strip
from streams import StreamLabels, is_write
from rules.p10 import writers
from rules.p01 import ENTRY

EXPLAIN = __doc__
AB = 'TagParser::OperationAbortedException'
A = namedtuple('A', 'copy ab ok')
INIT = A(None, None, None)
STATUS = 'TagParser::ParsingStatus'


class AbortState(Typestate):
    def __init__(self, sh):
        super().__init__(sh.p, sh.exc, sh.cfgs)
        self.sh = sh
        self.sl = StreamLabels(sh.p, Labels(sh.p, sh.acc, sh.mod))
        direct = {f.id for f in sh.p.repo_fns() if any(self.is_copy(n) or self.is_status(f, n) for n in f.nodes())}
        aborting = {i for i, s in sh.exc.sum.items() if AB in s}
        self.rel = sh.may_reach(lambda i, q: i in direct or i in aborting) | aborting
        self.stops = {f.id for f in sh.p.q('AbortableProgressFeedback::stopIfAborted') + sh.p.q('AbortableProgressFeedback::nextStepOrStop')}
        self.entries = {f.id for e in ENTRY for f in sh.p.q('MediaFileInfo::' + e)}
        self.copies, self.handled, self.badok = set(), set(), {}

    @staticmethod
    def is_copy(n):
        return n['k'] == 'MCall' and n.get('q', '').startswith('CppUtilities::CopyHelper<') and n['q'].endswith('::callbackCopy')

    @staticmethod
    def is_status(f, n):
        if n['k'] != 'Assign':
            return False
        return f.ty(n['c'][0]).get('s') == STATUS and strip(n['c'][0])['k'] == 'Member'

    def relevant(self, fid):
        return fid in self.rel and fid not in self.stops and self.p.fns[fid].file.startswith(self.p.repo + '/')

    def leave(self, fn, node, target, before, st, exc=None):
        if target in self.entries and not exc:
            return st._replace(ab=before.ab, ok=before.ok)  # settles the status of its own part
        return st

    def event(self, fn, n, st):
        if n.k != 'e':
            return None
        a = n.a
        if self.is_copy(a):
            self.copies.add((fn.id, a['l']))
            return (st._replace(copy=fn.where(a)),)
        if a['k'] == 'MCall' and a.get('fn') in self.stops:
            return (st._replace(copy=None),)
        if st.copy and a['k'] in ('MCall', 'OCall'):
            w = is_write(a)
            if w is not None and self.sl.of(fn, w, ()) != 'S':
                self.badok.setdefault(('continue', fn.id, st.copy), (fn, a))
        if self.is_status(fn, a):
            v = a['c'][1].get('cv')
            if st.ab == 'A':
                return (st._replace(ok=True if v is None or v == self.okv else None, ab='A'),)  # None: value of another status
        return None

    def event_x(self, fn, n, st, t):
        a = n.a
        if n.k == 'e' and a['k'] == 'Throw' and st.ab:
            if a.get('c') and a['c'][0]:
                return (st._replace(ab='T'),) if t != AB else (st._replace(ab=None),)
            if t in (AB, '@current'):
                return (st._replace(ab=None),)
            return ()
        if n.k == 'e' and a.get('fn') in self.stops:
            return (st._replace(copy=None, ab=None),)
        return (st,)

    def edge(self, fn, n, lab, st):
        if n.k == 'b' and lab is True:
            c = strip(n.a)
            if c is not None and c['k'] == 'MCall' and c.get('q', '').endswith('AbortableProgressFeedback::isAborted'):
                return st._replace(copy=fn.where(c), ab='A')
        return st

    def handler(self, fn, node, t, st):
        if t == AB:
            self.handled.add((fn.id, node.a['l'] if isinstance(node.a, dict) else 0))
            return st._replace(ab='A', copy=None)
        return st


def run(ctx):
    p, sh = ctx.p, ctx.sh
    T = AbortState(sh)
    en = p.enum('ParsingStatus')
    T.okv = dict(en['vals']).get('TagParser::ParsingStatus::Ok')
    if T.okv is None:
        ctx.lost('ParsingStatus::Ok')
    for f in writers(ctx) + p.q('MediaFileInfo::applyChanges'):
        ex, xx, par, cfg = T.explore(f, INIT)
        bad = False
        for s, key in ex.items():
            path = ['%s:%s' % (f.rel, l) for l in T.path(cfg, par, key)[-14:]]
            if s.copy:
                bad = True
                ctx.bad('copy', f, None, 'may return normally after a copy which may have been cut short by an abort', 'copy at ' + s.copy, path)
            if s.ab:
                bad = True
                ctx.bad('swallow', f, None, 'may return normally after the abort exception has been caught', '', path)
        for (t, s), key in xx.items():
            if s.ab == 'T':
                bad = True
                ctx.bad('swallow', f, None, 'abort is turned into ' + t, '', ['%s:%s' % (f.rel, l) for l in T.path(cfg, par, key)[-14:]])
        if not bad:
            ctx.ok('copy', f, None, 'all normal exits have passed an abort check after copying')
            ctx.ok('swallow', f, None, 'abort exception always reaches the caller')
    for (_, _, at), (fn, a) in sorted(T.badok.items(), key=str):
        ctx.bad('continue', fn, a, 'writing continues after a copy which may have been cut short by an abort', 'copy at ' + at)
    for fid, l in sorted(T.copies):
        ctx.ok('copy-site', p.fns[fid], {'l': l}, 'copy with abort callback')
    for name in ('parseTracks', 'parseTags', 'parseChapters', 'parseAttachments'):
        for f in p.q('MediaFileInfo::' + name):
            ex, xx, par, cfg = T.explore(f, INIT)
            bad = [(s, k) for s, k in ex.items() if s.ab and s.ok]
            for s, key in bad[:1]:
                ctx.bad('parse-status', f, None, 'status may be "ok" although parsing has been aborted', '', ['%s:%s' % (f.rel, l) for l in T.path(cfg, par, key)[-14:]])
            if not bad:
                ctx.ok('parse-status', f)
    # the check itself
    req = p.q('AbortableProgressFeedback::tryToAbort')[0]
    flag = None
    for n in req.nodes():
        if n['k'] in ('OCall', 'Assign', 'MCall'):
            for m in ([n['c'][0]] if n['k'] != 'MCall' else [n['obj']]):
                m = strip(m)
                if m is not None and m['k'] == 'Member':
                    flag = m['q']
    if not flag:
        ctx.lost('abort flag')
    for f in p.q('AbortableProgressFeedback::isAborted'):
        ctx.check(any(n['k'] == 'Member' and n['q'] == flag for n in f.nodes()), 'flag', f, None, 'reads the flag set by the abort request')
    for f in p.repo_fns():
        if f.id == req.id or f.d.get('role') in ('ctor',):
            continue
        for n in f.nodes():
            if n['k'] in ('OCall', 'Assign', 'MCall') and n.get('op', '=') == '=':
                m = strip(n.get('obj') if n['k'] == 'MCall' else n['c'][0])
                if m is not None and m['k'] == 'Member' and m['q'] == flag and not (n['k'] == 'MCall' and n.get('mc')):
                    ctx.bad('flag', f, n, 'abort request may be withdrawn')

    class Stop(Typestate):
        def edge(s, fn, n, lab, st):
            c = strip(n.a)
            neg = False
            while c is not None and c['k'] == 'Un' and c['op'] == '!':
                c, neg = strip(c['c'][0]), not neg
            if n.k == 'b' and any(x.get('q', '').endswith('AbortableProgressFeedback::isAborted') or x.get('q') == flag for x in __import__('facts').nodes(c)):
                return 'seen' if lab != neg else None
            return st
    for fid in sorted(T.stops):
        f = p.fns[fid]
        s = Stop(p, sh.exc, sh.cfgs)
        ex, xx, _, _ = s.explore(f, '')
        ctx.check(not ex and any(t == AB for t, _ in xx), 'stop', f, None, 'throws the abort exception whenever the flag is set',
                  'an abort request is ignored')
    for r, k in (('copy', 5), ('swallow', 5), ('copy-site', 2), ('parse-status', 4), ('stop', 3)):
        ctx.need(r, k)
    ctx.cov['handlers_receiving_abort'] = len(T.handled)
    ctx.cov['product_states'] = T.visits
