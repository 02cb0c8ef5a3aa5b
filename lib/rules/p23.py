"""Interprocedural typestate over exceptional control flow: an exception carries whether a diagnostic message has been emitted on
the way from where it originates; where it is caught without being passed on, either such a message has been emitted or every path
from the handler emits one, throws or records a critical failure status before the function is left normally."""
from collections import namedtuple
from vals import ValState, V, NotIn, setd
from access import lroot
from backup import strip
from facts import nodes

EXPLAIN = __doc__
R = namedtuple('R', 'any last sw org')   # reported since entry / by the thrower of the current exception / swallowed (line, type,
INIT = R(False, False, None, None)        # origin) / origin of an unreported exception
E0 = V(frozenset(), INIT, None)
# exceptions used as a regular answer ("there is no such data", "nothing to be written") and the abort request (see P12)
CONTROL = ('TagParser::NoDataFoundException', 'TagParser::NoDataProvidedException', 'TagParser::OperationAbortedException')
STATUS = 'TagParser::ParsingStatus'
# origins which are no failures of the data being processed (frozen; by function)
ORIGINS = {
    'TagParser::EbmlElement::calculateSizeDenotationLength': 'only thrown for sizes of 2^56 bytes and more which no value or file can have',
    'TagParser::EbmlElement::calculateIdLength': 'only thrown for element IDs which are no constants of the format',
    'TagParser::Mp4TagField::expectedRawDataTypes': 'query without diagnostics; "unknown" is a regular answer',
    'TagParser::Mp4TagField::appropriateRawDataType': 'query without diagnostics; "unknown" is a regular answer',
}


class Reports(ValState):
    def __init__(self, sh, failed):
        super().__init__(sh)
        self.failed = failed
        self.handlers = {}
        self._tr = {}
        self.precise = set()      # functions in which flags are tracked
        self.deferred = set()     # functions telling their caller by their return value whether a failure is still to be reported
        direct = {f.id for f in sh.p.repo_fns() if any(self.report(f, n) for n in f.nodes())}
        self.rel = sh.may_reach(lambda i, q: i in direct)
        self.err = {i for i, s in sh.exc.sum.items() if any(self.is_error(t) for t in s)}
        self.assigned = set()
        for f in sh.p.fns.values():
            for n in f.nodes():
                if n['k'] in ('Assign', 'CAssign') or (n['k'] == 'Un' and n['op'] in ('++', '--', '&')):
                    m = strip(n['c'][0])
                    if m is not None and m['k'] == 'Global':
                        self.assigned.add(m['gid'])

    def is_error(self, t):
        p = self.p
        if t == '@current':
            return True
        if any(p.isa(t, c) for c in CONTROL):
            return False
        return p.isa(t, 'TagParser::Failure') or p.isa(t, 'std::ios_base::failure')

    def report(self, f, n):
        if n['k'] == 'MCall' and n.get('obj') and n.get('q', '').rsplit('::', 1)[-1] in ('emplace_back', 'push_back', 'emplace', 'insert'):
            return 'DiagMessage' in n['q'] or 'TagParser::Diagnostics' in f.ty(n['obj']).get('s', '')
        if n['k'] == 'Assign' and n['c'][1].get('cv') == self.failed and f.ty(n['c'][0]).get('s') == STATUS:
            return True
        return False

    # ---- flags and counters: local variables which only receive constants and increments
    def tracked(self, fn):
        if fn.id not in self.precise:
            return ()
        r = self._tr.get(fn.id)
        if r is None:
            ok, bad = set(), set()
            for n in fn.nodes():
                if n['k'] == 'DeclStmt':
                    for d in n['decls']:
                        i = d.get('i')
                        if 'id' in d and i and ('cv' in i or self.answer(i)) and fn.T[d['t']].get('k') in ('bool', 'int'):
                            ok.add(d['id'])
                elif n['k'] in ('Assign', 'CAssign'):
                    x = strip(n['c'][0])
                    if x is not None and x['k'] == 'Var' and (n['k'] == 'CAssign' or 'cv' not in n['c'][1]):
                        bad.add(x.get('id'))
                elif n['k'] == 'Un' and n['op'] in ('--', '&'):
                    x = strip(n['c'][0])
                    if x is not None and x['k'] == 'Var':
                        bad.add(x.get('id'))
                elif n['k'] in ('Call', 'MCall', 'OCall', 'Ctor', 'Lambda') and n.get('q', '') != 'CppUtilities::argsToString':
                    for x in self.mod._refargs(n, fn):
                        r0 = lroot(x)
                        if r0[0] == 'v':
                            bad.add(r0[1])
            r = self._tr[fn.id] = {'v%d' % i for i in ok - bad}
        return r

    def answer(self, n):
        n = strip(n)
        return n is not None and n['k'] in ('Call', 'MCall') and n.get('fn') in self.deferred

    def keep(self, fn, env):
        t = self.tracked(fn)
        return frozenset((k, v) for k, v in env if k in t or k[0] == '@')

    def ev(self, fn, n, env, depth=0):
        m = strip(n)
        if m is not None and m['k'] == 'Global' and 'cv' not in m and m['gid'] not in self.assigned:
            g = self.p.globals.get(m['gid'])
            return g['i'].get('cv') if g and g.get('i') else None
        if m is not None and m['k'] == 'Bin' and m['op'] in ('<', '>', '<=', '>=') and 'cv' not in m:
            a, b = (self.ev(fn, c, env, depth + 1) for c in m['c'])
            if a is None or b is None or isinstance(a, NotIn) or isinstance(b, NotIn):
                return None
            return int({'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[m['op']])
        return super().ev(fn, n, env, depth)

    def effect(self, fn, n, st):
        a = n.a
        if n.k == 'e' and a['k'] == 'Un' and a['op'] == '++':
            key = self.acc.key(fn, a['c'][0])
            if key in self.tracked(fn):
                return st._replace(env=setd(st.env, key, NotIn([0])))
        s = super().effect(fn, n, st)
        return s._replace(env=self.keep(fn, s.env), ret=s.ret if fn.id in self.precise else None)

    def edge(self, fn, n, lab, st):
        s = super().edge(fn, n, lab, st)
        return None if s is None else s._replace(env=self.keep(fn, s.env))

    # ---- reports
    def descend(self, fid):
        return fid in self.rel or fid in self.err

    def enter(self, fn, node, target, st):
        return E0

    def leave(self, fn, node, target, before, st, exc=None):
        b, s = before.x, st.x
        env = self.keep(fn, self.effect(fn, node, before).env)
        if exc is None and target in self.deferred:
            env = setd(env, '@%d' % id(node.a), st.ret)
            return V(env, R(b.any or s.any, False, None if s.any else s.sw or b.sw, None), None)
        if exc is None:
            return V(env, R(b.any or s.any, False, None if s.any else b.sw, None), None)
        return V(env, R(b.any or s.any, s.any, None if s.any else b.sw, s.org if not s.any else None), None)

    def step(self, fn, n, st):
        if n.k == 'e' and self.report(fn, n.a):
            return (st._replace(x=R(True, True, None, None)),)
        if n.k == 'e' and n.a['k'] == 'Throw':
            return (st,)
        return None

    def event_x(self, fn, n, st, t):
        x = st.x
        if n.a['k'] == 'Throw':
            if not (n.a.get('c') and n.a['c'][0]):  # rethrow
                return (st._replace(x=x._replace(last=x.any, sw=None)),)
            return (st._replace(x=R(x.any, x.any, None, None if x.any else (fn.q, fn.where(n.a)))),)
        return (st._replace(x=x._replace(last=False, org=(fn.q, fn.where(n.a)))),)

    def handler(self, fn, node, t, st):
        a = node.a if isinstance(node.a, dict) else {}
        x = st.x
        if not self.is_error(t):
            return st
        k = (fn.id, a.get('l', 0))
        fine = x.last or (x.org and x.org[0] in ORIGINS)
        self.handlers.setdefault(k, [0, 0])[0 if fine else 1] += 1
        return st._replace(x=R(bool(fine), False, None if fine else (a.get('l', 0), t, x.org), None))


def run(ctx):
    p, sh = ctx.p, ctx.sh
    en = dict(p.enum('ParsingStatus')['vals'])
    T = Reports(sh, en.get('TagParser::ParsingStatus::CriticalFailure'))
    todo = [f for f in p.repo_fns() if any(n['k'] == 'Try' for n in f.nodes())]
    # functions in which the flow of flags decides are explored again with these flags being tracked
    for f in todo:
        for s in T.explore(f, E0)[0]:
            if s.x.sw:
                if any(c['l'] == s.x.sw[0] and any(m['k'] in ('Assign', 'CAssign', 'Un') and strip(m['c'][0])['k'] == 'Var' for m in nodes(c))
                       for n in f.nodes() if n['k'] == 'Try' for c in n['handlers']):
                    T.precise.add(f.id)
                if s.x.sw[2]:
                    T.precise |= {g.id for g in p.q(s.x.sw[2][0], False)}
    T.memo.clear()
    called = {n['fn'] for f in p.repo_fns() for n in f.nodes() if n['k'] in ('Call', 'MCall', 'OCall') and 'fn' in n}
    for f in todo:
        if f.id in T.precise and f.T[f.d.get('rt', -1)].get('k') in ('bool', 'int', 'enum') and (not f.rec or 'lambda' in f.d) and f.file.endswith('.cpp') and f.id in called:
            ex = T.explore(f, E0)[0]
            sw = {T.truth(s.ret) for s in ex if s.x.sw}
            if len(sw) == 1 and None not in sw and sw.isdisjoint({T.truth(s.ret) for s in ex if not s.x.sw} - {None}) and any(T.truth(s.ret) is not None for s in ex if not s.x.sw):
                T.deferred.add(f.id)
    if T.deferred:
        for f in p.repo_fns():
            if any(n['k'] in ('Call', 'MCall') and n.get('fn') in T.deferred for n in f.nodes()):
                T.precise.add(f.id)
                if f not in todo:
                    todo.append(f)
    ctx.cov['reported_by_callers'] = sorted(p.fns[i].q for i in T.deferred)
    T._tr.clear()
    T.memo.clear()
    T.handlers.clear()
    for f in todo:
        if f.id in T.deferred:
            continue
        ex, xx, par, cfg = T.explore(f, E0)
        bad = {}
        for s, key in ex.items():
            if s.x.sw:
                bad.setdefault(s.x.sw, (s, key))
        for (l, t, o), (s, key) in sorted(bad.items(), key=str):
            ctx.bad('swallowed', f, {'l': l}, 'handler discards %s (from %s) although no diagnostic message has been emitted' % (t, o and o[1]), '',
                    ['%s:%s' % (f.rel, x) for x in T.path(cfg, par, key)[-14:]])
        for fid, l in T.handlers:
            if fid == f.id and not any(x[0] == l for x in bad):
                a, b = T.handlers[fid, l]
                ctx.ok('handler', f, {'l': l}, '%d reported / %d unreported origins; all handled' % (a, b))
    ctx.need('handler', 60)
    ctx.cov['product_states'] = T.visits
    ctx.cov['precise_functions'] = len(T.precise)
    ctx.cov['frozen_origins'] = ORIGINS
