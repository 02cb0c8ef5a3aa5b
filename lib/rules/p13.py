"""Path-sensitive interprocedural exploration of applying changes for every combination of parsing states: in a state in which tags
or tracks have not been parsed without critical errors, no file effect (stream write, truncating open, modifying filesystem call or a
call which may have one) is reachable and the call cannot return normally."""
from vals import ValState, V
from mfi import Mfi

EXPLAIN = __doc__


class Gate(ValState):
    def __init__(self, sh, M):
        super().__init__(sh)
        self.M, self.E = M, sh.effects
        self.hits = []

    def descend(self, fid):
        return self.M.own(fid)

    def keyok(self, key):
        return key.startswith(('this.m_', 'v')) and '(' not in key

    def step(self, fn, n, st):
        if n.k != 'e' or n.a['k'] not in ('Call', 'MCall', 'OCall', 'Ctor'):
            return None
        a = n.a
        if self.E.classify(fn, a) in ('write', 'open', 'fs') or 'fn' in a and any(t in self.E.may and not self.descend(t) for t in self.p.targets(a)):
            self.hits.append((fn, a, n, st))
            return ()
        return None


def run(ctx):
    p, sh = ctx.p, ctx.sh
    M = Mfi(sh)
    good = {M.vals['Ok'], M.vals['NotSupported']}
    f = p.q('MediaFileInfo::applyChanges')[0]
    states = 0
    name = {v: k for k, v in M.vals.items()}
    for tg in sorted(M.vals.values()):
        for tr in sorted(M.vals.values()):
            G = Gate(sh, M)
            ex, xx, par, cfg = G.explore(f, V(frozenset([(M.status['Tags'], tg), (M.status['Tracks'], tr)]), None, None))
            states += G.visits
            what = 'tags %s, tracks %s' % (name[tg], name[tr])
            if tg in good and tr in good:
                ctx.check(bool(G.hits), 'applies', f, None, what, 'no file effect is ever reached')
                continue
            for fn, a, n, st in G.hits[:1]:
                ctx.bad('gate', f if fn is f else fn, a, 'file is modified with ' + what, 'reaches %s' % a.get('q', a['k']))
            for s, key in list(ex.items())[:1]:
                ctx.bad('refused', f, None, 'returns normally with ' + what, '', ['%s:%s' % (f.rel, l) for l in G.path(cfg, par, key)[-12:]])
            if not G.hits and not ex:
                ctx.ok('gate', f, None, what)
                ctx.check(bool(xx), 'refused', f, None, what)
    ctx.need('gate', 4)
    ctx.cov['product_states'] = states
