"""Typestate / event-order analysis: explores the product of the control-flow graphs with a small automaton,
interprocedurally (a callee is summarised per entry state; virtual calls take the union of the overriders)."""
from cfg import CFG


class Typestate:
    """Subclass and define
         event(fn, node, st)  -> None (no event: descend into repository callees) or iterable of states
         event_x(fn, node, st)-> states on the exceptional edges of a primitive event (default: unchanged)
         edge(fn, node, label, st) -> state or None (edge infeasible) for branch edges
         relevant(fid)        -> whether calls of that function are descended into
    States must be hashable."""

    def __init__(self, prog, exc, cfgs):
        self.p, self.exc, self.cfgs = prog, exc, cfgs
        self.memo = {}
        self.active = set()
        self.visits = 0

    def event(self, fn, node, st):
        return None

    def event_x(self, fn, node, st, t):
        return (st,)

    def edge(self, fn, node, lab, st):
        return st

    def relevant(self, fid):
        return False

    def handler(self, fn, node, t, st):
        return st

    def enter(self, fn, node, target, st):
        """state at the entry of a callee"""
        return st

    def leave(self, fn, node, target, before, st, exc=None):
        """state in the caller after the callee was left in state st"""
        return st

    def run(self, fid, st):
        """-> ({state: parent info} at normal exit, {(type, state)} at exceptional exit)"""
        key = (fid, st)
        for _ in range(6):
            before = self.memo.get(key)
            self._compute(key)
            if self.memo[key] == before:
                break
        return self.memo[key]

    def _callee(self, fid, st):
        key = (fid, st)
        if key in self.active:
            return self.memo.get(key, (frozenset(), frozenset()))
        if key in self.memo:
            return self.memo[key]
        self._compute(key)
        return self.memo[key]

    def _compute(self, key):
        fid, st0 = key
        fn = self.p.fns[fid]
        self.active.add(key)
        self.memo.setdefault(key, (frozenset(), frozenset()))
        try:
            ex, xx, _, _ = self.explore(fn, st0)
        finally:
            self.active.discard(key)
        self.memo[key] = (frozenset(ex), frozenset(xx))

    def explore(self, fn, st0, start=None):
        cfg = self.cfgs.get(fn.id)
        parent = {}
        start = start or cfg.entry
        work = [(start, st0)]
        parent[(start.i, st0)] = None
        ex, xx = {}, {}
        while work:
            n, st = work.pop()
            self.visits += 1
            if n is cfg.exit:
                ex[st] = (n.i, st)
                continue
            outs = None       # states on normal edges
            xouts = None      # type -> states
            if n.k in ('e', 'i', 'd', 'r', 'h', 'j', 'l'):
                outs = self.event(fn, n, st)
                if outs is None and n.k == 'e' and n.a['k'] in ('Call', 'MCall', 'OCall', 'Ctor', 'Lambda'):
                    tg = []
                    if n.a['k'] == 'Lambda':
                        pass
                    elif 'fn' in n.a:
                        tg = [t for t in self.p.targets(n.a) if t in self.p.fns and self.relevant(t) and (self.p.fns[t].body or self.p.fns[t].inits)]
                    if tg:
                        outs, xouts = set(), {}
                        for t in tg:
                            e, x = self._callee(t, self.enter(fn, n, t, st))
                            outs |= {self.leave(fn, n, t, st, s) for s in e}
                            for ty, s in x:
                                xouts.setdefault(ty, set()).add(self.leave(fn, n, t, st, s, ty))
                        if any(t not in tg for t in self.p.targets(n.a)):
                            outs.add(st)
                            anyx = st
                        else:
                            anyx = None
                    elif n.a['k'] != 'Lambda':
                        # closures passed to a function which is not analysed: called any number of times
                        hd = [t for t in self.p.handed(fn, n.a) if t in self.p.fns and self.relevant(t)]
                        if hd:
                            outs, xouts, anyx = {st}, {}, st
                            todo = [st]
                            while todo:
                                s0 = todo.pop()
                                for t in hd:
                                    e, x = self._callee(t, self.enter(fn, n, t, s0))
                                    for ty, s in x:
                                        xouts.setdefault(ty, set()).add(self.leave(fn, n, t, s0, s, ty))
                                    for s in e:
                                        s = self.leave(fn, n, t, s0, s)
                                        if s not in outs:
                                            outs.add(s)
                                            todo.append(s)
            for lab, m in n.succ:
                if isinstance(lab, tuple) and lab[0] == 'x':
                    t = lab[1]
                    if xouts is not None:
                        ns = set(xouts.get(t, ()))
                        if '@current' in xouts:
                            ns |= xouts['@current']
                        if anyx is not None:
                            ns.add(anyx)
                    elif outs is not None:
                        ns = self.event_x(fn, n, st, t)
                    else:
                        ns = (st,)
                    for s in ns:
                        if m is cfg.xexit:
                            xx.setdefault((t, s), (n.i, st))
                        else:
                            s = self.handler(fn, m, t, s)
                            self._push(parent, work, n, st, m, s)
                    continue
                for s in (outs if outs is not None else (st,)):
                    if lab is not None:
                        s = self.edge(fn, n, lab, s)
                        if s is None:
                            continue
                    self._push(parent, work, n, st, m, s)
        return ex, xx, parent, cfg

    def _push(self, parent, work, n, st, m, s):
        k = (m.i, s)
        if k not in parent:
            parent[k] = (n.i, st)
            work.append((m, s))

    def path(self, cfg, parent, key):
        out = []
        while key is not None:
            l = cfg.line(cfg.nodes[key[0]])
            if l is not None and (not out or out[-1] != l):
                out.append(l)
            key = parent.get(key)
        return out[::-1]


class Cfgs:
    def __init__(self, prog, exc, full=False):
        self.p, self.e, self.full = prog, exc, full
        self.c = {}

    def get(self, fid):
        c = self.c.get(fid)
        if c is None:
            f = self.p.fns[fid]
            self.e.env = {}
            self.e.cur_key = (fid, ())
            c = self.c[fid] = CFG(f, self.e.callee_exc if self.e else None, self.full, self.nr)
        return c

    def nr(self, n):
        """False if a call never returns normally"""
        if 'fn' not in n:
            return None
        if n.get('q') in ('std::terminate', 'abort', 'std::abort', 'exit', 'std::exit'):
            return False
        ts = self.p.targets(n)
        if len(ts) == 1 and ts[0] in self.p.fns:
            return self.returns(ts[0])
        return None

    def returns(self, fid, _st=set()):
        r = self.p.fns[fid].extra.get('returns')
        if r is not None:
            return r
        f = self.p.fns[fid]
        if fid in _st or not f.body:
            return True
        _st.add(fid)
        try:
            if not any(x['k'] == 'Throw' for x in f.nodes()) and not any(x.get('q', '').endswith('::abort') for x in f.nodes()) and not any(
                    x['k'] in ('Call', 'MCall') and self.nr(x) is False for x in f.nodes()):
                f.extra['returns'] = True
                return True
            c = self.get(fid)
            f.extra['returns'] = c.exit.i in c.reachable()
        finally:
            _st.discard(fid)
        return f.extra['returns']
