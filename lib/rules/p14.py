"""Interprocedural typestate on the members holding parsing results (those modified by any function reachable from the parse methods):
a file effect makes all of them stale, assigning the value of a fresh object makes one of them clean again; every normal and exceptional
exit of applying changes must have no stale member, as must every exit of the functions discarding results."""
from ts import Typestate
from backup import strip
from mfi import Mfi
from cfg import listed
from facts import nodes

EXPLAIN = __doc__


CLEAN = ()      # nothing written yet


class Stale(Typestate):
    def __init__(self, sh, M):
        super().__init__(sh.p, sh.exc, sh.cfgs)
        self.sh, self.M, self.E = sh, M, sh.effects
        self.init = M.initial()
        self.all = frozenset(M.results)
        self.resets = set()

    def relevant(self, fid):
        return self.M.own(fid) and (fid in self.E.may or bool(self.sh.mod.sum.get(fid, set()) & self.all))

    def member(self, n):
        n = strip(n)
        if n is not None and n['k'] == 'Member' and n['q'] in self.all and strip(n['c'][0])['k'] == 'This':
            return n['q']
        return None

    def reset(self, fn, a):
        """member set to its initial value by this step, or (member, False) if set to something else"""
        k = a['k']
        if k == 'Assign' or k == 'OCall' and a['op'] == '=' and len(a['c']) == 2:
            m = self.member(a['c'][0])
            if m:
                v = a['c'][1]
                s = strip(v)
                while s is not None and s['k'] == 'Assign' and 'cv' not in v:
                    v = s['c'][1]       # a = b = value
                    s = strip(v)
                ini = self.init.get(m.split('::')[-1], 'empty')
                if ini != 'empty':
                    return m, s is not None and (v.get('cv') == ini or s.get('cv') == ini or s['k'] in ('Ctor', 'ZeroInit', 'InitList') and ini == 0 and not s.get('c'))
                while s is not None and s['k'] == 'Ctor' and len([x for x in s.get('c', []) if x and x['k'] != 'DefArg']) == 1:
                    s = strip([x for x in s['c'] if x and x['k'] != 'DefArg'][0])
                return m, s is not None and (s['k'] == 'Null0' or s['k'] in ('Ctor', 'InitList') and not [x for x in s.get('c', []) if x and x['k'] != 'DefArg'])
        if k == 'MCall' and not a.get('mc') and a.get('obj') is not None:
            m = self.member(a['obj'])
            if m:
                n = a['q'].split('::')[-1]
                args = [x for x in a.get('c', []) if x and x['k'] not in ('DefArg', 'Null0') and strip(x)['k'] != 'Null0']
                if n in ('reset', 'clear') and not args:
                    return m, True
                if n in ('operator->', 'get', 'begin', 'end', 'front', 'back', 'operator bool'):
                    return None
                return m, False
        return self.other(a)

    def edge(self, fn, n, lab, st):
        if n.k == 'l' and lab is False and st != CLEAN and n.a.get('k') == 'RangeFor':
            l = self.listed(n.a)
            for m in l:
                self.resets.add((fn.id, n.a['l'], m))
            return st - set(l) if l else st
        return st

    def listed(self, loop):
        """members set to their initial value by a loop over the addresses of/references to members"""
        body, v = loop['body'], (loop.get('loopvar') or {}).get('id')
        if any(x['k'] in ('If', 'Switch', 'Cond', 'Break', 'Continue', 'Return', 'Goto', 'Try') for x in nodes(body)):
            return []
        for a in body.get('c', []) if body['k'] == 'Compound' else [body]:
            if a is None or a['k'] != 'Assign':
                continue
            t = strip(a['c'][0])
            while t is not None and t['k'] == 'Un' and t['op'] == '*':
                t = strip(t['c'][0])
            if t is None or t['k'] != 'Var' or t['v'] != v:
                continue
            out = []
            for x in listed(loop):
                x = strip(x)
                if x is not None and x['k'] == 'Un' and x['op'] == '&':
                    x = strip(x['c'][0])
                m = self.member(x)
                if m and self.init.get(m.split('::')[-1], 'empty') == a['c'][1].get('cv', 'none'):
                    out.append(m)
            return out
        return []

    def other(self, a):
        k = a['k']
        if k in ('CAssign',) and self.member(a['c'][0]):
            return self.member(a['c'][0]), False
        return None

    def event(self, fn, n, st):
        if n.k != 'e':
            return None
        a = n.a
        if a['k'] in ('Call', 'MCall', 'OCall', 'Ctor'):
            if self.E.classify(fn, a) in ('write', 'open', 'fs') or 'fn' in a and any(t in self.E.may and not self.relevant(t) for t in self.p.targets(a)):
                return (self.all,)
        r = self.reset(fn, a)
        if r is None:
            return None
        if r[1]:
            self.resets.add((fn.id, a['l'], r[0]))
            return (st if st == CLEAN else st - {r[0]},)
        return (st if st == CLEAN else st | {r[0]},)

    def event_x(self, fn, n, st, t):
        r = self.event(fn, n, st)
        return (st,) if r is None else r

    def enter(self, fn, node, target, st):
        return st


def names(s):
    return ', '.join(sorted(x.split('::')[-1] for x in s))


def run(ctx):
    p, sh = ctx.p, ctx.sh
    M = Mfi(sh)
    S = Stale(sh, M)
    if len(S.all) < 10:
        ctx.lost('result members')
    f = p.q('MediaFileInfo::applyChanges')[0]
    ex, xx, par, cfg = S.explore(f, CLEAN)
    if not any(s != CLEAN for s in ex):
        ctx.lost('file effects of applyChanges')
    missing = {}
    for s, key in ex.items():
        for m in s:
            missing.setdefault((m, 'normally'), key)
    for (t, s), key in xx.items():
        for m in s:
            missing.setdefault((m, 'by an exception'), key)
    for how in ('normally', 'by an exception'):
        for m in sorted(S.all):
            key = missing.get((m, how))
            if key:
                ctx.bad('apply', f, None, '%s may still hold old results when applying changes is left %s' % (m.split('::')[-1], how), 'after the file has been written',
                        ['%s:%s' % (f.rel, l) for l in S.path(cfg, par, key)[-12:]])
            else:
                ctx.ok('apply', f, None, '%s is reset when left %s' % (m.split('::')[-1], how))
    for g in p.q('MediaFileInfo::clearParsingResults') + p.q('MediaFileInfo::invalidated'):
        ex, xx, par, cfg = S.explore(g, S.all)
        left = set()
        for s in ex:
            left |= set(s)
        for m in sorted(S.all):
            ctx.check(m not in left, 'discard', g, None, 'reset of ' + m.split('::')[-1], 'an old result survives')
    ctx.need('apply', 8)
    ctx.need('discard', 8)
    ctx.cov['result_members'] = sorted(x.split('::')[-1] for x in S.all)
    ctx.cov['product_states'] = S.visits
