"""Must-hold branch facts: which (condition, outcome) pairs hold on every path to a node."""
import re
from access import lroot


def atoms(fn, acc, cond, val, env=None):
    """facts implied by cond == val: list of (kind, key, value)"""
    n = cond
    k = n['k']
    out = []
    if k == 'Un' and n['op'] == '!':
        return atoms(fn, acc, n['c'][0], not val, env)
    if k == 'OCall' and n['op'] == '!' and len(n['c']) == 1:
        return atoms(fn, acc, n['c'][0], not val, env)
    if k == 'Cast' and n.get('c'):
        return atoms(fn, acc, n['c'][0], val, env)
    if k in ('Assign', 'OCall') and n['op'] == '=':
        return atoms(fn, acc, n['c'][0], val, env)
    if k == 'Bin' and n['op'] in ('&&', '||'):
        # only reached for conditions which were not split
        if (n['op'] == '&&') == val:
            return atoms(fn, acc, n['c'][0], val, env) + atoms(fn, acc, n['c'][1], val, env)
        return []
    if k == 'MCall' and env is None and not n.get('c') and n.get('obj') is not None and not n.get('virt'):
        # predicate of the same class, e.g. "bool hasX() const { return m_x != nullptr; }"
        g = acc.predicate(n.get('fn'))
        o = g and acc.key(fn, n['obj'])
        if g and o is not None:
            out = atoms(g[0], acc, g[1], val, {'this': o})
            a = acc.key(fn, n)
            return out + ([('t', a, val)] if a is not None else [])
    if k in ('Bin', 'OCall') and n['op'] in ('==', '!=', '<', '<=', '>', '>=') and len(n['c']) == 2:
        a, b = acc.key(fn, n['c'][0], env), acc.key(fn, n['c'][1], env)
        op = n['op']
        if not val:
            op = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[op]
        if a is None or b is None:
            return []
        if b in ('#null',) or (b == '#0' and fn.ty(n['c'][0]).get('k') in ('ptr', 'rec')):
            return [('t', a, op == '!=')] if op in ('==', '!=') else []
        if a == '#null':
            return [('t', b, op == '!=')] if op in ('==', '!=') else []
        if a.startswith('#') and not b.startswith('#'):
            a, b = b, a
            op = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
        out = [('c', (op, a, b), True)]
        if b == '#0' and op in ('!=', '>'):
            out.append(('t', a, True))
        if b == '#0' and op == '==':
            out.append(('t', a, False))
        return out
    a = acc.key(fn, n, env)
    if a is None:
        return []
    return [('t', a, val)]


VARRE = re.compile(r'v(\d+)')


class Facts:
    """forward must-analysis over a CFG; fact sets are frozensets"""

    def __init__(self, prog, acc, mod, cfg, nulls=None):
        self.p, self.acc, self.mod, self.cfg, self.fn = prog, acc, mod, cfg, cfg.fn
        self.nulls = nulls      # fields which may become null within a function (None: each modified field)
        self.run()

    def kills(self, node):
        """(var ids, fields) modified by a node"""
        n = node.a
        vs, fs = set(), set()
        self.keep, self.lose = set(), set()
        if node.k == 'd':
            vs.add(n['id'])
            return vs, fs
        if node.k == 'l':
            return vs, fs
        if node.k != 'e':
            return vs, fs
        k = n['k']
        tg = []
        if k in ('Assign', 'CAssign') or (k == 'Un' and n['op'] in ('++', '--')):
            tg.append(n['c'][0])
        elif k in ('Call', 'MCall', 'OCall', 'Ctor', 'Lambda'):
            if k == 'OCall' and n.get('m') and not n.get('mc'):
                tg.append(n['c'][0])
            if k == 'MCall' and not n.get('mc') and n.get('obj') is not None and not n.get('arrow'):
                tg.append(n['obj'])
            tg += self.mod._refargs(n, self.fn)
            ts = n['fns'] if k == 'Lambda' else (self.p.targets(n) if 'fn' in n else [])
            for t in ts:
                m = self.mod.sum.get(t, set())
                fs |= m
                if self.nulls is not None:
                    self.keep |= {x.split('::')[-1] for x in m} - {x.split('::')[-1] for x in self.nulls.get(t, m)}
                    self.lose |= {x.split('::')[-1] for x in self.nulls.get(t, m)}
            if k == 'Lambda' or (k == 'OCall' and n['op'] == '()') or 'callee' in n:
                vs |= self.captured()
        for t in tg:
            r = lroot(t)
            if r[0] == 'v':
                vs.add(r[1])
            elif r[0] == 'f':
                fs.add(r[1])
                self.lose.add(r[1].split('::')[-1])
        return vs, fs

    def captured(self):
        r = self.fn.extra.get('captured')
        if r is None:
            r = set()
            for n in self.fn.nodes():
                if n['k'] == 'Lambda':
                    for l in n['fns']:
                        lf = self.p.fns.get(l)
                        if lf:
                            r |= modified_vars(lf, self.mod) - set(n.get('bycopy', []))
            self.fn.extra['captured'] = r
        return r

    def kill(self, facts, vs, fs):
        if not vs and not fs:
            return facts
        fields = {x.split('::')[-1] for x in fs}
        out = set()
        for f in facts:
            k = f[1] if isinstance(f[1], str) else f[1][1] + '|' + f[1][2]
            if vs and any(int(x) in vs for x in VARRE.findall(k)):
                continue
            if fields:
                segs = re.split(r'[^\w]+', k)
                if f[0] == 't' and f[2] and segs[-1] in self.keep and segs[-1] not in self.lose:
                    segs = segs[:-1]    # the callee only assigns non-null values
                if fields.intersection(segs):
                    continue
            out.add(f)
        return frozenset(out)

    def transfer(self, node, facts):
        vs, fs = self.kills(node)
        facts = self.kill(facts, vs, fs)
        gen = self.gen(node)
        if gen:
            facts = self.closure(facts | frozenset(gen))
        return facts

    def gen(self, node):
        n = node.a
        acc, fn = self.acc, self.fn
        if node.k == 'd' and n.get('i'):
            i = n['i']
            k = acc.key(fn, i)
            out = []
            if k is not None:
                out.append(('c', ('==', 'v%d' % n['id'], k), True))
            if nonnull_expr(fn, i):
                out.append(('t', 'v%d' % n['id'], True))
            return out
        if node.k == 'e' and n['k'] in ('Assign', 'OCall') and n['op'] == '=':
            a, b = acc.key(fn, n['c'][0]), acc.key(fn, n['c'][1])
            out = []
            if a is not None and b is not None and a != b:
                out.append(('c', ('==', a, b), True))
            if a is not None and nonnull_expr(fn, n['c'][1]):
                out.append(('t', a, True))
            return out
        if node.k == 'e' and n['k'] == 'MCall' and n.get('q', '').split('::')[-1] in ('emplace', 'reset') and n.get('q', '').startswith('std::') and n.get('obj') is not None:
            a = acc.key(fn, n['obj'])
            if a is not None and (n['q'].endswith('emplace') and 'optional' in n['q'] or (n.get('c') and n['c'][0] and nonnull_expr(fn, n['c'][0]))):
                return [('t', a, True)]
        return None

    def closure(self, facts):
        """propagate truth along equalities"""
        eq = [f[1] for f in facts if f[0] == 'c' and f[1][0] == '==']
        out = set(facts)
        changed = True
        while changed:
            changed = False
            for _, a, b in eq:
                for x, y in ((a, b), (b, a)):
                    for v in (True, False):
                        if ('t', x, v) in out and ('t', y, v) not in out and not y.startswith('#'):
                            out.add(('t', y, v))
                            changed = True
        return frozenset(out)

    def run(self):
        cfg = self.cfg
        IN = {cfg.entry.i: frozenset()}
        work = [cfg.entry]
        nodes = cfg.nodes
        it = 0
        while work:
            n = work.pop()
            it += 1
            f0 = IN[n.i]
            f1 = self.transfer(n, f0)
            for lab, m in n.succ:
                f = f1
                if lab is True or lab is False:
                    if n.k == 'b':
                        f = f1 | frozenset(atoms(self.fn, self.acc, n.a, lab))
                        f = self.closure(f) if lab is not None else f
                elif isinstance(lab, tuple) and lab[0] == 'x':
                    vs, fs = self.kills(n)
                    f = self.kill(f0, vs, fs)
                elif isinstance(lab, tuple) and lab[0] == 'case':
                    pass
                old = IN.get(m.i)
                new = f if old is None else old & f
                if old is None or new != old:
                    IN[m.i] = new
                    work.append(m)
        self.IN = IN

    def at(self, node):
        return self.IN.get(node.i)


def modified_vars(f, mod):
    r = set()
    for n in f.nodes():
        k = n['k']
        tg = []
        if k in ('Assign', 'CAssign') or k == 'Un' and n['op'] in ('++', '--'):
            tg.append(n['c'][0])
        elif k in ('Call', 'MCall', 'OCall', 'Ctor'):
            if k == 'OCall' and n.get('m') and not n.get('mc'):
                tg.append(n['c'][0])
            if k == 'MCall' and not n.get('mc') and n.get('obj') is not None and not n.get('arrow'):
                tg.append(n['obj'])
            tg += mod._refargs(n, f)
        for t in tg:
            x = lroot(t)
            if x[0] == 'v':
                r.add(x[1])
    return r


def nonnull_expr(fn, n):
    while n and n['k'] in ('Cast', 'DefArg', 'Opaque'):
        n = n['c'][0]
    if n is None:
        return False
    k = n['k']
    if k == 'This' or k == 'New' or k == 'Str':
        return True
    if k == 'Un' and n['op'] == '&':
        return True
    if k == 'Call' and n.get('q', '') in ('std::make_unique', 'std::make_shared', 'std::addressof'):
        return True
    if k == 'Ctor' and len([c for c in n.get('c', []) if c]) >= 1:
        return nonnull_expr(fn, n['c'][0])
    if k == 'MCall' and n.get('q', '').startswith(('std::unique_ptr', 'std::shared_ptr', 'std::optional')):
        return n.get('obj') is not None and nonnull_expr(fn, n['obj'])
    return False
