"""Relational analysis of integers, sizes and pointers into buffers: difference bounds (x - y <= c) over variables, members, lengths of containers ('len:k') and
offsets of pointers within their buffers, propagated over the control-flow graph with widening. Arithmetic which might wrap around yields unknown values."""
import re
from cfg import CFG
from facts import nodes

INF = 1 << 70
MAXLEN = (1 << 48)     # no buffer is larger than that (address space)
CONT = ('std::basic_string<', 'std::basic_string_view<', 'std::vector<', 'std::unique_ptr<', 'std::deque<', 'std::array<', 'std::list<')
TUPGET = re.compile(r'get<#V[a-z]*(\d+)#')


def unc(n):
    while n is not None and n['k'] in ('Cast', 'DefArg', 'Opaque') and n.get('c') and 'cv' not in n:
        n = n['c'][0]
    return n


def strip(n):
    """without conversions which keep values (bindings, qualifiers)"""
    while n is not None and n.get('c') and (n['k'] in ('DefArg', 'Opaque') or n['k'] == 'Cast' and n.get('ck') in ('NoOp', 'LValueToRValue', 'ArrayToPointerDecay', 'DerivedToBase', 'UncheckedDerivedToBase')):
        n = n['c'][0]
    return n


SIG = '\u03a3'


def comps(t):
    """components of a term: list of (term, coefficient)"""
    if t == '0':
        return []
    if t[0] != SIG:
        return [(t, 1)]
    return [(x[1:], 1 if x[0] == '+' else -1) for x in t[1:].split('|')]


def combine(a, b, sign=1):
    """term for the sum/difference of two terms; None if it is not expressible"""
    d = {}
    for t, c in comps(a):
        d[t] = d.get(t, 0) + c
    for t, c in comps(b):
        d[t] = d.get(t, 0) + sign * c
    d = {t: c for t, c in d.items() if c}
    if not d:
        return '0'
    if any(abs(c) > 1 for c in d.values()) or len(d) > 5:
        return None
    if len(d) == 1 and list(d.values()) == [1]:
        return list(d)[0]
    return SIG + '|'.join(('+' if c > 0 else '-') + t for t, c in sorted(d.items()))


class V:
    """a value: list of (term, lo, hi): term + [lo, hi]; base: the buffer a pointer points into"""
    __slots__ = ('reps', 'base', 'es')

    def __init__(self, reps, base=None, es=1):
        self.reps, self.base, self.es = reps, base, es


class Z:
    """difference bounds; d[x][y] = c means x - y <= c"""
    __slots__ = ('d', 'base')

    def __init__(self, d=None, base=None):
        self.d = d if d is not None else {}
        self.base = base if base is not None else {}

    def copy(self):
        return Z({k: dict(v) for k, v in self.d.items()}, dict(self.base))

    def get(self, x, y):
        if x == y:
            return 0
        r = self.d.get(x)
        return INF if r is None else r.get(y, INF)

    def add(self, x, y, c):
        """x - y <= c; False if that is impossible"""
        if c >= INF // 2 or x == y:
            return not (x == y and c < 0)
        if self.get(x, y) <= c:
            return True
        if self.get(y, x) + c < 0:
            return False
        d = self.d
        us = [(u, r[x]) for u, r in d.items() if x in r] + [(x, 0)]
        vs = list(d.get(y, {}).items()) + [(y, 0)]
        for u, cu in us:
            ru = d.setdefault(u, {})
            for v, cv in vs:
                if u != v:
                    w = cu + c + cv
                    if w < ru.get(v, INF):
                        ru[v] = w
        return True

    def kill(self, k):
        self.d.pop(k, None)
        for r in self.d.values():
            r.pop(k, None)
        self.base.pop(k, None)
        if k[0] != SIG:
            for x in [x for x in self.keys() if x[0] == SIG and k in dict(comps(x))]:
                self.kill(x)

    def keys(self):
        s = set(self.d) | set(self.base)
        for r in self.d.values():
            s |= set(r)
        return s

    def killp(self, k):
        """k and everything which belongs to it"""
        for x in self.keys():
            y = x[4:] if x.startswith('len:') else x
            if y == k or y.startswith(k + '.') or y.startswith(k + '['):
                self.kill(x)

    def join(self, o, widen=False):
        nd = {}
        for x, r in self.d.items():
            r2 = o.d.get(x)
            if not r2:
                continue
            nr = {}
            for y, c in r.items():
                c2 = r2.get(y)
                if c2 is None:
                    continue
                if c2 <= c:
                    nr[y] = c
                elif not widen:
                    nr[y] = c2
            if nr:
                nd[x] = nr
        return Z(nd, {k: b for k, b in self.base.items() if o.base.get(k) == b})

    def same(self, o):
        return self.d == o.d and self.base == o.base


class Zone:
    """analysis of one function"""

    def __init__(self, sh, fn, effects, ints=None, contracts=None):
        self.sh, self.p, self.f = sh, sh.p, fn
        self.acc = sh.acc
        self.effects = effects
        self.con = contracts
        self.clen = {}          # base -> constant length
        self.types = {}         # key -> (lo, hi)
        self.cfg = CFG(fn, sh.exc.callee_exc, True, sh.cfgs.nr)
        self.gh = {}            # pair of terms -> term standing for their sum
        self.restrict = None
        self.dead = None
        self.coarse = len(self.cfg.nodes) > 900
        self.env = None
        self.depth = 0
        self.rcache = sh.__dict__.setdefault('_zreads', {})
        self.creads = {}        # 'C:...' term -> names of members its value depends on

    # ---- keys
    def key(self, n):
        n = strip(n)
        if n is None:
            return None
        while n['k'] == 'Cast' and 'cv' not in n and n.get('c'):
            n = n['c'][0]
        k = n['k']
        if k == 'Un' and n['op'] in ('*', '&') and self.f.ty(n['c'][0] if n['op'] == '*' else n).get('k') == 'ptr':
            t = self.f.ty(n['c'][0] if n['op'] == '*' else n)
            if self.f.T[t['e']].get('k') != 'rec':
                return None
        if k == 'Call' and n.get('q') == 'std::get':
            m = TUPGET.search(n.get('fn', ''))
            b = self.key(n['c'][0])
            return b + '.' + m.group(1) if m and b else None
        if k == 'Member':
            b = self.key(n['c'][0])
            if b is not None:
                return self.note(n, b + '.' + n['n'])
        if k == 'Un' and n['op'] in ('++', '--') and not n.get('post') or k in ('Assign', 'CAssign'):
            return self.key(n['c'][0])
        r = self.acc.key(self.f, n, self.env)
        if r is None or '(' in r or r.startswith('#') or r[0] in '-!~+':
            return None
        if '[' in r:
            return None
        return self.note(n, r)

    def note(self, n, k):
        t = self.f.ty(n)
        if t.get('k') == 'ref':
            t = self.f.T[t['e']]
        if t.get('k') in ('int', 'enum', 'bool') and 'w' in t and k not in self.types:
            self.types[k] = (0, (1 << t['w']) - 1) if t.get('u') else (-(1 << (t['w'] - 1)), (1 << (t['w'] - 1)) - 1)
        if t.get('k') == 'arr' and t.get('n') is not None:
            self.clen[k] = t['n']
        return k

    # ---- bounds
    def ub(self, S, t):
        if t == '0':
            return 0
        c = S.get(t, '0')
        if t[0] == SIG:
            r = 0
            for x, k in comps(t):
                r += self.ub(S, x) if k > 0 else -self.lb(S, x)
            return min(c, r, INF)
        if t.startswith('len:'):
            b = self.clen.get(t[4:])
            return min(c, b if b is not None else MAXLEN)
        r = min(c, self.types[t][1]) if t in self.types else c
        if r > MAXLEN:
            for y, w in S.d.get(t, {}).items():
                if w < INF // 2 and y.startswith('len:'):
                    r = min(r, w + (self.clen[y[4:]] if y[4:] in self.clen else MAXLEN))
        return r

    def lb(self, S, t):
        if t == '0':
            return 0
        c = -S.get('0', t)
        if t[0] == SIG:
            r = 0
            for x, k in comps(t):
                r += self.lb(S, x) if k > 0 else -self.ub(S, x)
            return max(c, r, -INF)
        if t.startswith('len:'):
            b = self.clen.get(t[4:])
            return max(c, b if b is not None else 0)
        return max(c, self.types[t][0]) if t in self.types else c

    def hi(self, S, v):
        return min((self.ub(S, t) + h for t, l, h in v.reps), default=INF)

    def lo(self, S, v):
        return max((self.lb(S, t) + l for t, l, h in v.reps), default=-INF)

    def leq(self, S, a, b, c=0):
        """is a <= b + c for sure?"""
        return self.diff(S, a, b) <= c

    def diff(self, S, a, b):
        """upper bound of a - b"""
        r = INF
        for t, l, h in a.reps:
            for t2, l2, h2 in b.reps:
                if t == t2:
                    r = min(r, h - l2)
                else:
                    r = min(r, S.get(t, t2) + h - l2, self.ub(S, t) + h - (self.lb(S, t2) + l2))
        return r

    def expand(self, S, v):
        """further representations of a value"""
        out = list(v.reps)
        seen = {t for t, l, h in out}
        for t, l, h in v.reps:
            if t == '0':
                continue
            ys = set(S.d.get(t, ())) | {y for y, r in S.d.items() if t in r}
            # equal ones first
            for y in sorted(ys, key=lambda y: (S.get(t, y) + S.get(y, t) != 0, y[0] != SIG, y)):
                if y in seen or y == '0' or len(out) > 24:
                    continue
                hi, lo = S.get(t, y), -S.get(y, t)
                if hi < INF // 2 or lo > -INF // 2:
                    seen.add(y)
                    out.append((y, max(-INF, l + lo), min(INF, h + hi)))
        return V(out, v.base, v.es)

    def leqx(self, S, a, b):
        """a <= b, with linear combinations"""
        if self.diff(S, a, b) <= 0:
            return True
        A, B = self.expand(S, a), self.expand(S, b)
        for t, l, h in A.reps:
            if h >= INF // 2:
                continue
            for t2, l2, h2 in B.reps:
                if l2 <= -INF // 2:
                    continue
                d = {}
                for x, c in comps(t):
                    d[x] = d.get(x, 0) + c
                for x, c in comps(t2):
                    d[x] = d.get(x, 0) - c
                pos = [x for x, c in d.items() for _ in range(c)] if all(abs(c) < 4 for c in d.values()) else None
                if pos is None:
                    continue
                neg = [x for x, c in d.items() for _ in range(-c)]
                r = h - l2
                for x in pos:
                    best, by = self.ub(S, x), None
                    for y in neg:
                        w = S.get(x, y)
                        # compare to bounding both on their own
                        if w < self.ub(S, x) - self.lb(S, y) and (by is None or w - 0 < best):
                            best, by = w, y
                    r += best
                    if by is not None:
                        neg.remove(by)
                for y in neg:
                    r -= self.lb(S, y)
                if r <= 0:
                    return True
        return False

    def const(self, c):
        return V([('0', c, c)])

    def rng(self, lo, hi):
        return V([('0', lo, hi)])

    def trange(self, n):
        t = self.f.ty(n)
        if t.get('k') == 'ref':
            t = self.f.T[t['e']]
        if t.get('k') in ('int', 'enum', 'bool') and 'w' in t:
            return (0, (1 << t['w']) - 1) if t.get('u') else (-(1 << (t['w'] - 1)), (1 << (t['w'] - 1)) - 1)
        return None

    def top(self, n):
        r = self.trange(n)
        return self.rng(*r) if r else V([])

    def fit(self, S, n, v):
        """value of an expression of type of n: unknown if it does not fit"""
        r = self.trange(n)
        if r is None:
            return v
        if self.lo(S, v) >= r[0] and self.hi(S, v) <= r[1]:
            return v
        return self.rng(*r)

    def esize(self, n):
        t = self.f.ty(n)
        if t.get('k') == 'ref':
            t = self.f.T[t['e']]
        if t.get('k') in ('ptr', 'arr'):
            e = self.f.T[t['e']]
            if e.get('k') in ('int', 'enum', 'bool', 'float') and 'w' in e:
                return max(1, e['w'] // 8)
            return None
        return 1

    # ---- values
    def addv(self, S, a, b):
        out = []
        for t, l, h in a.reps:
            if t == '0':
                out += [(t2, l2 + l, h2 + h) for t2, l2, h2 in b.reps]
            else:
                lo, hi = self.lo(S, b), self.hi(S, b)
                if hi < INF // 2 or lo > -INF // 2:
                    out.append((t, max(-INF, l + lo), min(INF, h + hi)))
                for t2, l2, h2 in b.reps:
                    if t2 != '0':
                        lo, hi = self.lb(S, t) + l, self.ub(S, t) + h
                        if hi < INF // 2 or lo > -INF // 2:
                            out.append((t2, max(-INF, l2 + lo), min(INF, h2 + hi)))
                        g = self.ghost(S, t, t2)
                        if g:
                            out.append((g, l + l2, h + h2))
        out += self.composites(S, a, b, 1)
        return V(self.prune(out))

    def composites(self, S, a, b, sign):
        if self.coarse or not any(t != '0' for t, l, h in a.reps) and sign > 0 or not any(t != '0' for t, l, h in b.reps):
            return []
        out = []
        # exact ones first
        A = sorted(self.expand(S, a).reps, key=lambda r: r[2] - r[1])
        B = sorted((r for r in self.expand(S, b).reps if r[0] != '0'), key=lambda r: r[2] - r[1])
        ps = [(r[2] - r[1] + x[2] - x[1], i, j) for i, r in enumerate(A) for j, x in enumerate(B)]
        for w, i, j in sorted(ps):
            (t, l, h), (t2, l2, h2) = A[i], B[j]
            if t == '0' and (sign > 0 or l != h):
                continue
            if w >= INF // 2 and len(out) > 4 or len(out) > 16:
                break
            c = combine(t, t2, sign)
            if c is None:
                continue
            if sign > 0:
                out.append((c, max(-INF, l + l2), min(INF, h + h2)))
            else:
                out.append((c, max(-INF, l - h2), min(INF, h - l2)))
        return out

    def ghost(self, S, t, t2):
        """term standing for the sum of two components of a tuple"""
        g = self.gh.get((t, t2)) or self.gh.get((t2, t))
        if g and (g in S.d or any(g in r for r in S.d.values())):
            return g
        return None

    def prune(self, reps):
        best = {}
        for t, l, h in reps:
            if t in best:
                best[t] = (max(best[t][0], l), min(best[t][1], h))
            else:
                best[t] = (l, h)
        return [(t, l, h) for t, (l, h) in best.items()]

    def subv(self, S, a, b):
        out = []
        lo, hi = self.lo(S, b), self.hi(S, b)
        for t, l, h in a.reps:
            if hi < INF // 2 or lo > -INF // 2:
                out.append((t, l - hi, h - lo))
        u, w = self.diff(S, a, b), self.diff(S, b, a)
        out.append(('0', -w, u))
        out += self.composites(S, a, b, -1)
        return V(self.prune([(t, max(l, -INF), min(h, INF)) for t, l, h in out]))

    def eval(self, S, n):
        """value of an expression in a state"""
        if n is None:
            return V([])
        if isinstance(n.get('cv'), int):
            return self.const(n['cv'])
        k = n['k']
        t = self.f.ty(n)
        if t.get('k') == 'ref':
            t = self.f.T[t['e']]
        tk = t.get('k')
        if k in ('DefArg', 'Opaque', 'DefInit'):
            return self.eval(S, n['c'][0]) if n.get('c') else self.top(n)
        if k == 'Cast':
            v = self.eval(S, n['c'][0])
            if tk in ('int', 'enum', 'bool'):
                if n.get('ck') in ('IntegralCast', 'LValueToRValue', 'NoOp', 'IntegralToBoolean', 'BooleanToSignedIntegral', None):
                    return self.fit(S, n, V(v.reps)) if n.get('ck') != 'IntegralToBoolean' else self.rng(0, 1)
                return self.top(n) if v.reps == [] or n.get('ck') in ('FloatingToIntegral', 'UserDefinedConversion', 'ConstructorConversion') else self.fit(S, n, V(v.reps))
            return v
        if tk in ('ptr', 'arr'):
            return self.pointer(S, n, k)
        if k in ('Paren',):
            return self.eval(S, n['c'][0])
        if k == 'Un':
            if n['op'] in ('++', '--'):
                v = self.eval(S, n['c'][0])
                if n.get('post'):
                    c = -1 if n['op'] == '++' else 1
                    return self.fit(S, n, V([(x, l + c, h + c) for x, l, h in v.reps]))
                return v
            if n['op'] == '-':
                v = self.eval(S, n['c'][0])
                return self.fit(S, n, self.rng(-self.hi(S, v), -self.lo(S, v)))
            if n['op'] == '+':
                return self.eval(S, n['c'][0])
            return self.top(n)
        if k in ('Assign', 'CAssign') or k == 'OCall' and n.get('op') == '=':
            return self.eval(S, n['c'][0])
        if k == 'Cond':
            st = [self.cond(S, n['c'][0], v) for v in (True, False)]
            if st[0] is None or st[1] is None:
                return self.eval(S, n['c'][1 if st[1] is None else 2])
            a, b = self.eval(S, n['c'][1]), self.eval(S, n['c'][2])
            return self.joinv(S, a, b)
        if k in ('Bin', 'OCall') and len(n.get('c', ())) == 2:
            op = n['op']
            if op in ('+', '-', '*', '/', '%', '&', '|', '>>', '<<', '^'):
                return self.arith(S, n, op)
            if op in ('<', '>', '<=', '>=', '==', '!=', '&&', '||'):
                return self.rng(0, 1)
        if k in ('Call', 'MCall'):
            r = self.call(S, n)
            if r is not None:
                return r
        kk = self.key(n)
        if kk is not None and kk.startswith('g:std::basic_string') and kk.endswith('::npos'):
            return self.const((1 << 64) - 1)
        if kk is not None and tk in ('int', 'enum', 'bool'):
            v = V([(kk, 0, 0)])
            r = self.trange(n)
            if r:
                self.types.setdefault(kk, r)
                v.reps.append(('0', self.lb(S, kk), self.ub(S, kk)))
            return v
        return self.top(n)

    def joinv(self, S, a, b):
        out = [('0', min(self.lo(S, a), self.lo(S, b)), max(self.hi(S, a), self.hi(S, b)))]
        for x, y in ((a, b), (b, a)):
            for t, l, h in x.reps:
                if t != '0':
                    # y relative to t
                    tv = V([(t, 0, 0)])
                    u, w = self.diff(S, y, tv), -self.diff(S, tv, y)
                    out.append((t, min(l, w), max(h, u)))
        return V(self.prune([(t, l, h) for t, l, h in out if h < INF // 2 or l > -INF // 2]), a.base if a.base == b.base else None)

    def arith(self, S, n, op):
        x, y = n['c']
        a, b = self.eval(S, x), self.eval(S, y)
        if a.base is not None and b.base is not None and op == '-':
            if a.base == b.base and a.es == 1:
                return self.fit(S, n, self.subv(S, V(a.reps), V(b.reps)))
            return self.top(n)
        al, ah, bl, bh = self.lo(S, a), self.hi(S, a), self.lo(S, b), self.hi(S, b)
        if op == '+':
            return self.fit(S, n, self.addv(S, a, b))
        if op == '-':
            return self.fit(S, n, self.subv(S, a, b))
        if op == '*':
            if max(abs(al), abs(ah), abs(bl), abs(bh)) < INF // 2:
                c = [al * bl, al * bh, ah * bl, ah * bh]
                return self.fit(S, n, self.rng(min(c), max(c)))
            return self.top(n)
        if op == '%':
            if bl > 0 and al >= 0:
                out = [('0', 0, min(bh - 1, ah))] + [(t, -INF, h - 1) for t, l, h in b.reps if t != '0']
                return self.fit(S, n, V(out))
            return self.top(n)
        if op == '/':
            if bl > 0 and al >= 0:
                out = [('0', al // bh if bh < INF // 2 else 0, ah // bl)] + [(t, -INF, h) for t, l, h in a.reps if t != '0']
                return self.fit(S, n, V(out))
            return self.top(n)
        if op == '&':
            if bl >= 0 or al >= 0:
                m = min([x for x, l in ((bh, bl), (ah, al)) if l >= 0])
                return self.fit(S, n, self.rng(0, m))
            return self.top(n)
        if op == '|' or op == '^':
            if al >= 0 and bl >= 0 and max(ah, bh) < INF // 2:
                return self.fit(S, n, self.rng(max(al, bl) if op == '|' else 0, (1 << max(ah, bh).bit_length()) - 1))
            return self.top(n)
        if op == '>>':
            if al >= 0 and 0 <= bl and bh < 128:
                return self.fit(S, n, V([('0', al >> bh, ah >> bl)] + [(t, -INF, h) for t, l, h in a.reps if t != '0']))
            return self.top(n)
        if op == '<<':
            if al >= 0 and 0 <= bl and bh < 64 and ah < INF // 2:
                return self.fit(S, n, self.rng(al << bl, ah << bh))
            return self.top(n)
        return self.top(n)

    def lenv(self, S, k):
        r = [('len:' + k, 0, 0)]
        if k in self.clen:
            r.append(('0', self.clen[k], self.clen[k]))
        else:
            r.append(('0', self.lb(S, 'len:' + k), self.ub(S, 'len:' + k)))
        return V(r)

    def contkey(self, n):
        """key of a container expression"""
        n = strip(n)
        while n is not None and n['k'] == 'Call' and n.get('q') in ('std::move', 'std::forward', 'std::as_const'):
            n = strip(n['c'][0])
        return self.key(n) if n is not None else None

    def call(self, S, n):
        q = n.get('q', '')
        nm = q.split('::')[-1].split('<')[0]
        c = [x for x in n.get('c', ()) if x is not None]
        if n['k'] == 'MCall' and n.get('obj') is not None and q.startswith(CONT):
            o = self.contkey(n['obj'])
            if nm in ('size', 'length') and o:
                return self.lenv(S, o)
            if nm == 'size':
                return self.rng(0, MAXLEN)
            if nm in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of') and o and 'basic_string' in q:
                return V([('0', 0, (1 << 64) - 1), ('F:' + o, 0, 0)])
            if nm in ('get', 'data', 'c_str', 'begin', 'cbegin') and o:
                return V([('0', 0, 0)], o)
            return None
        if q in ('std::min', 'std::max') and len(c) == 2:
            a, b = self.eval(S, c[0]), self.eval(S, c[1])
            al, ah, bl, bh = self.lo(S, a), self.hi(S, a), self.lo(S, b), self.hi(S, b)
            if q == 'std::min':
                return V(self.prune([('0', min(al, bl), min(ah, bh))] + [(t, -INF, h) for t, l, h in a.reps + b.reps if t != '0']))
            return V(self.prune([('0', max(al, bl), max(ah, bh))] + [(t, l, INF) for t, l, h in a.reps + b.reps if t != '0']))
        if q in ('std::move', 'std::forward') and c:
            return self.eval(S, c[0])
        if q in ('strlen', 'std::strlen') and c:
            a = self.eval(S, c[0])
            r = [('0', 0, MAXLEN)]
            if a.base:
                r.append(('len:' + a.base, -INF, -1 - max(0, self.lo(S, a))))
            return V(r)
        if q == 'std::distance' and len(c) == 2:
            a, b = self.eval(S, c[0]), self.eval(S, c[1])
            if a.base and a.base == b.base:
                return self.subv(S, V(b.reps), V(a.reps))
        if q.startswith('CppUtilities::BinaryReader::readSynchsafeUInt32'):
            return self.rng(0, (1 << 28) - 1)
        if q.startswith('CppUtilities::BinaryReader::readUInt24') or q.startswith(('CppUtilities::BE::toUInt24', 'CppUtilities::LE::toUInt24')):
            return self.rng(0, (1 << 24) - 1)
        r = self.inline(S, n)
        if r is not None:
            return r
        if self.con is not None:
            r = self.con.value(self, S, n)
            if r is not None:
                o = self.opaque(S, n) if not r.base else None
                return V(self.prune(r.reps + o.reps)) if o is not None else r
        return self.opaque(S, n)

    def inline(self, S, n):
        """value of a method which consists of returning an expression of members"""
        if n['k'] != 'MCall' or 'fn' not in n or n.get('c') or n.get('obj') is None:
            return None
        ts = self.p.targets(n)
        g = self.p.fns.get(ts[0]) if len(ts) == 1 else None
        if g is None or not g.body or g.params:
            return None
        b = g.body
        while b['k'] in ('Block', 'Compound') and len(b.get('c', ())) == 1:
            b = b['c'][0]
        if b['k'] != 'Return' or not b.get('c') or b['c'][0] is None or any(x['k'] in ('Lambda', 'Assign', 'CAssign') for x in nodes(b)):
            return None
        o = self.key(n['obj'])
        if o is None or self.depth > 3:
            return None
        f, env = self.f, self.env
        self.f, self.env = g, {'this': o}
        self.depth += 1
        try:
            v = self.eval(S, b['c'][0])
        finally:
            self.f, self.env = f, env
            self.depth -= 1
        return v if any(t != '0' for t, l, h in v.reps) or v.base else None

    def opaque(self, S, n):
        """constant method without arguments: the same value as long as nothing it reads is changed"""
        if n['k'] != 'MCall' or not n.get('mc') or n.get('c') or n.get('obj') is None or 'fn' not in n or self.f.ty(n).get('k') != 'int':
            return None
        o = self.key(n['obj'])
        if o is None:
            return None
        rd = set()
        for t in self.p.targets(n):
            r = self.reads(t, 3)
            if r is None:
                return None
            rd |= r
        k = 'C:%s.%s()' % (o, n['q'].split('::')[-1])
        self.creads[k] = (o, rd)
        r = self.trange(n)
        if r:
            self.types.setdefault(k, r)
        return V([(k, 0, 0), ('0',) + self.types.get(k, (-INF, INF))])

    def reads(self, t, depth):
        g = self.p.fns.get(t)
        if g is None or not g.body or depth == 0:
            return None
        if t in self.rcache:
            return self.rcache[t]
        out = set()
        for x in g.nodes():
            if x['k'] == 'Member':
                out.add(x['n'])
            elif x['k'] == 'Global':
                out = None
                break
            elif x['k'] in ('Call', 'MCall', 'OCall', 'Ctor') and 'fn' in x:
                for y in self.p.targets(x):
                    if y in self.p.fns and self.p.fns[y].body and self.p.fns[y].file.startswith(self.p.repo):
                        r = self.reads(y, depth - 1)
                        if r is None:
                            out = None
                            break
                        out |= r
                if out is None:
                    break
        self.rcache[t] = out
        return out

    def killopaque(self, S, es):
        cs = [k for k in S.keys() if k.startswith('C:')]
        for k in cs:
            o, rd = self.creads[k]
            for kk, kind, e in es:
                kk = (kk or '?').replace('len:', '')
                if kind == 'member' and kk.split('.')[-1].strip('[]') in rd or kind != 'member' and ('.' in kk and kk.split('.')[-1] in rd or kk == o or o.startswith(kk + '.')):
                    S.kill(k)
                    break

    def pointer(self, S, n, k):
        n0 = n
        if k == 'Str':
            b = 'str:%d' % n['l']
            self.clen[b] = self.f.ty(n).get('n', 1)
            return V([('0', 0, 0)], b)
        if k == 'Un' and n['op'] in ('++', '--'):
            v = self.eval(S, n['c'][0])
            es = self.esize(n)
            if n.get('post') and es:
                c = -es if n['op'] == '++' else es
                return V([(x, l + c, h + c) for x, l, h in v.reps], v.base, es)
            return v
        if k == 'Un' and n['op'] == '&':
            x = strip(n['c'][0])
            if x['k'] in ('Index', 'OCall') and (x['k'] == 'Index' or x.get('op') == '[]'):
                b = self.eval(S, x['c'][0]) if self.f.ty(x['c'][0]).get('k') in ('ptr', 'arr') else None
                if b is None or b.base is None:
                    o = self.contkey(x['c'][0])
                    b = V([('0', 0, 0)], o) if o else V([])
                if b.base is not None:
                    i = self.eval(S, x['c'][1])
                    return V(self.addv(S, V(b.reps), i).reps, b.base)
            kk = self.key(x)
            if kk:
                t = self.f.ty(x)
                if t.get('k') == 'ref':
                    t = self.f.T[t['e']]
                if t.get('k') == 'arr':
                    return V([('0', 0, 0)], kk)
                w = t.get('z') or t.get('w', 0) // 8 or (1 if t.get('k') == 'bool' else 0)
                if w:
                    self.clen['&' + kk] = max(1, w)
                    return V([('0', 0, 0)], '&' + kk)
            return V([])
        if k == 'Bin' and n['op'] in ('+', '-'):
            a, b = self.eval(S, n['c'][0]), self.eval(S, n['c'][1])
            if b.base is not None and n['op'] == '+':
                a, b = b, a
            es = self.esize(n)
            if a.base is None or es is None:
                return V([])
            if es != 1:
                l, h = self.lo(S, b), self.hi(S, b)
                b = self.rng(l * es if l > -INF // 2 else -INF, h * es if h < INF // 2 else INF)
            r = self.addv(S, V(a.reps), b) if n['op'] == '+' else self.subv(S, V(a.reps), b)
            return V(r.reps, a.base, es)
        if k == 'Cond':
            return self.joinv(S, self.eval(S, n['c'][1]), self.eval(S, n['c'][2]))
        if k in ('Assign', 'CAssign'):
            return self.eval(S, n['c'][0])
        if k in ('Call', 'MCall'):
            r = self.call(S, n)
            if r is not None:
                return r
            if n['k'] == 'MCall':
                kk = self.key(n)
                if kk and kk in S.base:
                    return V([(kk, 0, 0)], S.base[kk], self.esize(n) or 1)
                if kk and '(' not in kk:
                    return V([('0', 0, 0)], kk) if kk in self.clen else V([])
                b = self.staticarray(n)
                if b:
                    return V([('0', 0, 0)], b)
            if n.get('q') != 'std::get':
                b = self.staticarray(n)
                return V([('0', 0, 0)], b) if b else V([])
        kk = self.key(n)
        if kk is None:
            return V([])
        if self.f.ty(strip(n)).get('k') == 'arr' or kk in self.clen and kk not in S.base:
            return V([('0', 0, 0)], kk)
        if kk in S.base:
            return V([(kk, 0, 0)], S.base[kk], self.esize(n) or 1)
        return V([])

    def plainobj(self, n):
        n = strip(n)
        while n is not None and n['k'] in ('Cast', 'Temp', 'Bind', 'Ctor') and len([x for x in n.get('c', ()) if x]) == 1:
            n = strip(n['c'][0])
        return n

    def staticarray(self, n):
        """array of known length returned by the function called"""
        o = n.get('obj')
        o = self.plainobj(o) if n['k'] == 'MCall' and n.get('q', '').split('::')[-1] in ('data', 'c_str') else None
        if o is not None and o['k'] == 'Call' and o.get('q') == 'CppUtilities::interpretIntegerAsString' and o.get('c'):
            w = self.f.ty(o['c'][0]).get('w')
            if w:
                self.clen['text:%d' % w] = w // 8
                return 'text:%d' % w
            return None
        ts = self.p.targets(n)
        g = self.p.fns.get(ts[0]) if len(ts) == 1 else None
        if g is None or not g.body:
            return None
        ls = []
        for r in g.nodes():
            if r['k'] == 'Return':
                x = strip(r['c'][0]) if r.get('c') and r['c'][0] is not None else None
                while x is not None and x['k'] == 'Cast' and x.get('c'):
                    x = strip(x['c'][0])
                t = g.ty(x) if x is not None and x['k'] in ('Var', 'Global') else {}
                if t.get('k') != 'arr' or t.get('n') is None:
                    return None
                ls.append(t['n'])
        if not ls:
            return None
        b = 'static:' + g.id
        self.clen[b] = min(ls)
        return b

    def amount(self, S, n):
        """number of elements which has been allocated (no negative number turned into a huge one as that would have failed)"""
        while n['k'] == 'Cast' and 'cv' not in n and n.get('ck') in ('IntegralCast', 'NoOp', 'LValueToRValue') and self.f.ty(n).get('k') == 'int' \
                and self.f.ty(n['c'][0]).get('k') == 'int' and self.f.ty(n)['w'] == 64 and self.f.ty(n['c'][0])['w'] == 64:
            n = n['c'][0]
        v = self.eval(S, n)
        return V([(t, max(l, 0), min(h, MAXLEN)) if t == '0' else (t, l, h) for t, l, h in v.reps])

    # ---- lengths of containers created by expressions
    def lenof(self, S, n):
        n = strip(n)
        if n is None:
            return self.rng(0, MAXLEN)
        k = n['k']
        c = [x for x in n.get('c', ()) if x is not None and x['k'] != 'DefArg']
        q = n.get('q', '')
        if k == 'Ctor':
            t = self.f.ty(n).get('s', '')
            if len(c) == 0:
                return self.const(0)
            if len(c) == 1:
                a = strip(c[0])
                at = self.f.ty(a)
                if at.get('k') in ('int', 'enum') and 'vector' in t:
                    return self.eval(S, a)
                if at.get('k') in ('arr',) and a['k'] == 'Str':
                    return self.const(max(0, at.get('n', 1) - 1))
                if at.get('k') == 'rec' or n.get('cm'):
                    return self.lenof(S, a)
                return self.rng(0, MAXLEN)
            if len(c) == 2:
                a, b = strip(c[0]), strip(c[1])
                if self.f.ty(a).get('k') in ('ptr', 'arr') and self.f.ty(b).get('k') == 'int':
                    return self.eval(S, c[1])
                if self.f.ty(a).get('k') == 'int':
                    return self.eval(S, c[0])
            return self.rng(0, MAXLEN)
        if k == 'Call' and q in ('std::make_unique',) and c:
            return self.amount(S, c[0])
        if k == 'Call' and q in ('std::move', 'std::forward') and c:
            return self.lenof(S, c[0])
        if k == 'New' and n.get('size') is not None:
            return self.amount(S, n['size'])
        if k == 'Cast' or k == 'MCall' and 'operator basic_string_view' in q:
            return self.lenof(S, n['c'][0] if k == 'Cast' else n['obj'])
        if k == 'MCall' and q.startswith('std::basic_string_view<') and q.endswith('substr') and len(n['c']) == 2 and n['c'][1]['k'] != 'DefArg':
            v = self.eval(S, n['c'][1])
            return V([('0', 0, self.hi(S, v))] + [(t, -INF, h) for t, l, h in v.reps if t != '0'])
        if k in ('Assign',) or k == 'OCall' and n.get('op') == '=':
            return self.lenof(S, n['c'][1])
        kk = self.key(n)
        if kk:
            return self.lenv(S, kk)
        if self.con is not None:
            r = self.con.length(self, S, n)
            if r is not None:
                return r
        return self.rng(0, MAXLEN)

    # ---- transfer
    def assign(self, S, k, v, base=None):
        """k = value (k itself may occur in the value)"""
        new = {}        # y -> (upper bound of k'-y, upper bound of y-k')
        def put(y, up, dn):
            a, b = new.get(y, (INF, INF))
            new[y] = (min(a, up), min(b, dn))
        for t, l, h in v.reps:
            if t[0] == SIG and k in dict(comps(t)):
                continue
            if t != k:
                put(t, h, -l)
            ys = set(S.d.get(t, ())) | {y for y, r in S.d.items() if t in r}
            for y in ys:
                if y != k and not (y[0] == SIG and k in dict(comps(y))):
                    put(y, S.get(t, y) + h, S.get(y, t) - l)
        S.kill(k)
        for y, (u, w) in new.items():
            if u < INF // 2:
                S.add(k, y, u)
            if w < INF // 2:
                S.add(y, k, w)
        if base is not None:
            S.base[k] = base

    def setvar(self, S, k, n, t):
        """variable or member k of type t gets the value of the expression n"""
        if t.get('k') == 'ref':
            t = self.f.T[t['e']]
        tk = t.get('k')
        if tk in ('int', 'enum', 'bool'):
            if 'w' in t:
                self.types[k] = (0, (1 << t['w']) - 1) if t.get('u') else (-(1 << (t['w'] - 1)), (1 << (t['w'] - 1)) - 1)
            v = self.eval(S, n) if n is not None else V([])
            r = self.types.get(k)
            if r and not (self.lo(S, v) >= r[0] and self.hi(S, v) <= r[1]):
                v = self.rng(*r)
            self.assign(S, k, v)
        elif tk == 'ptr':
            v = self.eval(S, n) if n is not None else V([])
            x = strip(n) if n is not None else None
            if x is not None and x['k'] == 'New':
                ln = self.lenof(S, x)
                S.killp(k)
                self.assign(S, 'len:' + k, ln)
                self.assign(S, k, self.const(0), k)
            elif v.base is not None:
                self.assign(S, k, V(v.reps), v.base)
            else:
                S.kill(k)
        elif tk == 'arr':
            S.killp(k)
            if t.get('n') is not None:
                self.clen[k] = t['n']
        elif tk == 'rec' and t.get('s', '').replace('const ', '').startswith(CONT):
            v = self.lenof(S, n) if n is not None else self.const(0)
            # moved from another one: pointers into it stay valid
            self.assign(S, 'len:' + k, v)
            for x in [x for x, b in S.base.items() if b == k]:
                S.kill(x)
        elif tk == 'rec' and t.get('s', '').replace('const ', '').startswith(('std::tuple<', 'std::pair<')):
            x = strip(n) if n is not None else None
            O = S.copy()
            S.killp(k)
            while x is not None and x['k'] == 'Ctor' and len([y for y in x['c'] if y]) == 1:
                x = strip(x['c'][0])
            while x is not None and x['k'] == 'Call' and x.get('q') == 'std::move':
                x = strip(x['c'][0])
            if x is not None and x['k'] == 'Ctor' and x.get('c'):
                names = [str(i) for i in range(len(x['c']))]
                vs = [self.eval(O, y) for y in x['c']]
                self.settuple(S, k, vs)
            elif x is not None and self.con is not None:
                self.con.post(self, S, k, x, O)
            elif x is None and self.con is not None:
                self.con.post(self, S, k, None, O)
        else:
            S.killp(k)

    def settuple(self, S, k, vs):
        for i, v in enumerate(vs):
            self.assign(S, '%s.%d' % (k, i), V(v.reps), v.base)
        if len(vs) > 1 and vs[0].base is not None:
            self.gh[k + '.0', k + '.1'] = k + '.sum'
            self.assign(S, k + '.sum', self.addv(S, V(vs[0].reps), V(vs[1].reps)))

    def shift(self, S, k, v, sign):
        """k += / -= v"""
        cur = V([(k, 0, 0)])
        base = S.base.get(k)
        r = self.addv(S, cur, v) if sign > 0 else self.subv(S, cur, v)
        if base is None:
            t = self.types.get(k)
            if t and not (self.lo(S, r) >= t[0] and self.hi(S, r) <= t[1]):
                r = self.rng(*t)
        g = next((g for ab, g in self.gh.items() if k in ab), None)
        if g and (g in S.d or any(g in x for x in S.d.values())):
            gr = self.addv(S, V([(g, 0, 0)]), v) if sign > 0 else self.subv(S, V([(g, 0, 0)]), v)
            self.assign(S, g, gr)
        self.assign(S, k, r, base)

    def step(self, n, S, x=False):
        R = self.step0(n, S, x)
        if R is not S and n.k == 'e' and any(k.startswith('C:') for k in R.keys()):
            es = self.effects(self.f, n.a)
            if es:
                self.killopaque(R, es)
        return R

    def step0(self, n, S, x=False):
        """effect of a node (x: it is left by an exception)"""
        if n.k == 'd':
            S = S.copy()
            self.setvar(S, 'v%s' % n.a['id'], n.a.get('i'), self.f.T[n.a['t']])
            return S
        if n.k == 'i' and n.a.get('m') and n.a.get('e'):
            S = S.copy()
            self.setvar(S, 'this.' + n.a['m'], n.a['e'], self.f.ty(n.a['e']))
            return S
        if n.k != 'e':
            return S
        a = n.a
        k, op = a['k'], a.get('op')
        if k == 'Un' and op in ('++', '--') and not x:
            kk = self.key(a['c'][0])
            if kk is None:
                return S
            S = S.copy()
            es = self.esize(a['c'][0]) if self.f.ty(a['c'][0]).get('k') == 'ptr' else 1
            if es is None:
                S.kill(kk)
            else:
                self.shift(S, kk, self.const(es), 1 if op == '++' else -1)
            return S
        if (k == 'Assign' or k == 'OCall' and op == '=') and not x:
            l = strip(a['c'][0])
            kk = self.key(l)
            if kk is None:
                return S
            S = S.copy()
            t = self.f.ty(l)
            if t.get('k') == 'ref':
                t = self.f.T[t['e']]
            for ab, g in self.gh.items():
                if kk in ab:
                    S.kill(g)
            self.setvar(S, kk, a['c'][1], t)
            return S
        if k == 'CAssign' and not x:
            kk = self.key(a['c'][0])
            if kk is None:
                return S
            S = S.copy()
            if op in ('+=', '-='):
                v = self.eval(S, a['c'][1])
                es = self.esize(a['c'][0]) if self.f.ty(a['c'][0]).get('k') == 'ptr' else 1
                if es not in (1, None):
                    l, h = self.lo(S, v), self.hi(S, v)
                    v = self.rng(l * es if l > -INF // 2 else -INF, h * es if h < INF // 2 else INF)
                self.shift(S, kk, V(v.reps), 1 if op == '+=' else -1)
            elif op in ('>>=', '/=', '&=', '%=', '*=', '|=', '<<='):
                fake = {'k': 'Bin', 'op': op[:-1], 't': a['c'][0].get('t'), 'c': [a['c'][0], a['c'][1]], 'l': a.get('l')}
                v = self.arith(S, fake, op[:-1])
                self.assign(S, kk, V(v.reps))
            else:
                S.kill(kk)
            return S
        if k in ('Call', 'MCall', 'OCall', 'Ctor', 'Lambda'):
            q = a.get('q', '')
            if q in ('std::get', 'std::move', 'std::forward', 'std::as_const', 'std::addressof', 'std::min', 'std::max'):
                return S
            es = self.effects(self.f, a)
            S2 = S.copy()
            nm = q.split('::')[-1].split('<')[0]
            handled = None
            if k == 'MCall' and q.startswith(CONT) and a.get('obj') is not None:
                o = self.contkey(a['obj'])
                if o:
                    handled = o
                    c = [y for y in a.get('c', ()) if y is not None and y['k'] != 'DefArg']
                    ln = 'len:' + o
                    if not x:
                        if nm in ('resize',) and c:
                            self.assign(S2, ln, self.eval(S, c[0]))
                        elif nm == 'clear':
                            self.assign(S2, ln, self.const(0))
                        elif nm in ('push_back', 'emplace_back'):
                            self.assign(S2, ln, V([(ln, 1, 1)] + [('0', self.lb(S, ln) + 1, self.ub(S, ln) + 1)]))
                        elif nm == 'pop_back':
                            self.assign(S2, ln, V([(ln, -1, -1)] + [('0', max(0, self.lb(S, ln) - 1), self.ub(S, ln) - 1)]))
                        elif nm in ('reset',):
                            S2.kill(ln)
                        elif nm in ('append',) and len(c) == 2 and self.f.ty(strip(c[1])).get('k') == 'int':
                            i = 1 if self.f.ty(strip(c[0])).get('k') in ('ptr', 'arr') else 0
                            v = self.eval(S, c[i])
                            self.assign(S2, ln, self.addv(S, V([(ln, 0, 0)]), v))
                        elif nm == 'remove_prefix' and c:
                            self.assign(S2, ln, self.subv(S, V([(ln, 0, 0)]), self.eval(S, c[0])))
                        elif not a.get('mc') and nm not in ('reserve', 'begin', 'end', 'data', 'back', 'front', 'at', 'get', 'rbegin', 'rend', 'operator[]', 'operator->', 'operator*', 'shrink_to_fit', 'swap', 'release'):
                            S2.kill(ln)
                    else:
                        S2.kill(ln)
            if k == 'OCall' and op == '+=' and self.contkey(a['c'][0]):
                S2.kill('len:' + self.contkey(a['c'][0]))
            for kk, kind, e in es:
                if kind == 'member':
                    for y in S2.keys():
                        z = y[4:] if y.startswith('len:') else y
                        if (z.endswith(kk) or (kk + '.') in z or (kk + '[') in z) and '.' in z:
                            S2.kill(y)
                elif kk == handled or kk.startswith('len:'):
                    continue
                elif kind in ('mod', 'mod?', 'set', 'zero', 'chain', 'obj', 'grow', '+1', '-1', '+', '-'):
                    if kind == 'mod?':
                        continue
                    if kind == 'obj' or '(' in kk:
                        continue
                    S2.killp(kk)
            if self.con is not None and not x:
                self.con.effect(self, S, S2, a)
            return S2
        return S

    def cond(self, S, c, val):
        """state after condition c turned out as val; None if impossible"""
        c = strip(c)
        while c['k'] == 'Cast' and c.get('c') and 'cv' not in c and c.get('ck') in ('IntegralToBoolean', 'PointerToBoolean', 'LValueToRValue', 'NoOp', 'IntegralCast', 'UserDefinedConversion') and self.f.ty(c).get('k') == 'bool':
            c = c['c'][0]
        k = c['k']
        if k in ('Un', 'OCall') and c.get('op') == '!' and len(c['c']) == 1:
            return self.cond(S, c['c'][0], not val)
        if k in ('Assign', 'CAssign') or k == 'Un' and c['op'] in ('++', '--') and not c.get('post'):
            return self.cond(S, c['c'][0], val) if k != 'Un' else self.truth(S, c, val)
        if k == 'Bin' and c.get('op') in ('&&', '||'):
            if (c['op'] == '&&') == val:
                S = self.cond(S, c['c'][0], val)
                return self.cond(S, c['c'][1], val) if S is not None else None
            a = self.cond(S, c['c'][0], val)
            b = self.cond(S, c['c'][0], not val)
            b = self.cond(b, c['c'][1], val) if b is not None else None
            return a.join(b) if a is not None and b is not None else a if b is None else b
        if k in ('Bin', 'OCall') and c.get('op') in ('<', '>', '<=', '>=', '==', '!=') and len(c['c']) == 2:
            op = c['op']
            if not val:
                op = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}[op]
            a, b = self.eval(S, c['c'][0]), self.eval(S, c['c'][1])
            if (a.base is None) != (b.base is None) or a.base != b.base:
                return S
            return self.relate(S, a, op, b)
        if k == 'MCall' and c.get('q', '').split('::')[-1] == 'empty' and c.get('q', '').startswith(CONT):
            o = self.contkey(c['obj'])
            if o:
                return self.relate(S, self.lenv(S, o), '==' if val else '>', self.const(0))
            return S
        if k in ('Call', 'MCall') and 'fn' in c:
            r = self.inlinecond(S, c, val)
            if r is not False:
                return r
        return self.truth(S, c, val)

    def single(self, n):
        """function called which consists of returning an expression, binding of its parameters"""
        ts = self.p.targets(n)
        g = self.p.fns.get(ts[0]) if len(ts) == 1 else None
        if g is None or not g.body or self.depth > 3:
            return None
        b = g.body
        while b['k'] in ('Block', 'Compound') and len(b.get('c', ())) == 1:
            b = b['c'][0]
        if b['k'] != 'Return' or not b.get('c') or b['c'][0] is None or any(x['k'] in ('Lambda', 'Assign', 'CAssign') for x in nodes(b)):
            return None
        env = {}
        if n['k'] == 'MCall' and n.get('obj') is not None:
            o = self.key(n['obj'])
            env['this'] = o if o is not None else '?'
        used = {x['v'] for x in nodes(b) if x['k'] == 'Var'}
        for d, x in zip(g.params, n.get('c', ())):
            if 'id' in d and d['id'] in used:
                kk = self.key(x) if x is not None and not isinstance(x.get('cv'), int) else None
                if kk is None:
                    return None
                # conversions of the argument must not change the value
                t = g.T[d['t']]
                if t.get('k') in ('int', 'enum'):
                    r = self.types.get(kk)
                    lo, hi = (0, (1 << t['w']) - 1) if t.get('u') else (-(1 << (t['w'] - 1)), (1 << (t['w'] - 1)) - 1)
                    if r is None or r[0] < lo or r[1] > hi:
                        return None
                env[d['id']] = kk
        return g, b['c'][0], env

    def inlinecond(self, S, c, val):
        r = self.single(c)
        if r is None:
            return False
        f, env = self.f, self.env
        self.f, _, self.env = r
        self.depth += 1
        try:
            return self.cond(S, r[1], val)
        finally:
            self.f, self.env = f, env
            self.depth -= 1

    def truth(self, S, c, val):
        t = self.f.ty(c)
        if t.get('k') in ('int', 'enum', 'bool'):
            return self.relate(S, self.eval(S, c), '!=' if val else '==', self.const(0))
        return S

    def relate(self, S, a, op, b):
        S = S.copy()
        if op == '!=':
            for x, y in ((a, b), (b, a)):
                # result of a search which has found something
                if self.lo(S, y) == (1 << 64) - 1:
                    for t, l, h in x.reps:
                        fs = [u for u in S.d.get(t, ()) if u.startswith('F:') and S.get(t, u) == 0 and S.get(u, t) == 0] if t != '0' else []
                        for u in fs:
                            S.add(t, 'len:' + u[2:], -1 + l * 0)
            # only helps at the end of the range
            for x, y in ((a, b), (b, a)):
                if self.diff(S, x, y) <= 0 and not self.le(S, x, y, -1):
                    return None
            return S
        if op in ('<', '<=', '=='):
            if not self.le(S, a, b, -1 if op == '<' else 0):
                return None
        if op in ('>', '>=', '=='):
            if not self.le(S, b, a, -1 if op == '>' else 0):
                return None
        return S

    def le(self, S, a, b, c):
        """a <= b + c holds"""
        for t, l, h in a.reps:
            for t2, l2, h2 in b.reps:
                w = h2 - l + c
                if t == t2:
                    if w < 0:
                        return False
                    continue
                if not S.add(t, t2, w):
                    return False
        # type ranges
        for v in (a, b):
            for t, l, h in v.reps:
                if t != '0' and (t in self.types or t.startswith('len:')):
                    if self.lb(S, t) > self.ub(S, t):
                        return False
        return True

    def entry(self):
        S = Z()
        for d in self.f.params:
            if 'id' in d and d.get('t') is not None:
                t = self.f.T[d['t']]
                k = 'v%s' % d['id']
                if t.get('k') == 'ref':
                    t = self.f.T[t['e']]
                if t.get('k') in ('int', 'enum', 'bool') and 'w' in t:
                    self.types[k] = (0, (1 << t['w']) - 1) if t.get('u') else (-(1 << (t['w'] - 1)), (1 << (t['w'] - 1)) - 1)
        if self.con is not None:
            self.con.entry(self, S)
        return S

    def run(self, budget=60000):
        cfg = self.cfg
        st = {cfg.entry.i: self.entry()}
        cnt = {}
        self.dead = self.liveness() if len(cfg.nodes) > 400 else None
        # back edge targets
        heads = self.heads()
        work, inw = [cfg.entry], {cfg.entry.i}
        order = self.order()
        import heapq
        heap = [(order[cfg.entry.i], cfg.entry.i)]
        byi = {n.i: n for n in cfg.nodes}
        steps = 0
        while heap:
            _, i = heapq.heappop(heap)
            if i not in inw:
                continue
            inw.discard(i)
            n = byi[i]
            steps += 1
            if steps > budget:
                self.st = st
                return False
            for m, S in self.out(n, st[i]):
                S = self.drop(m.i, S)
                old = st.get(m.i)
                if old is None:
                    st[m.i] = S
                else:
                    old, S = self.sums(old, S), self.sums(S, old)
                    if m.i in heads:
                        cnt[m.i] = cnt.get(m.i, 0) + 1
                        J = old.join(S, cnt[m.i] > 3)
                    else:
                        J = old.join(S)
                    if J.same(old):
                        continue
                    st[m.i] = J
                if m.i not in inw:
                    inw.add(m.i)
                    heapq.heappush(heap, (order.get(m.i, 0), m.i))
        # two descending rounds
        for _ in range(2):
            new = {cfg.entry.i: self.entry()}
            outs = {}
            for i in sorted(st, key=lambda i: order.get(i, 0)):
                for m, S in self.out(byi[i], st[i]):
                    outs.setdefault(m.i, []).append(self.drop(m.i, S))
            for i, l in outs.items():
                J = l[0]
                for x in l[1:]:
                    J, x = self.sums(J, x), self.sums(x, J)
                    J = J.join(x)
                new[i] = J
            st = new
        self.st = st
        return True

    def liveness(self):
        """scalar variables which are dead before a node"""
        f, cfg = self.f, self.cfg
        sc, bad = set(), {v for v in ()}
        use, dfn = {}, {}
        for m in cfg.nodes:
            u, d = use.setdefault(m.i, set()), dfn.setdefault(m.i, set())
            a = m.a if isinstance(m.a, dict) else None
            if a is None:
                continue
            if m.k == 'd' and a.get('id') is not None:
                t = f.T[a['t']] if a.get('t') is not None else {}
                k = 'v%s' % a['id']
                if t.get('k') in ('int', 'enum', 'bool', 'ptr', 'float'):
                    sc.add(k)
                d.add(k)
            for x in nodes(a):
                if x['k'] == 'Var':
                    u.add('v%s' % x['v'])
                elif x['k'] == 'Lambda' or x['k'] == 'Un' and x['op'] == '&':
                    for y in nodes(x):
                        if y['k'] == 'Var':
                            bad.add('v%s' % y['v'])
                    for l in x.get('fns', ()):
                        lf = self.p.fns.get(l)
                        if lf:
                            for y in lf.nodes():
                                if y['k'] == 'Var':
                                    bad.add('v%s' % y['v'])
                elif x['k'] == 'DeclStmt':
                    pass
        for n in f.nodes():
            if n['k'] == 'Decl' and n.get('t') is not None and f.T[n['t']].get('k') == 'ref':
                for y in nodes(n):
                    if y['k'] == 'Var':
                        bad.add('v%s' % y['v'])
        for m in cfg.nodes:
            if m.k == 'd' and isinstance(m.a, dict) and m.a.get('t') is not None and f.T[m.a['t']].get('k') == 'ref':
                for y in nodes(m.a):
                    if y['k'] == 'Var':
                        bad.add('v%s' % y['v'])
        sc -= bad
        live = {m.i: set() for m in cfg.nodes}
        pred = {}
        for m in cfg.nodes:
            for lab, o in m.succ:
                pred.setdefault(o.i, []).append(m)
        work = list(cfg.nodes)
        while work:
            m = work.pop()
            o = set()
            for lab, x in m.succ:
                o |= live[x.i]
            new = (o - dfn[m.i]) | (use[m.i] & sc)
            if new != live[m.i]:
                live[m.i] = new
                work.extend(pred.get(m.i, ()))
        return {i: sc - l for i, l in live.items()}

    def drop(self, i, S):
        if self.dead is None:
            return S
        ks = [x for x in S.keys() if (x[4:] if x.startswith('len:') else x).split('.')[0] in self.dead[i]]
        if ks:
            S = S.copy()
            for x in ks:
                S.kill(x)
        return S

    def sums(self, X, Y):
        """X with bounds of sums which are only kept in Y"""
        R = X
        if self.coarse:
            return X
        for t, r in Y.d.items():
            if t[0] != SIG and t != '0':
                xd = X.d.get(t, {})
                for y, c in r.items():
                    if y.startswith('len:') and y not in xd:
                        w = self.ub(X, t) - self.lb(X, y)
                        if w <= c:
                            if R is X:
                                R = X.copy()
                            R.add(t, y, w)
            if t[0] != SIG or t in X.d or '-' in t:
                continue
            cs = [x for x, c in comps(t)]
            if len(cs) != 2:
                continue
            for y, c in r.items():
                if not y.startswith('len:'):
                    continue
                a, b = cs
                w = min(X.get(a, y) + self.ub(X, b), X.get(b, y) + self.ub(X, a))
                if w < INF // 2:
                    if R is X:
                        R = X.copy()
                    R.add(t, y, w)
        return R

    def out(self, n, S):
        r = []
        if self.restrict is not None and n.i in self.restrict[2]:
            S = self.relate(S, V([(self.restrict[0], 0, 0)]), '==', self.const(self.restrict[1]))
            if S is None:
                return r
        norm = None
        for lab, m in n.succ:
            if isinstance(lab, tuple) and lab and lab[0] == 'x':
                r.append((m, self.step(n, S, True)))
            elif n.k == 'b' and lab in (True, False):
                X = self.cond(S, n.a, lab)
                if X is not None:
                    r.append((m, X))
            elif n.k == 's' and isinstance(lab, tuple) and lab[0] == 'case':
                X = S
                if isinstance(lab[1], int):
                    v = self.eval(S, n.a)
                    X = self.relate(S, v, '>=', self.const(lab[1]))
                    if X is not None:
                        X = self.relate(X, v, '<=', self.const(lab[2] if lab[2] is not None else lab[1]))
                if X is not None:
                    r.append((m, X))
            elif n.k == 's' and lab == 'default':
                # none of the other labels
                X, v = S, self.eval(S, n.a)
                if self.lo(S, v) == self.hi(S, v):
                    for l2, _ in n.succ:
                        if isinstance(l2, tuple) and l2[0] == 'case' and isinstance(l2[1], int) and l2[1] <= self.lo(S, v) <= (l2[2] if l2[2] is not None else l2[1]):
                            X = None
                if X is not None:
                    r.append((m, X))
            else:
                if norm is None:
                    norm = self.step(n, S)
                r.append((m, norm))
        return r

    def order(self):
        seen, post = set(), []
        st = [(self.cfg.entry, iter(self.cfg.entry.succ))]
        seen.add(self.cfg.entry.i)
        while st:
            n, it = st[-1]
            for lab, m in it:
                if m.i not in seen:
                    seen.add(m.i)
                    st.append((m, iter(m.succ)))
                    break
            else:
                post.append(n.i)
                st.pop()
        return {i: k for k, i in enumerate(reversed(post))}

    def heads(self):
        o = self.order()
        return {m.i for n in self.cfg.nodes if n.i in o for lab, m in n.succ if o.get(m.i, 0) <= o[n.i]}
