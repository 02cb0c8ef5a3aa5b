"""Nothing outside of a buffer is read or written."""
import os
import re
from zone import Zone, Z, V, INF, SIG, combine, strip, CONT, MAXLEN
from facts import nodes
from rules.p07 import Measures

EXPLAIN = __doc__
CONV = re.compile(r'^CppUtilities::(BE|LE)::(to|getBytes)')
INV = {'TagParser::TagValue': [('m_ptr', 'm_size')], 'TagParser::Id3v2FrameMaker': [('m_data', 'm_dataSize')]}


SIZEP = re.compile('(size|length|len|count|bytes|^n|^s)$', re.I)


def isbuf(f, t):
    """pointer to bytes"""
    if t.get('k') == 'ref':
        t = f.T[t['e']]
    if t.get('k') != 'ptr':
        return False
    e = f.T[t['e']]
    return e.get('k') == 'int' and e.get('w') == 8


def isint(f, t):
    return t.get('k') == 'int' and t.get('w', 0) >= 16


class Con:
    def __init__(self, sh, eff):
        self.sh, self.p, self.eff = sh, sh.p, eff
        self.demand = {}        # function -> parameter -> minimum length
        self.idemand = {}       # (function, parameter) -> largest value
        self._pairs, self._ret, self._depth, self._wide = {}, {}, 0, set()
        self._cond = {}
        self.lam = {}           # lambda -> analysis of the function it is called in, state

    def pairs(self, f):
        """parameter index of a buffer -> index of its size / of its end / None; containers -> None"""
        if f.id in self._pairs:
            return self._pairs[f.id]
        out = {}
        ps = f.params
        used = set()

        def T(i):
            return f.T[ps[i]['t']] if 0 <= i < len(ps) and ps[i].get('t') is not None else {}
        for i in range(len(ps)):
            if isbuf(f, T(i)) and i not in used:
                if isint(f, deref(f, T(i + 1))) and SIZEP.search(ps[i + 1].get('n') or ''):
                    out[i] = ('n', i + 1)
                    used.add(i + 1)
                elif isbuf(f, T(i + 1)):
                    out[i] = ('e', i + 1)
                    used.add(i + 1)
                else:
                    out[i] = None
            elif deref(f, T(i)).get('k') == 'rec' and deref(f, T(i)).get('s', '').replace('const ', '').startswith(('std::basic_string_view<', 'std::basic_string<', 'std::vector<')):
                out[i] = 'c'
        self._pairs[f.id] = out
        return out

    def widen(self, f, i):
        """no constant size suffices: which parameter is the size?"""
        ps = self.pairs(f)
        if ps.get(i, 0) is not None or (f.id, i) in self._wide:
            return False
        self._wide.add((f.id, i))
        for j in (i + 1, i - 1):
            if 0 <= j < len(f.params) and f.params[j].get('t') is not None and isint(f, deref(f, f.T[f.params[j]['t']])) and not any(x and x != 'c' and x[1] == j for x in ps.values()):
                ps[i] = ('n', j)
                return True
        return False

    def inv(self, z, S, pre, cls):
        for a, b in INV.get(cls, ()):
            k, s = pre + '.' + a, pre + '.' + b
            z.types.setdefault(s, (0, (1 << 64) - 1))
            S.add(s, 'len:' + k, 0)

    def entry(self, z, S):
        f = z.f
        for d in f.params:
            if 'id' in d and d.get('t') is not None and f.T[d['t']].get('k') in ('int', 'enum'):
                k = 'v%s' % d['id']
                S.add(k, 'p%s' % d['id'], 0)
                S.add('p%s' % d['id'], k, 0)
                m = self.idemand.get((f.id, 'p%s' % d['id']))
                if m is not None:
                    S.add(k, '0', m)
        for i, n in self.pairs(f).items():
            d = f.params[i]
            if 'id' not in d:
                continue
            k = 'v%s' % d['id']
            if n == 'c':
                S.add('0', 'len:' + k, -self.demand.get(f.id, {}).get(i, 0))
                continue
            ln = 'len:' + k + '$'
            z.assign(S, k, z.const(0), k + '$')
            S.add('0', ln, 0)
            if n is None:
                S.add('0', ln, -self.demand.get(f.id, {}).get(i, 0))
                continue
            if 'id' not in f.params[n[1]]:
                continue
            m = 'v%s' % f.params[n[1]]['id']
            if n[0] == 'n':
                S.add(m, ln, 0)
                z.gh[k, m] = k + '+' + m
                z.assign(S, k + '+' + m, V([(m, 0, 0)]))
            else:
                z.assign(S, m, z.rng(0, MAXLEN), k + '$')
                S.add(m, ln, 0)
        for d in f.params:
            if 'id' in d and d.get('t') is not None and istuple(deref(f, f.T[d['t']])):
                self.tuple(z, S, 'v%s' % d['id'])
            t = deref(f, f.T[d['t']]) if d.get('t') is not None else {}
            if t.get('k') == 'ptr':
                t = f.T[t['e']]
            if 'id' in d and t.get('s'):
                self.inv(z, S, 'v%s' % d['id'], t['s'].replace('const ', ''))
        cls = f.q.rsplit('::', 1)[0]
        if cls in INV and f.q.rsplit('::', 1)[1] != cls.rsplit('::', 1)[1]:
            self.inv(z, S, 'this', cls)
        par = self.lam.get(f.id)
        if par is not None:
            # lambda which is only called where it is defined
            zp, T = par
            z.types.update(zp.types)
            z.clen.update(zp.clen)
            z.gh.update(zp.gh)
            z.creads.update(zp.creads)
            own = {'v%s' % d['id'] for d in f.params if 'id' in d}
            for x, r in T.d.items():
                for y, c in r.items():
                    S.add(x, y, c)
            S.base.update({k: b for k, b in T.base.items() if k not in own})
        for k, r in getattr(z, 'given', {}).items():
            z.assign(S, k, z.rng(*r))

    def value(self, z, S, n):
        """range of what a function of the library returns for the given arguments"""
        m = re.match(r'CppUtilities::CopyHelper<(\d+)>::buffer$', n.get('q', ''))
        if m and n.get('obj') is not None:
            o = z.key(n['obj'])
            if o:
                z.clen[o + '.m_buffer'] = int(m.group(1))
                return V([('0', 0, 0)], o + '.m_buffer')
        if 'fn' not in n or z.f.ty(n).get('k') not in ('int', 'bool'):
            return None
        ts = self.p.targets(n)
        if len(ts) != 1:
            return None
        g = self.p.fns.get(ts[0])
        if g is None or not g.body or self._depth > 1 or not g.file.startswith(self.p.repo):
            return None
        if g.id not in self._ret:
            self._ret[g.id] = {} if sum(1 for _ in g.nodes()) < 200 else None
        if self._ret[g.id] is None:
            return None
        given = {}
        for d, x in zip(g.params, n.get('c', ())):
            t = g.T[d['t']] if d.get('t') is not None else {}
            if 'id' in d and t.get('k') in ('int', 'enum', 'bool') and x is not None:
                v = z.eval(S, x)
                lo, hi = z.lo(S, v), z.hi(S, v)
                if lo > -INF // 2 and hi < INF // 2:
                    given['v%s' % d['id']] = (lo, hi)
        key = tuple(sorted(given.items()))
        m = self._ret[g.id]
        if key not in m:
            if len(m) > 40:
                return None
            m[key] = None
            self._depth += 1
            q = Zone(self.sh, g, self.eff, contracts=self)
            q.given = given
            r = None
            if q.run(3000):
                byi = {x.i: x for x in q.cfg.nodes}
                for i, T in q.st.items():
                    x = byi[i]
                    if x.k == 'r' and x.a.get('c') and x.a['c'][0] is not None:
                        v = q.eval(T, x.a['c'][0])
                        lh = (q.lo(T, v), q.hi(T, v))
                        r = lh if r is None else (min(r[0], lh[0]), max(r[1], lh[1]))
            self._depth -= 1
            m[key] = r
        r = m[key]
        t = z.trange(n)
        if r and t and r[0] >= t[0] and r[1] <= t[1]:
            return z.rng(*r)
        return None

    def conditional(self, ctx, z, S, g, i, args):
        """minimum length of the buffer for the values of the other arguments"""
        given = {}
        for d, x in zip(g.params, args):
            t = g.T[d['t']] if d.get('t') is not None else {}
            if 'id' in d and t.get('k') in ('enum', 'bool') and x is not None:
                v = z.eval(S, x)
                if z.lo(S, v) == z.hi(S, v):
                    given['v%s' % d['id']] = (z.lo(S, v),) * 2
        d = self.demand.get(g.id, {}).get(i, 0)
        if not given:
            return d
        key = (g.id, i, tuple(sorted(given.items())))
        if key not in self._cond:
            c = Check(ctx, self, g)
            c.z.given = given
            old = self.demand.pop(g.id, {})
            c.out, c.dem, c.idem = [], [], []
            c.z.run(5000)
            c.collect()
            self.demand[g.id] = old
            r = 0
            for v, h in c.dem:
                if 'id' in g.params[i] and v == str(g.params[i]['id']):
                    r = max(r, h)
            self._cond[key] = r
        return min(d, self._cond[key])

    def enumvals(self, r):
        if not hasattr(self, '_ev'):
            self._ev = {}
            for f in self.p.repo_fns():
                for n in f.nodes():
                    if n['k'] == 'EnumC' and isinstance(n.get('cv'), int) and f.ty(n).get('k') == 'enum':
                        self._ev.setdefault(f.ty(n)['r'], set()).add(n['cv'])
        v = sorted(self._ev.get(r, {0}))
        return v + [max(v) + 1]

    def length(self, z, S, n):
        return None

    def post(self, z, S, k, x, O):
        """tuple/pair k gets the value of the expression x (O: state before)"""
        if x is None or x['k'] == 'Ctor' and not x.get('c'):
            z.assign(S, k + '.second', z.const(0))
            z.assign(S, 'len:' + k + '.first', z.const(MAXLEN))
            return
        t = z.f.ty(x).get('s', '').replace('const ', '')
        if t.startswith('std::pair<std::unique_ptr<char[]'):
            z.types[k + '.second'] = (0, (1 << 64) - 1)
            z.assign(S, k + '.second', z.rng(0, MAXLEN))
            S.add(k + '.second', 'len:' + k + '.first', 0)
        elif t.startswith('std::tuple<char *') and x['k'] in ('Call', 'MCall') and len(x['c']) > 1:
            p, n = z.eval(O, x['c'][0]), z.eval(O, x['c'][1])
            z.types[k + '.1'] = (0, (1 << 64) - 1)
            z.assign(S, k + '.0', z.const(0), k + '.0#')
            z.assign(S, k + '.1', z.rng(0, max(0, z.hi(O, n))))
            z.assign(S, 'len:' + k + '.0#', z.rng(0, MAXLEN))
            S.add(k + '.1', 'len:' + k + '.0#', 0)
            if p.base:
                lo, hi = z.lo(O, p), z.hi(O, z.addv(O, V(p.reps), n))
                z.assign(S, k + '.2', z.rng(lo, hi + 3 if hi < INF // 2 else INF), p.base)

    def tuple(self, z, S, k):
        """a buffer and its size"""
        z.types[k + '.1'] = (0, (1 << 64) - 1)
        z.assign(S, k + '.0', z.const(0), k + '.0#')
        z.assign(S, k + '.1', z.rng(0, MAXLEN))
        z.assign(S, 'len:' + k + '.0#', z.rng(0, MAXLEN))
        S.add(k + '.1', 'len:' + k + '.0#', 0)

    def effect(self, z, S, S2, a):
        """pairs of pointer and size passed by reference"""
        if a.get('q') in ('uncompress', 'compress', 'compress2') and len(a['c']) > 3:
            # writes at most *size bytes and sets *size to what has been written
            x = strip(a['c'][1])
            k = z.key(x['c'][0]) if x['k'] == 'Un' and x['op'] == '&' else None
            if k:
                up = dict(S.d.get(k, {}))
                S2.kill(k)
                for y, c in up.items():
                    if y[0] != SIG:
                        S2.add(k, y, c)
                S2.add('0', k, 0)
        if 'fn' not in a:
            return
        for t in self.p.targets(a):
            g = self.p.fns.get(t)
            if g is None:
                continue
            for i, n in self.pairs(g).items():
                if n and n[0] == 'n' and g.T[g.params[i]['t']].get('k') == 'ref' and g.T[g.params[n[1]]['t']].get('k') == 'ref':
                    k, m = z.key(a['c'][i]), z.key(a['c'][n[1]])
                    if k and m:
                        # the pointer is moved towards the end, the size becomes smaller
                        b, old = S.base.get(k), V([(m, 0, 0)])
                        lo, hi = z.lo(S, V([(k, 0, 0)])), z.hi(S, old)
                        z.assign(S2, m, z.rng(0, max(0, hi)))
                        for y, c in S.d.get(m, {}).items():
                            if y[0] != SIG and y not in (k, m):
                                S2.add(m, y, c)
                        if b is None:
                            S2.kill(k)
                            continue
                        z.assign(S2, k, z.rng(max(0, lo), MAXLEN), b)
                        g = z.gh.get((k, m))
                        if g is None:
                            g = combine(k, m)
                        if g:
                            z.assign(S2, g, z.rng(0, INF))
                            S2.add(g, 'len:' + b, 0)
                            S2.add(k, 'len:' + b, 0)


def istuple(t):
    return t.get('s', '').replace('const ', '').startswith('std::tuple<char *')


def deref(f, t):
    return f.T[t['e']] if t.get('k') == 'ref' else t


class Check:
    def __init__(self, ctx, con, f):
        self.ctx, self.con, self.f = ctx, con, f
        self.z = Zone(ctx.sh, f, con.eff, contracts=con)
        self.ints = {'v%s' % d['id']: 'p%s' % d['id'] for d in f.params if 'id' in d and d.get('t') is not None and f.T[d['t']].get('k') in ('int', 'enum')}

    def want(self, S, ptr, size, node, what):
        """ptr (value with base) + size <= length"""
        z = self.z
        if ptr.base is None:
            return self.out.append((node, what, None, 'unknown buffer'))
        for cls, l in INV.items():
            for a, b in l:
                if ptr.base.endswith('.' + a) and not self.f.q.startswith(cls + '::'):
                    S = S.copy()
                    pre = ptr.base[:-len(a)]
                    z.types.setdefault(pre + b, (0, (1 << 64) - 1))
                    S.add(pre + b, 'len:' + ptr.base, 0)
        ln = z.lenv(S, ptr.base)
        off = V(ptr.reps)
        lo = z.leqx(S, z.const(0), off)
        end = z.addv(S, off, size)
        hi = z.leqx(S, end, ln)
        if not hi and z.leqx(S, ln, z.const(1 << 16)):
            # the offset is a parameter?
            for t, l, h in end.reps:
                if t in self.ints and h < 1 << 16 and S.get(t, self.ints[t]) <= 0:
                    self.idem.append((self.ints[t], z.lo(S, ln) - h))
        if not hi and ptr.base.startswith('v'):
            self.dem.append((ptr.base[1:].rstrip('$'), z.hi(S, end)))
        self.out.append((node, what, lo and hi, 'offset %s..%s end %s..%s of %s (length %s..%s)' % (
            sh(z.lo(S, off)), sh(z.hi(S, off)), sh(z.lo(S, end)), sh(z.hi(S, end)), ptr.base, sh(z.lo(S, ln)), sh(z.hi(S, ln)))))

    def site(self, n, S):
        f, z = self.f, self.z
        k = n['k']
        q = n.get('q', '')
        nm = q.split('::')[-1].split('<')[0]
        c = [x for x in n.get('c', ()) if x is not None]
        if k == 'Index':
            t = f.ty(strip(c[0]))
            b = z.eval(S, c[0])
            if b.base is None and t.get('k') == 'arr' and t.get('n') is not None:
                z.clen['array:%s' % t['n']] = t['n']
                b = V([('0', 0, 0)], 'array:%s' % t['n'])
            if b.base is None and c[0]['k'] == 'Global' and t.get('k') == 'other':
                return      # array of another library whose length is not declared
            i = z.eval(S, c[1])
            self.want(S, V(z.addv(S, V(b.reps), i).reps, b.base), z.const(1), n, 'index')
        elif k == 'Un' and n['op'] == '*' and recast(f, n):
            x, w = recast(f, n)
            self.want(S, z.eval(S, x), z.const(w), n, 'deref of %d bytes' % w)
        elif k == 'Un' and n['op'] == '*' and isbuf(f, f.ty(c[0])):
            self.want(S, z.eval(S, c[0]), z.const(1), n, 'deref')
        elif k == 'OCall' and n.get('op') == '[]' and q.startswith(CONT):
            o = z.contkey(c[0])
            i = z.eval(S, c[1])
            extra = 0 if q.startswith('std::basic_string<') else 1
            self.want(S, V(i.reps, o), z.const(extra), n, 'element')
        elif CONV.match(q):
            if 'getBytes' in q:
                t = f.ty(c[0])
                w = t.get('w', 64) // 8
                if 'getBytes24' in q:
                    w = 3
                p = c[1]
            else:
                w = 3 if '24' in nm else f.ty(n).get('w', 64) // 8
                p = c[0]
            self.want(S, z.eval(S, p), z.const(w), n, 'conversion')
        elif k == 'MCall' and nm == 'read' and len(c) >= 2 and q.startswith(('std::basic_istream', 'CppUtilities::BinaryReader')):
            self.want(S, z.eval(S, c[0]), self.sz(S, c[1]), n, 'read')
        elif k == 'MCall' and nm == 'write' and len(c) == 2 and q.startswith('std::basic_ostream'):
            self.want(S, z.eval(S, c[0]), self.sz(S, c[1]), n, 'write')
        elif k == 'Call' and nm in ('memcpy', 'memmove') and len(c) == 3:
            s = self.sz(S, c[2])
            self.want(S, z.eval(S, c[0]), s, n, 'copy to')
            self.want(S, z.eval(S, c[1]), s, n, 'copy from')
        elif q in ('uncompress', 'compress', 'compress2') and len(c) > 3:
            x = strip(c[1])
            self.want(S, z.eval(S, c[0]), z.eval(S, x['c'][0]) if x['k'] == 'Un' and x['op'] == '&' else V([]), n, 'output of ' + q)
            self.want(S, z.eval(S, c[2]), self.sz(S, c[3]), n, 'input of ' + q)
        elif q in ('std::copy', 'std::copy_n') and len(c) == 3 and isbuf(f, f.ty(c[2])):
            a, b, d = (z.eval(S, x) for x in c)
            s = b if q == 'std::copy_n' else z.subv(S, V(b.reps), V(a.reps)) if a.base and a.base == b.base else V([])
            self.want(S, d, s, n, 'copy to')
            if a.base:
                self.want(S, a, s, n, 'copy from')
        elif k == 'Call' and re.match(r'CppUtilities::(convert|encodeBase64)', q):
            for a, b in zip(c, c[1:]):
                if f.ty(strip(a)).get('k') in ('ptr', 'arr') and f.ty(strip(b)).get('k') == 'int':
                    self.want(S, z.eval(S, a), self.sz(S, b), n, 'input of ' + nm)
        elif k == 'MCall' and nm == 'copy' and q.startswith('std::basic_string') and c:
            o = z.contkey(n['obj'])
            s = z.lenv(S, o) if o else z.rng(0, MAXLEN)
            if len(c) > 1 and c[1]['k'] != 'DefArg':
                cnt = z.eval(S, c[1])
                s = V(z.prune([(t, -INF, h) for t, l, h in s.reps + cnt.reps]))
            self.want(S, z.eval(S, c[0]), s, n, 'copy to')
        elif k == 'MCall' and nm in ('front', 'back') and q.startswith(CONT):
            o = z.contkey(n['obj'])
            self.want(S, V([('0', 0, 0)], o), z.const(1), n, nm)
        elif k == 'Ctor' and self.f.ty(n).get('s', '').replace('const ', '').startswith(('std::basic_string<', 'std::basic_string_view<')):
            a = [x for x in c if x['k'] != 'DefArg']
            if len(a) == 2 and f.ty(strip(a[0])).get('k') in ('ptr', 'arr') and f.ty(strip(a[1])).get('k') in ('int', 'enum'):
                v, e = z.eval(S, a[0]), z.esize(strip(a[0])) or 1
                self.want(S, v, self.sz(S, a[1]) if e == 1 else self.scaled(S, a[1], e), n, 'view')
        elif k in ('Call', 'MCall', 'Ctor') and 'fn' in n:
            self.call(n, S)

    def call(self, n, S):
        z, con = self.z, self.con
        for t in self.ctx.p.targets(n):
            g = self.ctx.p.fns.get(t)
            if g is None or not g.body:
                continue
            args = n.get('c', ())
            for d, x in zip(g.params, args):
                m = con.idemand.get((g.id, 'p%s' % d.get('id')))
                if m is not None and x is not None:
                    v = z.eval(S, x)
                    good = z.leqx(S, v, z.const(m))
                    if not good:
                        for t, l, h in v.reps:
                            if t in self.ints and h < 1 << 16 and S.get(t, self.ints[t]) <= 0:
                                self.idem.append((self.ints[t], m - h))
                    self.out.append((n, 'argument of ' + g.q.split('::')[-1], good, 'at most %s of the allowed %s' % (sh(z.hi(S, v)), m)))
            for i, ni in con.pairs(g).items():
                if i >= len(args) or args[i] is None:
                    continue
                what = 'argument of ' + g.q.split('::')[-1]
                d = con.demand.get(g.id, {}).get(i, 0)
                if ni == 'c':
                    if d:
                        l = z.lenof(S, args[i])
                        self.out.append((n, what, z.leqx(S, z.const(d), l), 'length %s.. of the needed %s' % (sh(z.lo(S, l)), d)))
                elif ni is None:
                    if d:
                        self.want(S, z.eval(S, args[i]), z.const(con.conditional(self.ctx, z, S, g, i, args)), n, what)
                elif ni[1] < len(args) and args[ni[1]] is not None:
                    if ni[0] == 'n':
                        self.want(S, z.eval(S, args[i]), self.sz(S, args[ni[1]]), n, what)
                    else:
                        a, b = z.eval(S, args[i]), z.eval(S, args[ni[1]])
                        if a.base and a.base != b.base:
                            b = V([])
                        self.want(S, b, z.const(0), n, what)
                        self.want(S, a, z.const(0), n, what)

    def sz(self, S, n):
        """size passed as an argument; conversions to types of at least the same width do not matter as it is compared with a length"""
        z = self.z
        while n['k'] == 'Cast' and 'cv' not in n and n.get('ck') in ('IntegralCast', 'NoOp', 'LValueToRValue') and z.f.ty(n).get('k') == 'int' \
                and z.f.ty(n['c'][0]).get('k') == 'int' and z.f.ty(n)['w'] >= z.f.ty(n['c'][0])['w']:
            n = n['c'][0]
        if n['k'] in ('Ctor', 'DefArg') and len(n.get('c', ())) == 1:
            return self.sz(S, n['c'][0])
        return z.eval(S, n)

    def scaled(self, S, n, e):
        """number of bytes of n elements of e bytes"""
        z = self.z
        x = strip(n)
        while x['k'] == 'Cast' and x.get('c') and 'cv' not in x:
            x = x['c'][0]
        if x['k'] == 'Bin' and x['op'] == '/' and isinstance(x['c'][1].get('cv'), int) and x['c'][1]['cv'] >= e:
            return self.sz(S, x['c'][0])
        v = z.eval(S, n)
        lo, hi = z.lo(S, v), z.hi(S, v)
        return z.rng(lo * e if lo > -INF // 2 else -INF, hi * e if hi < INF // 2 else INF)

    def run(self):
        self.out, self.dem, self.idem = [], [], []
        done = self.z.run()
        self.collect()
        for m in self.z.cfg.nodes:
            if m.k == 'e' and m.a['k'] == 'OCall' and m.a.get('op') == '()' and m.a['c'][0] and m.a['c'][0]['k'] == 'Lambda' and m.i in self.z.st:
                for t in m.a['c'][0]['fns']:
                    if t == m.a.get('fn'):
                        self.con.lam[t] = self.z, self.z.st[m.i]
        if any(g is not True for n, w, g, y in self.out) and len(self.z.cfg.nodes) <= 500:
            for v, vals in self.enums():
                self.partition(v, vals)
                if all(g is True for n, w, g, y in self.out):
                    break
        return self.out

    def collect(self):
        self.out, self.dem, self.idem = [], [], []
        byi = {m.i: m for m in self.z.cfg.nodes}
        for i in sorted(self.z.st):
            m = byi[i]
            if m.k == 'e':
                self.site(m.a, self.z.st[i])
            elif m.k == 'r':
                self.ret(m.a, self.z.st[i])
        S = self.z.st.get(self.z.cfg.exit.i)
        for i, n in self.con.pairs(self.f).items() if S is not None else ():
            f = self.f
            if n and n[0] == 'n' and f.T[f.params[i]['t']].get('k') == 'ref' and f.T[f.params[n[1]]['t']].get('k') == 'ref' and 'id' in f.params[i] and 'id' in f.params[n[1]]:
                k, m = 'v%s' % f.params[i]['id'], 'v%s' % f.params[n[1]]['id']
                self.want(S, V([(self.z.gh.get((k, m), '?'), 0, 0)], S.base.get(k)), self.z.const(0), f.body, 'pointer and size passed back')

    def ret(self, n, S):
        """tuples of pointer and size which are returned"""
        f, z = self.f, self.z
        if not n.get('c') or n['c'][0] is None or not f.ty(n['c'][0]).get('s', '').replace('const ', '').startswith('std::tuple<char *'):
            return
        x = strip(n['c'][0])
        while x['k'] == 'Ctor' and len(x['c']) == 1:
            x = strip(x['c'][0])
        k = z.key(x)
        if x['k'] == 'Ctor' and len(x['c']) > 1:
            self.want(S, z.eval(S, x['c'][0]), self.sz(S, x['c'][1]), n, 'returned substring')
        elif k and k + '.0' in S.base:
            g = z.gh.get((k + '.0', k + '.1'))
            b = S.base[k + '.0']
            if g:
                self.want(S, V([(g, 0, 0)], b), z.const(0), n, 'returned substring')

    def enums(self):
        """variables of enumeration types which decide more than once"""
        f, cnt = self.f, {}
        for m in self.z.cfg.nodes:
            if m.k in ('b', 's', 'e'):
                for x in (nodes(m.a) if m.k != 'e' else [y for c in m.a.get('c', ()) if c for y in [strip(c)]] if m.a['k'] in ('Call', 'MCall') else ()):
                    if x['k'] == 'Var' and f.ty(x).get('k') == 'enum':
                        cnt.setdefault((x['v'], f.ty(x)['r']), set()).add(m.i)
        for (v, r), ns in sorted(cnt.items()):
            if len(ns) > 1:
                yield v, r

    def partition(self, v, r):
        """separate runs for the final values of a variable"""
        k = 'v%s' % v
        cfg = self.z.cfg
        asg = set()
        for m in cfg.nodes:
            if m.k == 'e' and any(kk == k for kk, kind, e in self.con.eff(self.f, m.a)) or m.k == 'd' and m.a.get('id') == v:
                asg.add(m.i)
        # nodes from which an assignment can be reached
        pred = {}
        for m in cfg.nodes:
            for lab, o in m.succ:
                pred.setdefault(o.i, []).append(m.i)
        before, work = set(asg), list(asg)
        while work:
            for i in pred.get(work.pop(), ()):
                if i not in before:
                    before.add(i)
                    work.append(i)
        sel = set()
        for m in cfg.nodes:
            if m.i not in before and m.a is not None and isinstance(m.a, dict) and any(x['k'] == 'Var' and x['v'] == v for x in nodes(m.a)):
                sel.add(m.i)
        if not sel:
            return
        vals = self.con.enumvals(r)
        res = None
        dem = []
        old = self.out, self.dem
        for c in vals:
            z = self.z = Zone(self.ctx.sh, self.f, self.con.eff, contracts=self.con)
            z.restrict = (k, c, sel)
            z.run()
            self.collect()
            cur = {}
            for n, w, g, y in self.out:
                cur.setdefault((id(n), w), []).append((n, w, g, y))
            if res is None:
                res = {}
            for kk, l in cur.items():
                g = all(x[2] is True for x in l)
                o = res.get(kk)
                if o is None or not g:
                    res[kk] = next((x for x in l if x[2] is not True), l[0])
            dem += self.dem
        old2 = []
        for n, w, g, y in old[0]:
            if g is not True:
                x = res.get((id(n), w))
                if x is None or x[2] is True:
                    old2.append((n, w, True, 'for each value of the variable on its own'))
                    continue
            old2.append((n, w, g, y))
        self.out, self.dem = old2, old[1]


def sh(x):
    return 'inf' if x >= INF // 2 else '-inf' if x <= -INF // 2 else str(x)


def recast(f, n):
    """pointer to characters which is dereferenced as something else, number of bytes accessed"""
    x = n['c'][0]
    while x['k'] in ('Cast', 'Paren') and x.get('c') and x.get('ck') != 'BitCast':
        x = x['c'][0]
    if x['k'] != 'Cast' or x.get('ck') != 'BitCast':
        return None
    t = f.ty(x)
    t = f.T[t['e']] if t.get('k') == 'ptr' else {}
    w = t.get('z') or t.get('w', 0) // 8
    x = x['c'][0]
    t = f.ty(strip(x))
    if t.get('k') in ('ptr', 'arr') and 'e' in t and f.T[t['e']].get('w') == 8 and w:
        return x, w
    return None


def maybe(f, n):
    k, q = n['k'], n.get('q', '')
    nm = q.split('::')[-1].split('<')[0]
    return (k == 'Index' or k == 'Un' and n['op'] == '*' and (isbuf(f, f.ty(n['c'][0])) or recast(f, n)) or k == 'OCall' and n.get('op') == '[]' and q.startswith(CONT)
            or CONV.match(q) or q.startswith('CppUtilities::convert') or nm in ('encodeBase64', 'uncompress', 'compress', 'compress2', 'memcpy', 'memmove', 'copy', 'copy_n') or k == 'MCall' and nm in ('read', 'write', 'front', 'back')
            or k == 'Ctor' and f.ty(n).get('s', '').replace('const ', '').startswith(('std::basic_string<', 'std::basic_string_view<')) and len([x for x in n['c'] if x and x['k'] != 'DefArg']) == 2)



def run(ctx):
    p = ctx.p
    M = Measures(ctx.sh)
    con = Con(ctx.sh, M.effects)
    fns = [f for f in p.repo_fns() if f.body and '/aac/' not in f.file]
    c0 = Check.__new__(Check)
    hot = set()
    for f in fns:
        for n in f.nodes():
            if n['k'] in ('Call', 'MCall', 'Ctor') and 'fn' in n and any(t in p.fns and any(x != 'c' for x in con.pairs(p.fns[t]).values()) for t in p.targets(n)) or maybe(f, n):
                hot.add(f.id)
                break
    fns = sorted((f for f in fns if f.id in hot), key=lambda f: (f.id.startswith('lambda@'), f.file, f.l))
    res = {}
    work = {f.id for f in fns}
    callers = {}
    for rnd in range(8):
        ch = set()
        for f in fns:
            if f.id not in work:
                continue
            c = Check(ctx, con, f)
            res[f.id] = c.run()
            for pk, m in c.idem:
                old = con.idemand.get((f.id, pk))
                if m >= 0 and (old is None or m < old):
                    con.idemand[f.id, pk] = m
                    ch.add(f.id)
            for v, h in c.dem:
                for i, d in enumerate(f.params):
                    if 'id' not in d or str(d['id']) != v:
                        continue
                    if h >= 1 << 16 and con.widen(f, i):
                        ch.add(f.id)
                    elif con.pairs(f).get(i, 0) in (None, 'c') and h < 1 << 16:
                        dd = con.demand.setdefault(f.id, {})
                        if dd.get(i, 0) < h:
                            dd[i] = h
                            ch.add(f.id)
        if not ch:
            break
        work = set(ch) | set(con.lam)
        for f in fns:
            for n in f.nodes():
                if n['k'] in ('Call', 'MCall', 'Ctor') and 'fn' in n and any(t in ch for t in p.targets(n)):
                    work.add(f.id)
    known = {l.rstrip('\n') for l in open(os.path.join(os.path.dirname(__file__), 'p05_known.txt'))}
    undecided = skipped = 0
    for f in fns:
        q = plain(f.q)
        new = q not in known or any(n['k'] in ('Call', 'MCall', 'Ctor') and 'fn' in n and any(t in p.fns and p.fns[t].body and p.fns[t].file.startswith(p.repo + '/') and plain(p.fns[t].q) not in known
                                                                                             for t in p.targets(n)) for n in f.nodes())
        names = {str(d['id']): d['n'] for d in decls(f)}
        for node, what, good, why in res[f.id]:
            kind = what.split(' of ')[0] if what.startswith('argument of') else what
            if good:
                ctx.ok(what, f, node, why)
            elif any(re.fullmatch(a, q) and (kind in k or kind in SAME and SAME & set(k)) for a, k in EXEMPT):
                undecided += 1
            elif new:
                skipped += 1
            else:
                ctx.bad(what, f, node, what, re.sub(r'\bv(\d+)\b', lambda m: names.get(m.group(1), m.group(0)), why))
    ctx.cov['not_decided'] = undecided
    ctx.cov['not_decided_in_new_functions'] = skipped
    ctx.cov['functions'] = len(fns)
    for k, m in (('conversion', 60), ('element', 15), ('index', 18), ('read', 18), ('write', 45), ('view', 18), ('deref', 25), ('copy to', 12), ('front', 20), ('back', 30)):
        ctx.need(k, m)


def plain(q):
    while True:
        r = re.sub(r'<[^<>]*>', '', q)
        if r == q:
            return q
        q = r


def decls(f):
    for d in f.params:
        if 'id' in d and d.get('n'):
            yield d
    for n in f.nodes():
        if n['k'] == 'DeclStmt':
            for d in n.get('c', ()):
                if d and 'id' in d and d.get('n'):
                    yield d


# what depends on the history of objects (valid iterator, initialised buffer) or on arithmetic which is not modelled
ALL = ('argument', 'back', 'conversion', 'copy from', 'copy to', 'deref', 'element', 'front', 'index', 'read', 'write', 'view')
SAME = {'element', 'index', 'deref'}      # ways of writing the same access
EXEMPT = [('TagParser::(?:' + a + ')', k) for a, k in (
    # accessors whose caller has to pass a valid index
    (r'GenericContainer::(tag|track)|MatroskaChapter::nestedChapter', ('element',)),
    # iterator over pages which has to be valid
    (r'OggIterator::.*', ('element', 'read')),
    (r'OggContainer::(announceComment|internalMakeFile|internalParseHeader|internalParseTags|createTag)', ('element', 'back')),
    (r'OggStream::(OggStream|internalParseHeader)', ('element',)),
    # buffer filled by a previous call
    (r'GenericFileElement::copyBuffer|StreamDataBlock::copyTo', ('write',)),
    (r'Mp4Track::(makeTrackHeader)', ('write',)),
    (r'Mp4Track::(accumulateSampleSizes|verifyPresentTrackHeader)', ('element',)),
    (r'MatroskaTrackHeaderMaker::make', ('write',)),
    (r'Id3v2FrameMaker::Id3v2FrameMaker', ('element', 'copy to', 'copy from', 'argument', 'input of compress')),
    (r'writePlayCounter', ('deref',)),
    (r'Id3v1Tag::writeValue', ('index', 'copy to')),
    # presence of tags or segments established elsewhere
    (r'MatroskaContainer::internalMakeFile', ('element', 'front')),
    (r'Mp4Container::internalMakeFile', ('element',)),
    (r'MediaFileInfo::(createAppropriateTags|mp4Tag|vorbisComment)', ('front',)),
    (r'MpegAudioFrameStream::internalParseHeader', ('back',)),
    # pointers to one of several buffers, number of characters skipped
    (r'Id3v2Frame::makeLegacyPicture', ('copy from',)),
    (r'TagValue::compareTo', ('argument',)),
    (r'TagValue::assignPopularity', ('read',)),
    (r'VorbisCommentField::internalParse', ('view',)),
    (r'MediaFileInfo::parseContainerFormat', ('deref',)),
)]
