"""Values are set before they are used. (member) Every constructor which is not copying, moving or delegating sets every scalar data member which is read anywhere (integers, booleans,
enums, pointers, floating point numbers and arrays of them): by an initialiser in the class, in the initialiser list, or on every normal path of its body
including own functions it calls (must-assign typestate). Objects of classes with scalar members but without own constructor are only created with
value- or list-initialisation. (local) For every local scalar or array variable declared without initial value: forward may-dataflow
over the control-flow graph, path-sensitive on tested flags and repeated conditions; no path from the declaration to a read avoids all assignments (being passed as
modifiable reference or pointer counts as assignment)."""
from cfg import CFG
from vals import V
from rules.p26 import unc
from rules.p27 import Clean
from facts import nodes

EXPLAIN = __doc__
SCALAR = ('int', 'bool', 'enum', 'ptr', 'float')


def scalar(T, t):
    x = T[t] if t is not None and t >= 0 else {}
    k = x.get('k')
    if k in SCALAR:
        return True
    if k == 'arr':
        return 'e' in x and scalar(T, x['e'])
    if k == 'rec' and x.get('r') == 'std::array' and x.get('ta'):
        return scalar(T, x['ta'][0])
    return False


def unused(p):
    """the AAC frame parser as long as nothing creates it"""
    created = any(n['k'] == 'Ctor' and n.get('q', '').endswith('::AacFrameElementParser') and '/aac/' not in f.file for f in p.fns.values() if f.body for n in f.nodes())
    return '' if created else '/aac/'


def plain(q):
    """qualified name without template arguments"""
    out, d = '', 0
    for c in q:
        d += (c == '<') - (c == '>')
        if not d and c != '>':
            out += c
    return out


def members(ctx):
    p, sh = ctx.p, ctx.sh
    aac = unused(p)
    own, ctors = {}, {}
    for f in p.fns.values():
        if f.d.get('role') == 'ctor' and f.rec:
            ctors.setdefault(f.rec, []).append(f)
    read = set()
    for f in p.fns.values():
        if f.body and f.d.get('role') != 'ctor':
            lhs = {id(unc(n['c'][0])) for n in f.nodes() if n['k'] == 'Assign'}
            read |= {plain(n['q']) for n in f.nodes() if n['k'] == 'Member' and id(n) not in lhs}
    recs = {n: r for n, r in p.records.items() if r['file'].startswith(p.repo + '/') and not (aac and aac in r['file'])}
    for n, r in sorted(recs.items()):
        fl = [f['n'] for f in r['fields'] if scalar(r['T'], f['t']) and not f.get('init') and plain(n + '::' + f['n']) in read]
        for f in r['fields']:
            if scalar(r['T'], f['t']) and f.get('init'):
                ctx.ok('member', None, None, '%s::%s has an initialiser' % (n, f['n']))
        if not fl:
            continue
        cs = [f for f in ctors.get(n, []) if not f.d.get('implicit')]
        if not cs:
            own[n] = fl
            continue
        for c in cs:
            if any(i.get('deleg') for i in c.inits):
                continue
            ini = {i['m'] for i in c.inits if 'm' in i}
            miss = [m for m in fl if m not in ini]
            if miss:
                T = Sets(sh, n, set(miss))
                ex, xx, par, cfg = T.explore(c, V(frozenset(), frozenset(), None))
                sets = [{e[2:] for e in s.x if e.startswith('c:')} for s in ex]
                done = set.intersection(*sets) if sets else set(miss)
                done |= {m for m in miss if filled(c, m)}
                miss = [m for m in miss if m not in done]
            for m in fl:
                ctx.check(m not in miss, 'member', c, None, '%s::%s is set by the constructor with %d parameter(s)' % (n.replace('TagParser::', ''), m, len(c.params)),
                          'has an indeterminate value after construction')
    # classes without constructor, and those containing such members
    raw = set(own)
    again = True
    while again:
        again = False
        for n, r in recs.items():
            if n in raw or any(not f.d.get('implicit') for f in ctors.get(n, [])):
                continue
            if any(not f.get('init') and r['T'][f['t']].get('r') in raw and r['T'][f['t']].get('k') == 'rec' for f in r['fields']):
                raw.add(n)
                again = True
    for f in sorted(p.repo_fns(), key=lambda f: f.id):
        if f.d.get('role') == 'ctor' and f.d.get('implicit') and f.rec in raw:
            continue
        for x in f.nodes():
            if x['k'] == 'Ctor' and not x.get('c') and f.ty(x).get('r') in raw and f.ty(x).get('k') == 'rec' and not x.get('cm'):
                ctx.check(x.get('zi'), 'create', f, x, 'object of %s is value-initialised' % f.ty(x)['r'].replace('TagParser::', ''), 'its scalar members %s have indeterminate values' % ', '.join(own.get(f.ty(x)['r'], ['of nested objects'])))


class Sets(Clean):
    """'c:<member>' for members which have been assigned"""

    def __init__(self, sh, cls, fields):
        super().__init__(sh, cls)
        self.fields = fields

    def step(self, fn, n, st):
        r = super().step(fn, n, st)
        if n.k != 'e' or r is None:
            return r
        a = n.a
        done = set()
        if a['k'] == 'OCall' and a.get('op') == '=' or a['k'] == 'Assign':
            l = unc(a['c'][0])
            if l['k'] == 'Un' and l['op'] == '*' and unc(l['c'][0])['k'] == 'This':
                done |= self.fields
        if a['k'] in ('Call', 'MCall', 'OCall', 'Ctor'):
            j = 1 if a['k'] == 'OCall' and a.get('m') else 0
            for i, x in enumerate(a.get('c', ())[j:]):
                if x is not None and i < len(a.get('mu') or ()) and a['mu'][i]:
                    done |= {y['n'] for y in nodes(x) if y['k'] == 'Member' and y['n'] in self.fields}
        if not done:
            return r
        return tuple(s._replace(x=s.x | {'c:' + m for m in done}) for s in r)


def filled(c, m):
    """array member set element by element in a loop"""
    for x in c.nodes():
        if x['k'] == 'Assign':
            l = unc(x['c'][0])
            if l['k'] == 'Index' or l['k'] == 'OCall' and l.get('op') == '[]':
                b = unc(l['c'][0])
                if b['k'] == 'Member' and b['n'] == m:
                    return True
    return False


class Reads(CFG):
    """control-flow graph with a step for every use of a variable"""

    def __init__(self, fn, exc, nr, watch):
        self.watch = watch
        self.later = set()
        self.lhs = set()
        super().__init__(fn, exc, False, nr)

    def expr(self, n, cur):
        if n is not None and cur is not None and n['k'] in ('Call', 'MCall', 'Ctor') and id(n) not in self.later:
            # an array which is passed is read by the callee, after all arguments have been evaluated
            l = [x for x in map(unc, filter(None, n.get('c', ()))) if x['k'] == 'Var' and x.get('v') in self.watch and self.fn.ty(x).get('k') == 'arr' and id(x) not in self.later]
            if l:
                self.later |= {id(x) for x in l} | {id(n)}
                cur = super().expr(n, cur)
                for x in l:
                    if cur is not None:
                        v = self.new('v', x)
                        self.edge(cur, v)
                        cur = v
                return cur
        if n is not None and cur is not None and n['k'] == 'Var' and n.get('v') in self.watch and id(n) not in self.later:
            x = self.new('v', n)
            self.edge(cur, x)
            return x
        if n is not None and cur is not None and n['k'] == 'Lambda':
            for c in n.get('c', []):
                if unc(c)['k'] != 'Var':        # captured variables: see lambda_reads()
                    cur = self.expr(c, cur)
            return self.ev(n, cur)
        return super().expr(n, cur)


def writes(f, p, watch):
    """ids of Var nodes which are written (or whose address is handed out), by identity"""
    out, weak = {}, set()
    T = f.T

    def root(n):
        while n is not None:
            k = n['k']
            if k == 'Var':
                return n
            if k in ('Cast', 'Paren', 'Index', 'Opaque') or k == 'Member' and not n.get('arrow'):
                n = n['c'][0] if n.get('c') else None
            elif k == 'Bin' and n['op'] in ('+', '-') and T[n['t']].get('k') == 'ptr':
                n = n['c'][0]
            elif k == 'OCall' and n['op'] == '[]':
                n = n['c'][0]
            elif k == 'MCall' and n.get('obj') is not None and n.get('q', '').split('::')[-1] in ('begin', 'data', 'end'):
                n = n['obj']
            elif k == 'Un' and n['op'] in ('&', '*'):
                n = n['c'][0]
            else:
                return None
        return None
    read = set()
    for n in f.nodes():
        k = n['k']
        t = []
        if k == 'Assign' or k == 'OCall' and n.get('op') == '=':
            x = n['c'][0]
            direct = unc(x)
            if direct['k'] == 'Var':
                t.append((x, 'set'))
            elif T[direct.get('t', -1)].get('k') != 'ptr' or True:
                t.append((x, 'part'))
        elif k == 'Un' and n['op'] == '&':
            t.append((n['c'][0], 'addr'))
        elif k in ('Call', 'MCall', 'OCall', 'Ctor') and n.get('mu'):
            args = n.get('c', [])
            if k == 'OCall' and n.get('m'):
                args = args[1:]
            for i, a in enumerate(args):
                if a is not None and i < len(n['mu']) and n['mu'][i]:
                    rt = root(a)
                    if rt is not None and n['mu'][i] == 2 and T[rt['t']].get('k') == 'ptr' and unc(a)['k'] == 'Var':
                        continue        # passing the value of a pointer is a read of the pointer
                    t.append((a, 'addr'))
        elif k == 'DeclStmt':
            for v in n['decls']:
                if v and v.get('i') and T[v['t']].get('k') == 'ref' and not T[v['t']].get('ce'):
                    t.append((v['i'], 'addr'))
        elif k == 'MCall' and n.get('obj') is not None and not n.get('mc'):
            t.append((n['obj'], 'addr'))
        if k == 'MCall' and n.get('obj') is not None and not n.get('mc') and not n.get('arrow'):
            t.append((n['obj'], 'addr'))
        for x, how in t:
            r = root(x)
            if r is not None and r.get('v') in watch:
                if how in ('part', 'addr') and T[r['t']].get('k') == 'ptr' and unc(x) is not r and not (how == 'addr' and only_cast(x, r)):
                    continue            # writing through a pointer reads the pointer
                out[id(r)] = how
    # arrays: reading an element, or passing the array to a parameter which is not modified, is a read; otherwise the address is taken
    for n in f.nodes():
        k = n['k']
        if k == 'Index' or k == 'Un' and n['op'] == '*' or k == 'OCall' and n.get('op') == '[]':
            read.add(id(root(n)))
        elif k in ('Call', 'MCall', 'OCall', 'Ctor'):
            for a in n.get('c', []):
                if a is not None and root(a) is not None:
                    read.add(id(root(a)))
            if n.get('obj') is not None:
                read.add(id(root(n['obj'])))
    for n in f.nodes():
        if n['k'] == 'Var' and n['v'] in watch and T[n['t']].get('k') == 'arr' and id(n) not in read and id(n) not in out:
            out[id(n)] = 'addr'
    return out


def only_cast(x, r):
    while x is not r and x['k'] in ('Cast', 'Paren', 'Un') and x.get('c'):
        if x['k'] == 'Un' and x['op'] != '&':
            return False
        x = x['c'][0]
    return x is r


def locals_(ctx):
    p, sh = ctx.p, ctx.sh
    nv = 0
    aac = unused(p)
    for f in sorted(p.repo_fns(), key=lambda f: f.id):
        if not f.body or aac and aac in f.file:
            continue
        watch = {}
        for n in f.nodes():
            if n['k'] == 'DeclStmt':
                for v in n['decls']:
                    if v and not v.get('static') and v.get('i') is None and 'binding' not in v and scalar(f.T, v.get('t', -1)):
                        watch[v['id']] = v
        # loop variables of range-for have no initialiser of their own
        for n in f.nodes():
            if n['k'] == 'RangeFor' and n.get('loopvar'):
                watch.pop(n['loopvar']['id'], None)
        if not watch:
            continue
        capt, lam = {}, {}
        for n in f.nodes():
            if n['k'] == 'Lambda':
                for g in n['fns']:
                    h = p.fns.get(g)
                    if h is not None and h.body:
                        w = writes(h, p, watch)
                        for y in nodes(h.body):
                            if y['k'] == 'Var' and y.get('v') in watch:
                                lam.setdefault(id(n), {})[y['v']] = lam.get(id(n), {}).get(y['v']) or id(y) in w
        W = writes(f, p, watch)
        sh.exc.env = {}
        sh.exc.cur_key = (f.id, ())
        cfg = Reads(f, sh.exc.callee_exc, sh.cfgs.nr, watch)
        assigned = setters(f, watch)
        for n in f.nodes():
            if n['k'] == 'Lambda':
                for v in list(lam.get(id(n), {})):
                    lam[id(n)][v] = any(lambda_reads(sh, p.fns[g], v, watch) for g in n['fns'] if g in p.fns and p.fns[g].body), lam[id(n)][v]
        bad = explore(f, cfg, watch, W, assigned, lam)
        for vid, v in sorted(watch.items()):
            nv += 1
            b = bad.get(vid)
            ctx.check(b is None, 'local', f, v, 'variable %s of %s has been set wherever it is read' % (v['n'], f.n), b and 'may be read unset at %s' % f.where(b[0]),
                      ['%s:%s' % (f.rel, l) for l in (b[1] if b else [])][-14:])
    return nv


def conds(f):
    """side-effect free conditions on unmodified locals/parameters which are tested more than once (correlated tests)"""
    import json
    cnt = {}

    def key(n):
        n = unc(n)
        k = n['k']
        if 'cv' in n:
            return str(n['cv'])
        if k == 'Var':
            return 'v%s' % n['v']
        if k == 'Member' and n.get('c'):
            b = key(n['c'][0])
            return b and b + '.' + n['n']
        if k == 'This':
            return 'this'
        if k == 'Assign':
            return key(n['c'][0])
        if k in ('Bin', 'OCall') and n.get('op') in ('==', '!=', '<', '>', '<=', '>=', '&') and len(n['c']) == 2:
            a, b = key(n['c'][0]), key(n['c'][1])
            return a and b and '(%s%s%s)' % (a, n['op'], b)
        if k == 'MCall' and n.get('mc') and not n.get('c') and n.get('obj') is not None:
            b = key(n['obj'])
            return b and '%s.%s()' % (b, n.get('q', '').split('::')[-1])
        if k == 'OCall' and n.get('op') in ('->', '*') and len(n['c']) == 1:
            return key(n['c'][0])
        return None
    return key


def lambda_reads(sh, h, v, watch):
    """may the lambda read the captured variable before setting it?"""
    one = {v: watch[v]}
    sh.exc.env = {}
    sh.exc.cur_key = (h.id, ())
    cfg = Reads(h, sh.exc.callee_exc, sh.cfgs.nr, one)
    return v in explore(h, cfg, one, writes(h, sh.p, one), setters(h, one), {}, frozenset([v]))


def setters(f, watch):
    """plain assignments; they take effect after the value has been computed"""
    return {id(n): unc(n['c'][0])['v'] for n in f.nodes() if n['k'] in ('Assign', 'OCall') and n.get('op') == '=' and unc(n['c'][0])['k'] == 'Var' and unc(n['c'][0]).get('v') in watch}


def explore(f, cfg, watch, W, assigned, lam, unset=frozenset()):
    """worklist over (unset variables, known conditions)"""
    key = conds(f)
    tests = {}
    for n in cfg.nodes:
        if n.k in ('b', 's'):
            k = key(n.a)
            if k:
                tests.setdefault(k, []).append(n)
    # conditions worth remembering: tested at several places, or flags assigned constants
    keep = {k for k, l in tests.items() if len(l) > 1}
    flags = {k[1:] for k in keep if k[0] == 'v' and k[1:].isdigit()}
    flags |= {k[1:] for k, l in tests.items() if k[0] == 'v' and k[1:].isdigit()}
    bad = {}
    start = (cfg.entry.i, unset, frozenset())
    seen, work, par = {start}, [start], {}
    limit = 400000
    while work:
        cur = work.pop()
        i, un, kn = cur
        n = cfg.nodes[i]
        limit -= 1
        if limit < 0:
            return bad
        nu, nk = un, kn
        if n.k == 'd' and n.a.get('id') in watch:
            nu = un | {n.a['id']}
            nk = forget(kn, 'v%s' % n.a['id'])
        elif n.k == 'd':
            nk = forget(kn, 'v%s' % n.a.get('id'))
            if str(n.a.get('id')) in flags and n.a.get('i') is not None:
                c = const(n.a['i'])
                if c is not None:
                    nk = nk | {('v%s' % n.a['id'], bool(c))}
        elif n.k == 'v':
            v = n.a['v']
            if v in un:
                how = W.get(id(n.a))
                if how == 'set':
                    pass
                elif how in ('part', 'addr'):
                    nu = un - {v}
                else:
                    if v not in bad:
                        bad[v] = (n.a, trail(cfg, par, cur))
                    nu = un - {v}
        elif n.k == 'e':
            a = n.a
            if id(a) in assigned:
                nu = un - {assigned[id(a)]}
            if id(a) in lam:
                for v, w in lam[id(a)].items():
                    if v in un:
                        if w[0] and v not in bad:
                            bad[v] = (a, trail(cfg, par, cur))
                        if w[1]:
                            nu = nu - {v}
            if a['k'] in ('Assign', 'CAssign') or a['k'] == 'Un' and a['op'] in ('++', '--') or a['k'] == 'OCall' and a.get('m') and not a.get('mc'):
                l = unc(a['c'][0])
                k = key(l)
                if k:
                    nk = forget(nk, k)
                    if a['k'] == 'Assign' and k[0] == 'v' and k[1:] in flags:
                        c = const(a['c'][1])
                        if c is not None:
                            nk = nk | {(k, bool(c))}
                elif l['k'] not in ('Index',):
                    nk = frozenset(x for x in nk if '.' not in x[0] and 'this' not in x[0])
            elif a['k'] in ('Call', 'MCall', 'OCall', 'Ctor'):
                # calls may change members and variables passed to them
                args = [x for x in a.get('c', ()) if x is not None]
                for idx, x in enumerate(args):
                    mu = a.get('mu') or ()
                    j = idx - (1 if a['k'] == 'OCall' and a.get('m') else 0)
                    if 0 <= j < len(mu) and mu[j]:
                        for y in nodes(x):
                            if y['k'] == 'Var':
                                nk = forget(nk, 'v%s' % y['v'])
                if a['k'] == 'MCall' and not a.get('mc') and a.get('obj') is not None:
                    k = key(a['obj'])
                    if k and k != 'this':
                        nk = forget(nk, k)
                    else:
                        nk = frozenset(x for x in nk if 'this' not in x[0])
        for lab, m in n.succ:
            k2 = nk
            if n.k == 'b' and lab in (True, False):
                k = key(n.a)
                if k:
                    if (k, not lab) in nk or contradiction(k, lab, nk):
                        continue
                    if k in keep or k[0] == 'v' and k[1:] in flags:
                        k2 = nk | {(k, lab)}
            elif n.k == 's':
                k = key(n.a)
                if k and k in keep:
                    old = [x for x in nk if x[0] == k and isinstance(x[1], tuple)]
                    if isinstance(lab, tuple) and lab[0] == 'case':
                        if any(x[1] != lab for x in old):
                            continue
                        k2 = nk | {(k, lab)}
            src = un if isinstance(lab, tuple) and lab and lab[0] == 'x' else nu
            t = (m.i, src, k2)
            if t not in seen:
                seen.add(t)
                par[t] = cur
                work.append(t)
    return bad


def contradiction(k, lab, known):
    """x == a known true while x == b is assumed, and the like"""
    if not (k.startswith('(') and '==' in k) or not lab:
        return False
    l = k[1:k.index('==')]
    return any(x[1] is True and x[0].startswith('(' + l + '==') and x[0] != k and x[0][len(l) + 3:-1].lstrip('-').isdigit() and k[len(l) + 3:-1].lstrip('-').isdigit() for x in known)


def forget(kn, k):
    import re
    pat = re.compile(re.escape(k) + r'(?![0-9A-Za-z_])')
    return frozenset(x for x in kn if not pat.search(x[0]))


def const(n):
    n = unc(n)
    if n is None:
        return None
    if 'cv' in n and not isinstance(n['cv'], str):
        return n['cv']
    if n['k'] == 'Null' or n['k'] == 'NullPtr':
        return 0
    return None


def trail(cfg, par, cur):
    out = []
    while cur is not None:
        l = cfg.line(cfg.nodes[cur[0]])
        if l is not None and (not out or out[-1] != l):
            out.append(l)
        cur = par.get(cur)
    return out[::-1]


def run(ctx):
    members(ctx)
    n = locals_(ctx)
    ctx.need('member', 250)
    ctx.need('local', 35)
    ctx.cov['local_variables'] = n
