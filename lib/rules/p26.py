"""Member coverage of value semantics. For every class of the library with its own (not compiler-generated) copy constructor or copy
assignment: each data member is initialised or assigned from the same member of the source, as is each base class. For every equality operator (and
TagValue::compareTo) each data member of both operands decides the result: operators which are boolean expressions are evaluated
exactly over all combinations of equal/different members (equal iff all are equal; != is the negation), others must compare each member
with its counterpart. For every emptiness predicate the expression is evaluated over all combinations of empty/non-empty members. Every
clearing function resets each data member on every path, to what the default constructor sets where both are constants. The enumeration of generic
fields, over which the generic merge iterates, visits each field once."""
import itertools
from facts import nodes

EXPLAIN = __doc__
PARTIAL = ('size', 'length', 'empty', 'capacity', 'isEmpty')
NS = 'TagParser::'

# members which are deliberately not part of the relation: (class, role) -> {member: reason}
EXEMPT = {
    ('TagTarget', '=='): {'m_levelName': 'documented: the level name is only a description of the level'},
    ('TagTarget', 'matches'): {'m_levelName': 'documented'},
    ('DiagMessage', '=='): {'m_creationTime': 'time of the message is not part of its identity'},
    ('TagValue', '=='): {'m_nativeData': 'format-specific extras which are not part of the value'},
    ('Popularity', 'empty'): {'scale': 'documented: the scale does not count'},
    ('AbstractAttachment', 'empty'): {'m_id': 'documented: the ID does not count', 'm_isDataFromFile': 'implied by the data', 'm_ignored': 'a flag for writing, not content'},
    ('MatroskaEditionEntry', 'clear'): {'m_editionEntryElement': 'the element the entry is parsed from'},
    ('MatroskaChapter', 'clear'): {'m_chapterAtomElement': 'the element the chapter is parsed from'},
    ('MatroskaCuePositionUpdater', 'clear'): {},
    ('TagField', 'clear'): {},
}
# classes whose emptiness predicate is about all members
EMPTY = {'TagTarget': 'isEmpty', 'Popularity': 'isEmpty', 'AbstractAttachment': 'isEmpty', 'PositionInSet': 'isNull', 'Size': 'isNull', 'Margin': 'isNull'}
CLEAR = [('TagTarget', 'clear'), ('TagValue', 'clearDataAndMetadata'), ('AbstractAttachment', 'clear'), ('AbstractChapter', 'clear'),
         ('MatroskaChapter', 'clear'), ('MatroskaEditionEntry', 'clear'), ('MatroskaSeekInfo', 'clear'), ('MatroskaCuePositionUpdater', 'clear'), ('Id3v1Tag', 'removeAllFields')]
RESET = ('clear', 'reset', 'clearData', 'clearDataAndMetadata', 'clearMetadata', 'removeAllFields')


def unc(n):
    while n is not None and (n['k'] in ('Cast', 'Paren') or n['k'] == 'Ctor' and len(n.get('c', ())) == 1 and n.get('el')) and n.get('c') and len(n['c']) == 1:
        n = n['c'][0]
    return n


def short(q):
    return q[len(NS):] if q.startswith(NS) else q


def own(f, n):
    """member of *this* designated by n"""
    n = unc(n)
    if n is not None and n['k'] == 'Member' and n.get('c') and unc(n['c'][0])['k'] == 'This':
        return n['n']
    return None


def of(f, n, var):
    """member of the parameter var designated by n"""
    n = unc(n)
    if n is not None and n['k'] == 'Member' and n.get('c'):
        b = unc(n['c'][0])
        if b['k'] == 'Var' and b.get('v') == var:
            return n['n']
        if b['k'] == 'Un' and b['op'] == '*' and unc(b['c'][0]).get('v') == var:
            return n['n']
    return None


class Use:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p

    def fields(self, cls):
        r = self.p.records[cls]
        return [x['n'] for x in r['fields'] if not x.get('static') and not self.private(r, x)]

    def private(self, r, x):
        import re
        m = re.search(r'([\w:]+Private)\b', r['T'][x['t']].get('s', ''))
        return bool(m) and not self.p.records.get(m.group(1), {}).get('fields')

    # ---- members read (transitively through functions of the class)
    def reads(self, f, who, seen=None, whole=False):
        """members of *this (who None) or of the parameter who (id) read in f (whole: not counting where only their size is queried)"""
        seen = set() if seen is None else seen
        if (f.id, who) in seen:
            return set()
        seen.add((f.id, who))
        out = set()
        part = {id(unc(n['obj'])) for n in f.nodes() if n['k'] == 'MCall' and n.get('obj') is not None and n.get('q', '').split('::')[-1] in PARTIAL} if whole else ()
        for n in f.nodes():
            if id(n) in part:
                continue
            k = n['k']
            m = own(f, n) if who is None else of(f, n, who)
            if k == 'Member' and m:
                out.add(m)
            if k in ('MCall', 'Call', 'OCall') and 'fn' in n:
                t = self.p.fns.get(n['fn'])
                if t is None or not t.body:
                    continue
                o = unc(n.get('obj')) if n.get('obj') is not None else None
                args = n.get('c', [])
                if k == 'OCall' and n.get('m'):
                    o, args = unc(args[0]), args[1:]
                if o is not None and self.me(o, who):
                    out |= self.reads(t, None, seen, whole)
                for i, a in enumerate(args):
                    a = unc(a)
                    if a is not None and self.me(a, who) and i < len(t.params):
                        out |= self.reads(t, t.params[i].get('id'), seen, whole)
        return out

    def me(self, o, who):
        if o['k'] == 'Un' and o['op'] in ('*', '&'):
            o = unc(o['c'][0])
        return o['k'] == 'This' if who is None else o['k'] == 'Var' and o.get('v') == who

    # ---- members written on every path
    def must(self, f, seen=()):
        if f.id in seen or not f.body:
            return set(), {}
        vals = {}
        w, t = self.stmt(f, f.body, seen + (f.id,), vals)
        return w, vals

    def seq(self, f, ss, seen, vals):
        out = set()
        for s in ss:
            if s is None:
                continue
            w, t = self.stmt(f, s, seen, vals)
            out |= w
            if t:
                return out, True
        return out, False

    def stmt(self, f, s, seen, vals):
        """(members certainly written, whether the statement ends the function)"""
        k = s['k']
        if k == 'Compound':
            return self.seq(f, s['c'], seen, vals)
        if k == 'If':
            c = self.expr(f, s['cond'], seen, vals)
            a, ta = self.stmt(f, s['then'], seen, vals)
            b, tb = self.stmt(f, s['else'], seen, vals) if s.get('else') else (set(), False)
            tested = {own(f, x) for x in nodes(s['cond'])} - {None}
            # "if (m) m.reset();" leaves m clear either way
            keep = {m for m in a | b if m in tested}
            if ta and not tb:
                # the early end happens without the rest being done
                return c | (a & b) | keep, False if not self.harmless(f, s) else False
            return c | (a & b) | keep, ta and tb
        if k in ('Return', 'Throw'):
            out = set()
            for x in s.get('c', ()):
                if x:
                    out |= self.expr(f, x, seen, vals)
            return out, True
        if k == 'RangeFor':
            out = self.expr(f, s['range'], seen, vals) if s.get('range') else set()
            var = s.get('var') or {}
            vid = var.get('id')
            if vid is None and var.get('decls'):
                vid = var['decls'][0].get('id')
            body = s.get('body')
            cleared = any(self.reset_of(x) is not None and unc(self.reset_of(x)).get('v') == vid for x in nodes(body) if x['k'] in ('MCall', 'Assign', 'OCall'))
            if cleared:
                for x in nodes(s.get('range')):
                    if x['k'] == 'Member' and own(f, x):
                        out.add(own(f, x))
            return out, False
        if k in ('While', 'For'):
            return (self.expr(f, s['cond'], seen, vals) if s.get('cond') else set()), False
        if k in ('Do', 'Try', 'Case', 'Default', 'Label', 'Attr'):
            out = set()
            for key in ('body', 'c', 'try'):
                v = s.get(key)
                if isinstance(v, dict):
                    out |= self.stmt(f, v, seen, vals)[0]
                elif isinstance(v, list):
                    out |= self.seq(f, [x for x in v if x], seen, vals)[0]
            return out, False
        if k == 'Switch':
            return self.expr(f, s['cond'], seen, vals), False
        return self.expr(f, s, seen, vals), False

    def harmless(self, f, s):
        return False

    def reset_of(self, n):
        """the object reset by the expression"""
        if n['k'] == 'MCall' and n.get('q', '').split('::')[-1] in RESET:
            o = unc(n.get('obj'))
            while o is not None and o['k'] in ('Un', 'OCall') and o.get('op') in ('*', '->') and o.get('c'):
                o = unc(o['c'][0])
            return o
        if n['k'] in ('Assign', 'OCall') and n.get('op') == '=':
            o = unc(n['c'][0])
            while o is not None and o['k'] in ('Un', 'OCall') and o.get('op') in ('*', '->') and o.get('c'):
                o = unc(o['c'][0])
            return o
        return None

    def member(self, f, n):
        """member of *this designated by n, directly or through an accessor returning a reference to it"""
        m = own(f, n)
        if m:
            return m
        n = unc(n)
        if n is not None and n['k'] == 'MCall' and not n.get('c') and n.get('obj') is not None and unc(n['obj'])['k'] == 'This':
            t = self.p.fns.get(n.get('fn'))
            if t is not None and t.body and t.body['k'] == 'Compound' and len(t.body['c']) == 1 and t.body['c'][0]['k'] == 'Return' \
                    and t.T[t.d['rt']].get('k') == 'ref':
                return own(t, t.body['c'][0]['c'][0])
        return None

    def expr(self, f, e, seen, vals):
        out = set()
        if e is None:
            return out
        k = e['k']
        if k == 'Lambda':
            return out
        if k == 'DeclStmt':
            for d in e['decls']:
                if d.get('init'):
                    out |= self.expr(f, d['init'], seen, vals)
            return out
        if k == 'Bin' and e['op'] in ('&&', '||'):
            return self.expr(f, e['c'][0], seen, vals)
        if k == 'Cond':
            return self.expr(f, e['cond'] if 'cond' in e else e['c'][0], seen, vals)
        if k in ('Assign', 'OCall') and e.get('op') == '=':
            m = self.member(f, e['c'][0])
            if m:
                out.add(m)
                v = e['c'][1]
                while v is not None and v['k'] == 'Assign':
                    v = v['c'][1]
                u = unc(v)
                c = v.get('cv', u.get('cv')) if v is not None else None
                vals[m] = c
            t = unc(e['c'][0])
            if t['k'] == 'Un' and t['op'] == '*' and unc(t['c'][0])['k'] == 'This' and f.rec in self.p.records:
                out |= set(self.fields(f.rec))
        if k == 'MCall':
            o = e.get('obj')
            nm = e.get('q', '').split('::')[-1]
            m = self.member(f, o) if o is not None else None
            if m and nm in RESET:
                out.add(m)
                vals.setdefault(m, None)
            if m and nm == 'swap' or nm == 'assign' and m:
                out.add(m)
            if o is not None and unc(o)['k'] == 'This' and 'fn' in e:
                t = self.p.fns.get(e['fn'])
                if t is not None:
                    w, v = self.must(t, seen)
                    out |= w
                    vals.update(v)
        if k in ('Call', 'MCall', 'OCall', 'Ctor'):
            mu = e.get('mu')
            for i, a in enumerate(e.get('c', ())):
                m = own(f, a) if a else None
                if m is None and a and unc(a)['k'] == 'Un' and unc(a)['op'] == '&':
                    m = own(f, unc(a)['c'][0])
                if m and mu and i < len(mu) and mu[i]:
                    out.add(m)
        for key in ('c', 'obj', 'e'):
            v = e.get(key)
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, dict) and 'k' in x:
                    out |= self.expr(f, x, seen, vals)
        return out


class NotBoolean(Exception):
    pass


def truth(u, f, n, env, atom):
    """value of the boolean expression n; atom(node) -> bool for comparisons/tests of members"""
    k = n['k']
    if 'cv' in n and k in ('Lit', 'Cast', 'EnumC'):
        return bool(n['cv'])
    if k == 'Bin' and n['op'] == '&&':
        return truth(u, f, n['c'][0], env, atom) and truth(u, f, n['c'][1], env, atom)
    if k == 'Bin' and n['op'] == '||':
        return truth(u, f, n['c'][0], env, atom) or truth(u, f, n['c'][1], env, atom)
    if k in ('Un', 'OCall') and n['op'] == '!' and len(n['c']) == 1:
        try:
            return atom(n)
        except NotBoolean:
            return not truth(u, f, n['c'][0], env, atom)
    try:
        return atom(n)
    except NotBoolean:
        if k in ('Cast', 'Paren') and n.get('c'):
            return truth(u, f, n['c'][0], env, atom)
        if k == 'Cond':
            c = n['c'] if 'cond' not in n else [n['cond'], n.get('then') or n['c'][0], n.get('else') or n['c'][-1]]
            return truth(u, f, c[1] if truth(u, f, c[0], env, atom) else c[2], env, atom)
        if k == 'Var':
            d = env.get(n.get('v'))
            if d is not None:
                return truth(u, f, d, env, atom)
        raise


class Ret(Exception):
    pass


def evaluate(u, f, atom):
    """result of the function whose body is made of returns, ifs and local booleans"""
    env = {}

    def run(s):
        k = s['k']
        if k == 'Compound':
            for x in s['c']:
                if x is not None:
                    run(x)
        elif k == 'Return':
            raise Ret(truth(u, f, s['c'][0], env, atom))
        elif k == 'If' and not s.get('init') and not s.get('var'):
            if truth(u, f, s['cond'], env, atom):
                run(s['then'])
            elif s.get('else'):
                run(s['else'])
        elif k == 'DeclStmt':
            for d in s['decls']:
                if d.get('init') and 'id' in d:
                    env[d['id']] = d['init']
        elif k in ('Null',) or k == 'Cast' and s.get('ck') == 'ToVoid':
            pass
        else:
            raise NotBoolean(k)
    try:
        run(f.body)
    except Ret as r:
        return r.args[0]
    raise NotBoolean('no result')


def accessor(u, f, n, base):
    """member returned by a trivial accessor call on base (This node or parameter)"""
    n = unc(n)
    if n['k'] != 'MCall' or n.get('c') or n.get('obj') is None or not base(unc(n['obj'])):
        return None
    t = u.p.fns.get(n.get('fn'))
    if t is None or not t.body:
        return None
    ms = u.reads(t, None)
    return next(iter(ms)) if len(ms) == 1 else None


def equality(ctx, u, cls, f, negated):
    sc = short(cls)
    ex = EXEMPT.get((sc, '=='), {})
    fs = [x for x in u.fields(cls) if x not in ex]
    if not f.params:
        return
    other = f.params[0].get('id')
    rule = 'equality'

    def mem(n):
        n = unc(n)
        a = own(f, n) or accessor(u, f, n, lambda o: o['k'] == 'This')
        if a:
            return 'this', a
        a = of(f, n, other) or accessor(u, f, n, lambda o: o['k'] == 'Var' and o.get('v') == other)
        return ('other', a) if a else None
    wrong = []

    def comparison(n):
        if n['k'] in ('Bin', 'OCall') and n.get('op') in ('==', '!=') and len(n['c']) == 2:
            a, b = mem(n['c'][0]), mem(n['c'][1])
            if a and b and a[0] != b[0]:
                if a[1] != b[1]:
                    wrong.append((a[1], b[1], n))
                return a[1], n['op'] == '==', False
            pa, pb = projection(n['c'][0]), projection(n['c'][1])
            if pa and pb and pa[0][0] != pb[0][0] and pa[1] == pb[1]:
                if pa[0][1] != pb[0][1]:
                    wrong.append((pa[0][1], pb[0][1], n))
                return pa[0][1], n['op'] == '==', True
        return None

    def projection(n):
        n = unc(n)
        if n['k'] == 'MCall' and not n.get('c') and n.get('obj') is not None:
            m = mem(n['obj'])
            return (m, n.get('q')) if m else None
    # the negation of the other operator, e.g. !(*this == other)
    body = [x for x in f.nodes() if x['k'] in ('MCall', 'OCall') and 'fn' in x and x['fn'] != f.id and x.get('q', '').split('::')[-1] in ('operator==', 'compareTo', 'operator!=')
            and x.get('q', '').startswith(cls + '::')]

    def atom_for(diff, proj):
        # proj: whether e.g. the sizes of different members are different
        def atom(n):
            c = comparison(n)
            if c:
                return (c[0] not in diff or c[2] and not proj) == c[1]
            m = unc(n)
            if m['k'] in ('MCall', 'OCall') and m in body:
                return (not diff) == (not m['q'].endswith('!='))
            raise NotBoolean(n['k'])
        return atom
    try:
        bad = []
        relevant = fs
        for r in range(len(relevant) + 1):
            for diff in itertools.combinations(relevant, r):
                if len(relevant) > 10 and r not in (0, 1, len(relevant)):
                    continue
                for proj in (False, True):
                    v = evaluate(u, f, atom_for(set(diff), proj))
                    if (v == bool(diff) and not negated or v != bool(diff) and negated) and diff not in bad:
                        bad.append(diff)
        for a, b, n in wrong[:1]:
            ctx.bad(rule, f, n, '%s compared with %s' % (a, b), 'different parts are compared')
        single = [d[0] for d in bad if len(d) == 1]
        for m in fs:
            ctx.check(m not in single, rule, f, None, 'part %s of %s' % (m, sc), 'the result does not depend on it')
        ctx.check(not [d for d in bad if len(d) != 1], rule, f, None, 'combination of parts of ' + sc,
                  'wrong result if exactly %s differ' % (', '.join(next((d for d in bad if len(d) != 1), ())) or 'no parts'))
        return
    except NotBoolean:
        pass
    a, b = u.reads(f, None, None, True), u.reads(f, other, None, True)
    for m in fs:
        ctx.check(m in a and m in b, rule, f, None, 'part %s of %s' % (m, sc), 'not taken into account')
    for n in f.nodes():
        wrong.clear()
        c = comparison(n)
        if c:
            ctx.check(not wrong, rule, f, n, 'comparison of ' + c[0], 'different parts are compared')


def copies(ctx, u, cls, f, ctor):
    sc = short(cls)
    other = f.params[0].get('id')
    fs = u.fields(cls)
    if ctor:
        wr = {}
        for i in f.inits:
            if 'm' in i and i.get('e'):
                wr[i['m']] = i['e']
            if 'deleg' in i and i.get('e'):
                if any(x['k'] == 'Var' and x.get('v') == other for x in nodes(i['e'])):
                    for m in fs:
                        wr[m] = i['e']
    else:
        wr = {}
    w, vals = u.must(f)
    may = set(w)
    for n in f.nodes():
        if n['k'] in ('Assign', 'OCall') and n.get('op') == '=':
            m = own(f, n['c'][0])
            if m:
                may.add(m)
                wr.setdefault(m, n['c'][1])
                if any(of(f, x, other) == m for x in nodes(n['c'][1])):
                    wr[m] = n['c'][1]
        if n['k'] == 'MCall' and n.get('obj') is not None and own(f, n['obj']) and n.get('c'):
            may.add(own(f, n['obj']))
            wr.setdefault(own(f, n['obj']), n)
    rd = u.reads(f, other)
    whole = any(x['k'] in ('Ctor', 'MCall', 'OCall') and x.get('q', '').split('::')[-1] in ('operator=', sc.split('::')[-1], 'swap')
                and any(unc(a) is not None and unc(a).get('v') == other for a in x.get('c', ()) if a) for x in f.nodes() if x.get('fn') != f.id
                and x.get('q', '').startswith(cls))
    for m in fs:
        okay = whole or m in rd and (m in wr or m in may)
        why = 'not copied'
        if okay and not whole and m in wr and ctor:
            src = {of(f, x, other) for x in nodes(wr[m])} - {None}
            if len(src) == 1 and m not in src and not any(own(f, y) == m or of(f, y, other) == m for y in nodes(f.body)):
                okay, why = False, 'copied from ' + next(iter(src))
        elif okay and not whole and m in wr:
            src = {of(f, x, other) for x in nodes(wr[m])} - {None}
            if len(src) == 1 and m not in src:
                okay, why = False, 'copied from ' + next(iter(src))
        ctx.check(okay, 'copy', f, None, 'part %s of %s' % (m, sc), why)
    if ctor:
        for b in u.p.records[cls]['bases']:
            bn = u.p.records[cls]['T'][b]['s']
            r = u.p.records.get(bn)
            if r and r['fields']:
                ok = any('base' in i and any(x['k'] == 'Var' and x.get('v') == other for x in nodes(i.get('e') or {})) or
                         any(x['k'] == 'Var' and x.get('v') == other for x in nodes(i.get('e') or {})) and 'm' not in i for i in f.inits)
                ctx.check(ok, 'copy', f, None, 'base %s of %s' % (short(bn), sc), 'not copied')


def emptiness(ctx, u, cls, f):
    sc = short(cls)
    ex = EXEMPT.get((sc, 'empty'), {})
    fs = [x for x in u.fields(cls) if x not in ex]

    def atom_for(full):
        def empty(n):
            m = own(f, n)
            if m is None:
                return None
            return m not in full

        def atom(n):
            k = n['k']
            if k == 'MCall' and n.get('q', '').split('::')[-1] in ('empty', 'isEmpty', 'isNull') and n.get('obj') is not None:
                v = empty(n['obj'])
                if v is not None:
                    return v
            if k == 'MCall' and n.get('q', '').split('::')[-1] in ('operator bool', 'has_value') and n.get('obj') is not None:
                v = empty(n['obj'])
                if v is not None:
                    return not v
            if k in ('Bin', 'OCall') and n.get('op') in ('==', '!=', '>') and len(n['c']) == 2:
                a, b = n['c']
                if own(f, b):
                    a, b = b, a
                z = unc(b)
                if z.get('cv') == 0 or z['k'] in ('Null', 'NullPtr', 'Float', 'Lit') and z.get('cv', 0) == 0 and float(z.get('fv', z.get('s', 0)) or 0) == 0:
                    x = unc(a)
                    if x['k'] == 'MCall' and x.get('q', '').split('::')[-1] in ('size', 'length', 'get') and x.get('obj') is not None:
                        a = x['obj']
                    v = empty(a)
                    if v is not None:
                        return v == (n['op'] == '==')
            if k in ('Cast', 'Member') and n.get('ck') in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', None):
                m = unc(n)
                v = empty(m) if m['k'] == 'Member' else None
                if v is not None:
                    return not v
            raise NotBoolean(k)
        return atom
    try:
        for r in range(len(fs) + 1):
            for full in itertools.combinations(fs, r):
                v = evaluate(u, f, atom_for(set(full)))
                ctx.check(v == (not full), 'empty', f, None, '%s with %s' % (sc, ', '.join(full) or 'nothing'), 'is reported to be %s' % ('empty' if v else 'not empty'))
    except NotBoolean as e:
        rd = u.reads(f, None)
        for m in fs:
            ctx.check(m in rd, 'empty', f, None, 'part %s of %s' % (m, sc), 'not taken into account')


def defaults(u, cls):
    """constants set by the default constructor"""
    out = {}
    for m in u.p.records[cls]['methods']:
        if m.get('role') == 'defctor':
            f = u.p.fns.get(m['id'])
            if f:
                for i in f.inits:
                    if 'm' in i and i.get('e'):
                        e = unc(i['e'])
                        c = i['e'].get('cv', e.get('cv') if e else None)
                        out[i['m']] = c
    return out


def clearing(ctx, u, cls, f, of=None):
    cls = of or cls
    sc = short(cls).split('<')[0]
    ex = EXEMPT.get((sc, 'clear'), {})
    w, vals = u.must(f)
    d = defaults(u, cls)
    for m in u.fields(cls):
        if m in ex:
            continue
        if ctx.check(m in w, 'clear', f, None, 'part %s of %s' % (m, sc), 'is not reset on every path'):
            if vals.get(m) is not None and d.get(m) is not None:
                ctx.check(vals[m] == d[m], 'clear-value', f, None, 'part %s of %s' % (m, sc), 'is reset to %s but initially %s' % (vals[m], d[m]))


def run(ctx):
    p = ctx.p
    u = Use(ctx)
    for cls, r in sorted(p.records.items()):
        if not r['file'].startswith(p.repo + '/') or not cls.startswith(NS):
            continue
        for m in r['methods']:
            f = p.fns.get(m['id'])
            if f is None or not f.body or f.d.get('implicit') or f.d.get('dflt'):
                continue
            role, nm = m.get('role'), m['n']
            if role in ('copyctor', 'copyassign') or nm == 'operator=' and len(f.params) == 1 and f.T[f.params[0]['t']].get('k') == 'ref' and not f.T[f.params[0]['t']].get('rv'):
                copies(ctx, u, cls, f, role == 'copyctor')
            elif nm in ('operator==', 'operator!=') and len(f.params) == 1:
                t = f.T[f.params[0]['t']]
                e = f.T[t['e']] if t.get('k') == 'ref' else t
                if e.get('s', '').replace('const ', '') == cls or e.get('r') == cls:
                    equality(ctx, u, cls, f, nm == 'operator!=')
    for f in p.q('TagValue::compareTo'):
        equality(ctx, u, f.rec, f, False)
    for c, nm in EMPTY.items():
        for f in p.q(c + '::' + nm):
            emptiness(ctx, u, f.rec, f)
    for c, nm in CLEAR:
        for f in p.q(c + '::' + nm):
            clearing(ctx, u, f.rec, f)
    for f in p.fns.values():
        if f.rec and f.rec.startswith(NS + 'TagField<') and f.n == 'clear' and f.body:
            clearing(ctx, u, f.rec, f)
            d = f.rec[len(NS + 'TagField<'):-1]
            if p.records.get(d, {}).get('fields'):
                clearing(ctx, u, f.rec, f, d)
        if f.rec and f.rec.startswith(NS + 'FieldMapBasedTag<') and f.n == 'removeAllFields' and f.body:
            clearing(ctx, u, f.rec, f)
    iteration(ctx)
    ctx.need('copy', 8)
    ctx.need('equality', 15)
    ctx.need('empty', 20)
    ctx.need('clear', 35)


def iteration(ctx):
    """the generic fields are enumerated completely"""
    import absint
    p = ctx.p
    vals = sorted(v for _, v in p.enum('KnownField')['vals'])
    names = {v: q.split('::')[-1] for q, v in p.enum('KnownField')['vals']}
    inv = next((v for v, n in names.items() if n == 'Invalid'), None)
    nxt = p.q('nextKnownField')[0]
    seen = []
    cur = min(vals)
    for _ in range(len(vals) + 5):
        if cur == inv:
            break
        seen.append(cur)
        cur = absint.Interp(p).call(nxt, [cur])
    ctx.check(seen == [v for v in vals if v != inv] and cur == inv, 'fields', nxt, None, 'enumeration of the fields', 'not each field is visited once')
