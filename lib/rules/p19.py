"""The functions of EbmlElement which compute the length of the encoding of an identifier, a size or an unsigned integer and those which encode it are
evaluated abstractly on their syntax trees for ALL values: the 64-bit input is a vector of symbolic bits within an interval and the interval is split
exactly where a comparison in the code changes its outcome. For each part of the resulting partition: both reject or both accept; the length returned by
the encoder equals the computed one (respectively the larger one of it and the specified minimum); each of the bytes is written; decoding the bytes bit by
bit yields the value (sizes: length marker in front, never the reserved pattern for an unknown size). All callers pass buffers which are large enough for what the encoder writes."""
from absint import Interp, Buf, Ptr, Unknown, Thrown, Sym, Split, partition
from backup import strip
from facts import AnalysisBroken

EXPLAIN = __doc__
LEVEL = 'proof'
TRUSTED = ['lib/absint.py', 'CppUtilities::BE::getBytes writes the bytes of its argument, most significant first']
E = 'TagParser::EbmlElement::'
TOP = (1 << 64) - 1


def rng(l, h):
    return '%#x' % l if l == h else '%#x..%#x' % (l, h)


def run(ctx):
    p = ctx.p

    def fn(name, n):
        l = [f for f in p.q(E + name, False) if len(f.params) == n and f.body]
        if len(l) != 1:
            raise AnalysisBroken('%s%s with %d parameters not found' % (E, name, n))
        return l[0]

    def width(f):
        t = f.T[f.params[0]['t']]
        return t.get('w', 64)

    def length(f):
        def one(lo, hi):
            i = Interp(p, lo, hi)
            try:
                return i.call(f, [i.x(width(f))])
            except Thrown:
                return 'rejected'
        return one

    def encode(f, extra=()):
        def one(lo, hi):
            i = Interp(p, lo, hi)
            b = Buf()
            try:
                return i.call(f, [i.x(width(f)), Ptr(b)] + list(extra)), b.bytes
            except Thrown:
                return 'rejected', {}
        return one

    def bits(lo, hi, n):
        """bits of x, most significant first"""
        return [((lo >> i) & 1 if lo >> i == hi >> i else ('x', i)) for i in range(n - 1, -1, -1)]

    def decoded(b, n):
        out = []
        for i in range(n):
            if i not in b:
                return None
            out += b[i][::-1]
        return out

    def compare(kind, calc, mk, minimum, lo, hi):
        """evaluates both; yields nothing, reports"""
        rule = '%s of %d bit' % (kind, width(mk)) if False else kind
        try:
            a = partition(length(calc), lo, hi)
            b = partition(encode(mk, () if minimum is None else (minimum,)), lo, hi)
        except Unknown as e:
            ctx.lost('%s can not be evaluated: %s' % (mk.q, e))
        ia = 0
        for l, h, (n, buf) in b:
            for l2, h2, m in a:
                x, y = max(l, l2), min(h, h2)
                if x > y:
                    continue
                tail = '' if minimum is None else ' (at least %d bytes)' % minimum
                if m == 'rejected' or n == 'rejected':
                    ctx.check(m == n, rule, mk, None, '%s %s%s: %s by %s' % (kind, 'computed as encodable' if n == 'rejected' else 'computed as not encodable', tail, 'rejected' if n == 'rejected' else 'encoded', mk.n),
                              'values %s: computed length %s, encoder %s' % (rng(x, y), m, n))
                    continue
                want = m if minimum is None else max(m, minimum)
                if not isinstance(n, int) or not isinstance(m, int) or n != want:
                    ctx.bad(rule, mk, None, '%s: length of the encoding differs from the computed length%s' % (kind, tail), 'values %s: %s expected %s, %s returned %s' % (rng(x, y), calc.n, want, mk.n, n))
                    continue
                d = decoded(buf, n)
                if d is None:
                    ctx.bad(rule, mk, None, '%s: bytes of the encoding are not written' % kind, 'values %s: %d bytes returned but only bytes %s written' % (rng(x, y), n, sorted(buf)))
                    continue
                if max(buf) > 7:
                    ctx.bad(rule, mk, None, '%s: encoder writes beyond eight bytes' % kind, 'values %s' % rng(x, y))
                    continue
                if kind == 'size':
                    w = [0] * (n - 1) + [1] + bits(l, h, 7 * n)
                    fits = h >> (7 * n) == 0 and h != (1 << (7 * n)) - 1
                else:
                    w = bits(l, h, 8 * n)
                    fits = h >> (8 * n) == 0
                if not fits:
                    ctx.bad(rule, mk, None, '%s: encoded with too few bytes' % kind, 'values %s do not fit into %d bytes' % (rng(x, y), n))
                elif d != w:
                    ctx.bad(rule, mk, None, '%s: decoding the encoding yields another value' % kind, 'values %s, %d bytes: %s instead of %s' % (rng(x, y), n, show(d), show(w)))
                else:
                    ctx.ok(rule, mk, None, '%s%s -> %d bytes' % (rng(x, y), tail, n))

    def show(b):
        return ''.join('x' if e not in (0, 1) else str(e) for e in b)

    calc_id, mk_id = fn('calculateIdLength', 1), fn('makeId', 2)
    compare('identifier', calc_id, mk_id, None, 0, (1 << width(mk_id)) - 1)
    calc_s, calc_u = fn('calculateSizeDenotationLength', 1), fn('calculateUIntegerLength', 1)
    compare('size', calc_s, fn('makeSizeDenotation', 2), None, 0, TOP)
    compare('unsigned integer', calc_u, fn('makeUInteger', 2), None, 0, TOP)
    for m in range(0, 9):
        compare('size', calc_s, fn('makeSizeDenotation', 3), m, 0, TOP)
        compare('unsigned integer', calc_u, fn('makeUInteger', 3), m, 0, TOP)

    # buffers
    written, unknown = {}, 0
    for f in p.repo_fns():
        for n in f.nodes():
            if n['k'] in ('Call', 'MCall') and n.get('q') in (E + 'makeId', E + 'makeSizeDenotation', E + 'makeUInteger'):
                room = capacity(f, n['c'][1])
                if room is None:
                    unknown += 1
                    continue
                g = p.fns.get(n['fn'])
                v = n['c'][0].get('cv')
                lo, hi = (v, v) if isinstance(v, int) else (0, (1 << width(g)) - 1)
                k = (g.id, lo, hi)
                if k not in written:
                    try:
                        written[k] = max(max([m + 1 for l, h, (_, b) in partition(encode(g, (0,) * (len(g.params) - 2)), lo, hi) for m in b], default=0),
                                         8 if len(g.params) > 2 else 0)
                    except Unknown as e:
                        ctx.lost('%s can not be evaluated: %s' % (g.q, e))
                ctx.check(room >= written[k], 'buffer', f, n, 'buffer passed to %s' % n['q'].split('::')[-1], 'room for %s bytes, up to %d bytes written' % (room, written[k]))
    ctx.cov['buffers_of_unknown_size'] = unknown
    ctx.need('identifier', 4)
    ctx.need('size', 50)
    ctx.need('unsigned integer', 50)
    ctx.need('buffer', 20)


def capacity(f, e, depth=0):
    s = strip(e)
    if s['k'] == 'Cast':
        return capacity(f, s['c'][0])
    if s['k'] == 'Bin' and s['op'] == '+':
        c = s['c'][1].get('cv')
        r = capacity(f, s['c'][0])
        return None if c is None or r is None else r - c
    if s['k'] == 'Un' and s['op'] == '&':
        i = strip(s['c'][0])
        if i['k'] == 'Index' and i['c'][1].get('cv') is not None:
            r = capacity(f, i['c'][0])
            return None if r is None else r - i['c'][1]['cv']
        t = f.ty(i)
        return t['w'] // 8 if t.get('k') == 'int' else None
    t = f.ty(s)
    if t.get('k') == 'arr':
        return t.get('n')
    if s['k'] == 'MCall' and s['q'].endswith('::data'):
        t = f.ty(s['obj'])
        if t.get('r') == 'std::array':
            b = t['s'].rsplit(',', 1)[1].strip(' >ul')
            return int(b) if b.isdigit() else None
    if s['k'] == 'Var' and depth < 3:
        for pi, prm in enumerate(f.params):
            if prm['id'] == s['v']:
                r = []
                for g in f.prog.repo_fns():
                    for c in g.nodes():
                        if c['k'] in ('Call', 'MCall', 'Ctor') and c.get('fn') == f.id and pi < len(c['c']):
                            r.append(capacity(g, c['c'][pi], depth + 1))
                return min(r) if r and None not in r else None
        inits = [d for n in f.nodes() if n['k'] == 'DeclStmt' for d in n['decls'] if d['id'] == s['v'] and d.get('i')]
        if len(inits) == 1 and inits[0].get('const') or inits and f.ty(inits[0]['i']).get('k') == 'ptr' and len(inits) == 1 and not any(
                x['k'] in ('Assign', 'CAssign') and strip(x['c'][0]).get('v') == s['v'] or x['k'] == 'Un' and x['op'] in ('++', '--') and strip(x['c'][0]).get('v') == s['v'] for x in f.nodes()):
            return capacity(f, inits[0]['i'], depth + 1)
    return None
