"""Every call of an accessor with explicit byte order (BinaryReader/BinaryWriter read*/write* with suffix BE/LE, CppUtilities::BE/LE
functions) in the implementation of a format uses the order that format prescribes. An access in the other order is accepted only where
the specification prescribes it or where no number is involved: (a) CRC-32 values of EBML elements are little-endian, (b) the value is an
identifier, i.e. all its uses (followed through variables, members, returns and arguments) are comparisons with constants - and then
the bytes those comparisons accept must be a known identifier -, conversions to text or lookups of a FourCC, (c) a constant is written
whose bytes are a known identifier or byte order mark, (d) ID3v2 sizes (decoded from synchsafe integers) are big-endian wherever they are
read. In addition byte order marks written for a text encoding have that encoding's order, and no multi-byte number is read from or written to a stream in
the byte order of the host."""
import re
from facts import nodes

EXPLAIN = __doc__
ASSUME = ['integers assembled manually from single bytes (shifts) are not covered by the rule; the library has none outside bit readers']

ORDER = {'adts': 'BE', 'avc': 'BE', 'av1': 'BE', 'aac': 'BE', 'flac': 'BE', 'id3': 'BE', 'matroska': 'BE', 'mp4': 'BE', 'mpegaudio': 'BE',
         'avi': 'LE', 'ivf': 'LE', 'ogg': 'LE', 'opus': 'LE', 'vorbis': 'LE', 'wav': 'LE', 'mpeg': 'BE',
         'signature.cpp': 'BE',          # signatures are enumerated in reading order
         'mediafileinfo.cpp': 'LE',      # APE tags (ID3v2 sizes and signatures: see (b) and (d))
         'tagvalue.cpp': 'LE'}           # binary form of popularities
MIN = {'id3': 15, 'matroska': 40, 'mp4': 120, 'flac': 10, 'vorbis': 8, 'ogg': 5, 'wav': 6, 'avi': 6, 'ivf': 5, 'opus': 2, 'tagvalue.cpp': 5}
KNOWN = {b'DKIF', b'RIFF', b'WAVE', b'fmt ', b'data', b'\x03vorbis', b'\x01vorbis', b'vorbis', b'OpusHead', b'OpusTags', b'OggS', b'APETAGEX', b'ID3',
         b'3DI', b'\xef\xbb\xbf', b'\xff\xfe', b'\xfe\xff', b'fLaC', b'FLAC', b'\x7fFLAC', b'theora', b'\x80theora', b'Speex', b'Speex   ', b'AVI LIST', b'AVI ', b'TAG',
         b'YUV4MPEG', b'RF64', b'bext', b'LIST', b'id3 ', b'fishead', b'fisbone',
         bytes.fromhex('800000aa00389b71'), bytes.fromhex('0100000000001000'), bytes.fromhex('0300000000001000')}
NORM = {x.strip(b'\0 ') for x in KNOWN}
TEXT = ('interpretIntegerAsString', 'fourccToMediaFormat', 'argsToString', 'tuple', 'operator%', 'numberToString', 'emplace_back')
ACC = re.compile(r'CppUtilities::(BE|LE)::(\w+)|CppUtilities::Binary(?:Reader|Writer)::(\w+?)(BE|LE)$')


def accessor(n):
    """(order, name, writes) of a call of an accessor with explicit byte order"""
    if n['k'] not in ('Call', 'MCall', 'FnRef') or not n.get('q', '').startswith('CppUtilities::'):
        return None
    m = ACC.match(n['q'])
    if not m:
        return None
    name = m.group(2) or m.group(3)
    return m.group(1) or m.group(4), name, name.startswith(('write', 'getBytes'))


def group(f):
    return f.rel.split('/')[0] if '/' in f.rel else f.rel


def const(o):
    for x in (o, unc(o) or {}):
        if 'cv' in x:
            return x['cv']
        if 'cvu' in x:
            return int(x['cvu'])
    return None


def unc(n):
    while n is not None and n['k'] in ('Cast', 'Paren') and n.get('c') and len(n['c']) == 1:
        n = n['c'][0]
    return n


class Flow:
    """where the value of an expression goes"""

    def __init__(self, ctx):
        self.ctx, self.p, self.sh = ctx, ctx.p, ctx.sh
        self.callers = None
        self.members = None

    def par(self, f):
        r = f.extra.get('parents')
        if r is None:
            r = {}
            for root in f.roots():
                for n in nodes(root):
                    for key, v in n.items():
                        if isinstance(v, dict) and 'k' in v:
                            r[id(v)] = (n, key)
                        elif isinstance(v, list):
                            for x in v:
                                if isinstance(x, dict):
                                    if 'k' in x:
                                        r[id(x)] = (n, key)
                                    elif n['k'] == 'DeclStmt':
                                        for y in x.values():
                                            if isinstance(y, dict) and 'k' in y:
                                                r[id(y)] = (x, 'decl')
            f.extra['parents'] = r
        return r

    def index(self):
        self.callers, self.members = {}, {}
        for f in self.p.repo_fns():
            for n, ts in self.sh.calls(f):
                for t in ts:
                    self.callers.setdefault(t, []).append((f, n))
            for n in f.nodes():
                if n['k'] == 'Member' and 'q' in n:
                    self.members.setdefault(n['q'], []).append((f, n))

    def isdef(self, f, n):
        p = self.par(f).get(id(n))
        return p and isinstance(p[0], dict) and p[0].get('k') == 'Assign' and p[0].get('op', '=') == '=' and p[0]['c'][0] is n

    def uses(self, f, n, width, mask=None, shift=0, seen=None):
        """(list of (constant, width, mask, function, node), list of other uses)"""
        if self.callers is None:
            self.index()
        seen = set() if seen is None else seen
        if (f.id, id(n)) in seen:
            return [], []
        seen.add((f.id, id(n)))
        cs, oth = [], []

        def add(r):
            cs.extend(r[0])
            oth.extend(r[1])

        def var(v):
            for x in f.nodes():
                if x['k'] == 'Var' and x.get('v') == v and not self.isdef(f, x):
                    add(self.uses(f, x, width, mask, shift, seen))
            for lam in self.p.fns.values():
                if self.p.lambda_parent.get(lam.id) == f.id:
                    for x in lam.nodes():
                        if x['k'] == 'Var' and x.get('v') == v and not self.isdef(lam, x):
                            add(self.uses(lam, x, width, mask, shift, seen))
        pr = self.par(f).get(id(n))
        if pr is None:
            return cs, oth
        q, key = pr
        k = q.get('k')
        if key == 'decl':
            if 'id' in q:
                var(q['id'])
        elif k in ('Cast', 'Paren', 'Cond', 'InitList'):
            if k == 'Cond' and q.get('cond') is n:
                return cs, [(f, n)]
            add(self.uses(f, q, width, mask, shift, seen))
        elif k == 'Ctor' and len(q.get('c', ())) == 1:
            add(self.uses(f, q, width, mask, shift, seen))
        elif k == 'Bin' and q['op'] in ('==', '!='):
            o = q['c'][1] if q['c'][0] is n else q['c'][0]
            c = const(o)
            if c is not None:
                cs.append((c << shift, width, mask, f, q))
            else:
                oth.append((f, q))
        elif k == 'Bin' and q['op'] == '&':
            o = q['c'][1] if q['c'][0] is n else q['c'][0]
            c = const(o)
            if c is None:
                oth.append((f, q))
            else:
                add(self.uses(f, q, width, (c << shift) if mask is None else mask & (c << shift), shift, seen))
        elif k == 'Bin' and q['op'] == '>>' and q['c'][0] is n and const(q['c'][1]) is not None:
            s = shift + const(q['c'][1])
            full = (1 << 8 * width) - 1
            add(self.uses(f, q, width, (full if mask is None else mask) & full >> s << s, s, seen))
        elif k == 'Switch' and (key == 'cond' or q.get('cond') is n):
            for x in nodes(q['body']):
                if x['k'] == 'Case':
                    c = const(x['lhs']) if x.get('lhs') else None
                    if c is not None:
                        cs.append((c << shift, width, mask, f, x))
        elif k == 'Assign' and len(q['c']) > 1 and q['c'][1] is n:
            t = unc(q['c'][0])
            if t['k'] == 'Var' and 'v' in t:
                var(t['v'])
            elif t['k'] == 'Member' and 'q' in t:
                for g, x in self.members.get(t['q'], ()):
                    if not self.isdef(g, x):
                        add(self.uses(g, x, width, mask, shift, seen))
            else:
                oth.append((f, q))
        elif k == 'Return':
            for g, x in self.callers.get(f.id, ()):
                if x['k'] in ('Call', 'MCall', 'OCall'):
                    add(self.uses(g, x, width, mask, shift, seen))
        elif k in ('Call', 'MCall', 'Ctor', 'OCall'):
            if q.get('q', '').split('::')[-1].split('<')[0] in TEXT:
                if q['q'].split('::')[-1] in TEXT[:2]:
                    cs.append((None, width, mask, f, q))
                return cs, oth
            t = self.p.fns.get(q.get('fn'))
            if t is not None and t.body and t.file.startswith(self.p.repo) and n in q.get('c', ()):
                a = q['c'][1:] if k == 'OCall' and q.get('m') else q['c']
                i = next((i for i, x in enumerate(a) if x is n), None)
                if i is not None and i < len(t.params):
                    v = t.params[i].get('id')
                    for x in t.nodes():
                        if x['k'] == 'Var' and x.get('v') == v and not self.isdef(t, x):
                            add(self.uses(t, x, width, mask, shift, seen))
                    return cs, oth
            oth.append((f, q))
        elif k in ('Compound', 'ExprStmt', 'For', 'DeclStmt', None):
            pass
        else:
            oth.append((f, q))
        return cs, oth


def wire(order, c, width, mask):
    """the bytes compared (those not masked out)"""
    c &= (1 << (8 * width)) - 1
    b = c.to_bytes(width, 'big' if order == 'BE' else 'little')
    if mask is None:
        return b
    m = (mask & ((1 << (8 * width)) - 1)).to_bytes(width, 'big' if order == 'BE' else 'little')
    return bytes(x for x, y in zip(b, m) if y)


def width(f, n, name):
    m = re.search(r'(\d+)$', name)
    if m:
        return int(m.group(1)) // 8
    t = f.ty(n)
    if name == 'getBytes':
        return (f.ty(n['c'][0]).get('w') or 0) // 8
    return (t.get('w') or 0) // 8


def run(ctx):
    p = ctx.p
    flow = Flow(ctx)
    count = {}
    for f in p.repo_fns():
        g = group(f)
        want = ORDER.get(g)
        if want is None:
            continue
        for n in f.nodes():
            a = accessor(n)
            if a is None:
                continue
            order, name, writes = a
            count[g] = count.get(g, 0) + 1
            short = n['q'].split('::', 1)[1]
            why = '%s is %s' % (g, 'big-endian' if want == 'BE' else 'little-endian')
            if n['k'] == 'FnRef':
                ctx.check(order == want, 'order', f, n, short, why)
                continue
            if writes:
                arg = n['c'][0] if n.get('c') else None
                if arg is not None and any(x['k'] in ('MCall', 'Call') and 'Crc32' in x.get('q', '') or crcvar(f, x) for x in nodes(arg)) and g == 'matroska':
                    ctx.check(order == 'LE', 'crc', f, n, short, 'the CRC-32 of an EBML element is little-endian')
                    continue
                c = const(arg) if arg is not None else None
                w = width(f, n, name)
                if order != want and c is not None and w:
                    b = wire(order, c, w, None)
                    ctx.check(b.strip(b'\0 ') in NORM, 'identifier', f, n, short + ' writes ' + repr(b), 'not a known identifier and ' + why)
                    continue
                ctx.check(order == want, 'order', f, n, short, why)
                continue
            if synchsafe(flow, f, n):
                ctx.check(order == 'BE', 'synchsafe', f, n, short, 'ID3v2 sizes are big-endian')
                continue
            w = width(f, n, name)
            cs, oth = flow.uses(f, n, w) if w else ([], [])
            if order == want:
                swapped = []
                for c, ww, mask, h, x in cs:
                    if c is not None and ww >= 3:
                        b = wire(order, c, ww, mask)
                        if b.strip(b'\0 ') not in NORM and b[::-1].strip(b'\0 ') in NORM:
                            swapped.append('%s compared at %s' % (b, h.where(x)))
                ctx.check(not swapped, 'order', f, n, short, 'the bytes of an identifier are swapped: ' + ', '.join(swapped))
                continue
            if not oth and cs:
                wrong = []
                for c, ww, mask, h, x in cs:
                    if c is None:
                        continue
                    if mask is not None and wire(order, (1 << 8 * ww) - 1, ww, None)[1:] and (mask & ((1 << 8 * ww) - 1)) in (0xFF, 0xFF << 8 * (ww - 1)):
                        b = wire(order, c, ww, None)
                        if b[0] and not any(b[1:]):
                            continue        # first byte (type of a header)
                    b = wire(order, c, ww, mask)
                    if not (b.strip(b'\0 ') in NORM):
                        wrong.append('%s compared at %s' % (b, h.where(x)))
                ctx.check(not wrong, 'identifier', f, n, short, 'not a known identifier: %s; %s' % (', '.join(wrong), why))
                continue
            ctx.bad('order', f, n, short, why, ['used as a number at %s in %s' % (h.where(x), h.q) for h, x in oth[:4]])
    for g, m in MIN.items():
        if count.get(g, 0) < m:
            ctx.lost('only %d byte order dependent accesses found in %s' % (count.get(g, 0), g))
    boms(ctx)
    host(ctx)
    ctx.need('order', 200)
    ctx.cov['accesses_by_format'] = count


def crcvar(f, x):
    """x is a local variable initialised from a CRC computation"""
    if x['k'] != 'Var':
        return False
    for n in f.nodes():
        if n['k'] == 'DeclStmt':
            for d in n['decls']:
                if d.get('id') == x.get('v') and d.get('init'):
                    return any('Crc32' in y.get('q', '') for y in nodes(d['init']))
    return False


def synchsafe(flow, f, n):
    q = flow.par(f).get(id(n))
    while q and isinstance(q[0], dict) and q[0].get('k') in ('Cast', 'Paren'):
        q = flow.par(f).get(id(q[0]))
    return bool(q and q[0].get('k') == 'Call' and q[0].get('q', '').endswith('toNormalInt'))


def boms(ctx):
    """byte order marks written for an encoding"""
    p = ctx.p
    wrote = {}
    for f in p.repo_fns():
        if any(accessor(n) and accessor(n)[1] == 'getBytes' and n.get('c') and n['c'][0].get('cv') == 0xFEFF for n in f.nodes()):
            e = [q for q in f.params if 'TagTextEncoding' in f.T[q['t']].get('s', '')]
            if len(e) == 1:
                wrote[f.id] = (f, f.params.index(e[0]))
    en = {q.split('::')[-1]: v for q, v in p.enum('TagTextEncoding')['vals']}
    for f, i in wrote.values():
        for name, exp in (('Utf16LittleEndian', b'\xff\xfe'), ('Utf16BigEndian', b'\xfe\xff'), ('Utf8', b''), ('Latin1', b'')):
            out = bom(ctx, f, i, en[name])
            if out is None:
                ctx.cov.setdefault('not_evaluated', []).append('%s(%s)' % (f.q, name))
                continue
            ctx.check(out == exp, 'bom', f, None, 'byte order mark of %s' % name, 'writes %r instead of %r' % (out, exp))


def bom(ctx, f, i, enc):
    """bytes written by f for the constant encoding enc (None: cannot be evaluated)"""
    import absint
    buf = absint.Buf()
    args = []
    for j, q in enumerate(f.params):
        if j == i:
            args.append(enc)
        elif f.T[q['t']].get('k') == 'ptr':
            args.append(absint.Ptr(buf))
        else:
            return None
    it = absint.Interp(ctx.p)
    try:
        it.call(f, args)
        return bytes(sum(x << k for k, x in enumerate(buf.bytes[j])) for j in range(len(buf.bytes)))
    except (absint.Unknown, absint.Split, KeyError, TypeError):
        return None


def host(ctx):
    """multi-byte numbers in host order"""
    for f in ctx.p.repo_fns():
        if group(f) not in ORDER:
            continue
        for n in f.nodes():
            if n['k'] == 'MCall' and n.get('q', '').split('::')[-1] in ('read', 'write') and n.get('q', '').startswith('std::basic_') and n.get('c'):
                a = n['c'][0]
                bad = False
                for x in nodes(a):
                    if x['k'] == 'Cast' and x.get('c') and x['c'][0] is not None:
                        t = f.ty(x['c'][0])
                        if t.get('k') == 'ptr':
                            e = f.T[t['e']] if t.get('e', -1) >= 0 else {}
                            if e.get('k') in ('int', 'float') and (e.get('w') or 0) > 8:
                                bad = True
                ctx.check(not bad, 'host-order', f, n, n['q'].split('::')[-1] + ' of a number', 'bytes of a multi-byte number are transferred in host order')
