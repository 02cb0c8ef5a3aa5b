"""Every dereference (*, ->) of a raw pointer, smart pointer or std::optional which refers to an object of the library is an obligation. It
holds if the value is non-null by construction (address, new, make_unique, constant local, member or container element which only ever
receives non-null values, arguments of all call sites, returns on all paths) or if branches on every path leading there establish that it is
not null, with facts being dropped as soon as something on the path may change the value."""
from truthy import Truthy
from backup import strip
from facts import nodes as walk

EXPLAIN = __doc__
ASSUME = ['MediaFileInfo::m_container is set when m_containerFormat denotes the Ogg container (containerFormatAbbreviation), the number of tracks '
          'of the container is only non-zero if there is a container (MediaFileInfo::tracks) and m_singleTrack is set for FLAC files the tags of which '
          'have been parsed (createAppropriateTags)',
          'lookups of the i-th track/tag/chapter/attachment return an object if i is known to be less than the count',
          'the unused AAC frame parser (aac/) is left out as long as nothing creates it']
FROZEN = {
    ('TagParser::MediaFileInfo::containerFormatAbbreviation', 'this.m_container'): 'set when the format has been determined to be Ogg',
    ('TagParser::MediaFileInfo::tracks', 'this.m_container'): 'only accessed if the container has tracks',
    ('TagParser::MediaFileInfo::createAppropriateTags', 'this.m_singleTrack'): 'set when the tags of a FLAC file have been parsed',
}


def pointee(fn, e):
    t = fn.ty(e)
    s = t.get('s', '')
    if s.startswith('const '):
        s = s[6:]
    if t.get('k') == 'ptr' and 'e' in t:
        s = fn.T[t['e']].get('s', '')
    elif s.startswith(('std::unique_ptr<', 'std::shared_ptr<', 'std::optional<')):
        s = s[s.index('<') + 1:]
    else:
        return None
    return s[6:] if s.startswith('const ') else s


def deref(fn, n):
    """dereferenced expression or None"""
    k = n['k']
    if k == 'MCall' and n.get('arrow') and n.get('obj'):
        e = n['obj']
    elif k == 'Member' and n.get('arrow'):
        e = n['c'][0]
    elif k == 'Un' and n['op'] == '*':
        e = n['c'][0]
    elif k == 'OCall' and n['op'] in ('->', '*') and len(n['c']) == 1:
        e = n['c'][0]
    else:
        return None
    s = strip(e)
    if s['k'] == 'This' or s['k'] == 'OCall' and s['op'] == '->' or s['k'] == 'Var' and s['n'].startswith('__'):
        return None     # (the latter: reported at the inner operator; iterators of range-based for loops)
    c = pointee(fn, e)
    return e if c and c.startswith('TagParser::') else None


class Twins:
    """two local pointers which are always assigned together (both non-null or both null)"""

    def __init__(self, T):
        self.T, self.memo = T, {}

    def of(self, fn, v):
        if (fn.id, v) in self.memo:
            return self.memo[(fn.id, v)]
        self.memo[(fn.id, v)] = None
        w = {}
        for c in fn.nodes():
            if c['k'] != 'Compound':
                continue
            here = {}
            for st in c['c']:
                st = strip(st) if st else st
                if st is None or st['k'] in ('Compound', 'If', 'For', 'While', 'Do', 'RangeFor', 'Switch', 'Try', 'Lambda'):
                    continue
                for a in walk(st):
                    if a['k'] == 'Assign' and a['op'] == '=' and strip(a['c'][0])['k'] == 'Var' and fn.ty(a['c'][0]).get('k') == 'ptr':
                        x = strip(a['c'][1])
                        here[strip(a['c'][0])['v']] = 'null' if x['k'] == 'Null0' or x.get('cv') == 0 else 'set'
            for x, val in here.items():
                w.setdefault(x, []).append((id(c), val))
        if v in w and any(val == 'null' for _, val in w[v]):
            for x in w:
                if x != v and w[x] == w[v]:
                    self.memo[(fn.id, v)] = x
        return self.memo[(fn.id, v)]


def run(ctx):
    p, sh = ctx.p, ctx.sh
    T = Truthy(sh)
    tw = Twins(T)
    used = {}

    def known(fn, n, key):
        """n: expression; is key established where n is evaluated?"""
        return T.known(fn, n, key)

    first = set()
    for f in p.q('Mp4Container::internalParseHeader', False):
        cfg, fa, idx = T.at(f)
        fs = fa.at(cfg.exit)
        if fs is not None and ('t', 'this.m_firstElement', True) in fs:
            ctx.ok('header', f, None, 'the first element has been set whenever parsing the header succeeded')
            first.add(f.rec)
        else:
            ctx.bad('header', f, None, 'the first element might not be set when parsing the header succeeded')
    existing = True
    for f in p.repo_fns():
        for n in f.nodes():
            if n['k'] == 'Assign' and strip(n['c'][0])['k'] == 'Member' and strip(n['c'][0])['n'] == 'canUseExisting':
                if n['c'][1].get('cv') == 0:
                    continue
                if T.known(f, n, 'this.m_tkhdAtom'):
                    ctx.ok('existing track header', f, n, 'set when there is a track header')
                else:
                    existing = False
                    ctx.bad('existing track header', f, n, 'existing header is to be used although there might be none')

    where = [None]

    def assumed(fn, n):
        at = where[0]
        r = None
        if n['k'] == 'MCall' and n.get('q', '').endswith('::firstElement') and 'Mp4Atom' in n['q'] and first and fn.rec in ('TagParser::Mp4Container', 'TagParser::Mp4Track'):
            if not fn.q.endswith(('Mp4Container::internalParseHeader', 'Mp4Container::internalMakeFile')):
                r = 'set when the header has been parsed'
        elif n['k'] == 'Member' and n['n'] == 'm_tkhdAtom' and existing and at and at[0] is fn:
            cfg, fa, idx = T.at(fn)
            node = idx.get(id(at[1]))
            if node is not None and any(x[0] == 't' and x[2] and x[1].endswith('.canUseExisting') for x in fa.at(node) or ()):
                r = 'existing header is used'
        key = T.acc.key(fn, n)
        if r is None and (fn.q, key) in FROZEN:
            r = FROZEN[(fn.q, key)]
        if r:
            used[r] = used.get(r, 0) + 1
        return r

    T.assumed.append(assumed)
    prove0 = T.prove

    def prove(fn, at, e, depth=0):
        w = where[0]
        where[0] = (fn, at)
        try:
            r = prove0(fn, at, e, depth)
            if r:
                return r
            n = strip(e)
            if n['k'] == 'Var':
                t = tw.of(fn, n['v'])
                if t is not None:
                    k = T.known(fn, at, 'v%d' % t)
                    if k:
                        return 'assigned together with a pointer which is ' + k
            return None
        finally:
            where[0] = w

    T.prove = prove
    created = any(n['k'] == 'Ctor' and n.get('q', '').endswith('::AacFrameElementParser') and '/aac/' not in f.file
                  for f in p.repo_fns() for n in f.nodes())
    seen = set()
    skipped = 0
    for f in p.repo_fns():
        if '/aac/' in f.file and not created:
            skipped += sum(1 for n in f.nodes() if deref(f, n) is not None)
            continue
        for n in f.nodes():
            e = deref(f, n)
            if e is None:
                continue
            if id(n) not in T.at(f)[2]:
                continue    # not reachable
            r = T.prove(f, n, e)
            if r:
                ctx.ok('dereference', f, n, r)
                continue
            key = T.acc.key(f, e)
            k = (f.file, n['l'], key)
            if k not in seen:
                seen.add(k)
                s = strip(e)
                ctx.bad('dereference', f, n, '%s can be null' % (s.get('n') or s.get('q', '?').split('::')[-1]),
                        'neither its origin nor the branches on every path to this place exclude null')
    ctx.need('dereference', 600)
    ctx.cov['assumptions_used'] = used
    ctx.cov['dereferences_not_looked_at_in_unused_aac_parser'] = skipped
