"""The mapping functions of each tag format are evaluated on their syntax trees for every enumerator of KnownField and for every identifier the library
names in the format's list of identifiers (ID3v2: for each version); the resulting relations are compared with each other. The conversion of ID3v2
identifiers between the short and long form is evaluated for every identifier, the raw data type of MP4 fields for every supported field and the
four functions which access ID3v1 fields for every field and member."""
from absint import Interp, Unknown, Thrown, Rec, Ptr, Cell
from facts import AnalysisBroken

EXPLAIN = __doc__
LEVEL = 'proof'
TRUSTED = ['lib/absint.py (string, pair, map lookup semantics)']
ASSUME = ['Matroska: "ACTOR" is by design used for both, performers and actors (KnownField::Performers and KnownField::Actor)']
ALIAS = {('Matroska', 'ACTOR'): {'Performers', 'Actor'}}


def run(ctx):
    p = ctx.p
    kf = p.enum('KnownField')
    fields = {v & 0xffffffff: q.split('::')[-1] for q, v in kf['vals']}
    invalid = next(v for v, n in fields.items() if n == 'Invalid') if 'Invalid' in fields.values() else None
    if invalid is None:
        raise AnalysisBroken('KnownField::Invalid not found')

    def fn(q, n=None):
        l = [f for f in p.q(q) if f.body and (n is None or len(f.params) == n)]
        if not l:
            raise AnalysisBroken(q + ' not found')
        return l[0]

    def ev(f, args, this=None):
        try:
            return Interp(p).call(f, args, this)
        except Thrown as e:
            return ('thrown', e.t)
        except Unknown as e:
            ctx.lost('%s can not be evaluated: %s' % (f.q, e))

    def kid(v):
        return v & 0xffffffff if isinstance(v, int) else v

    def named(prefix):
        """identifiers named by the library: values of functions returning strings in a namespace"""
        out = {}
        for f in p.repo_fns():
            if f.q.startswith('TagParser::' + prefix + '::') and not f.params and f.body and f.d.get('rec') is None:
                v = ev(f, [])
                if isinstance(v, str):
                    out.setdefault(v, f.n)
        return out

    def enumids(q):
        e = p.enum(q)
        return {v: n.split('::')[-1] for n, v in e['vals']}

    def name(v, ids):
        return '"%s"' % v if isinstance(v, str) else ids.get(v, hex(v))

    formats = [
        ('ID3v2.2', 'Id3v2Tag', Rec(m_majorVersion=2), enumids('Id3v2FrameIds::KnownValue')),
        ('ID3v2.3', 'Id3v2Tag', Rec(m_majorVersion=3), enumids('Id3v2FrameIds::KnownValue')),
        ('ID3v2.4', 'Id3v2Tag', Rec(m_majorVersion=4), enumids('Id3v2FrameIds::KnownValue')),
        ('MP4', 'Mp4Tag', Rec(), enumids('Mp4TagAtomIds::KnownValue')),
        ('Vorbis', 'VorbisComment', Rec(), named('VorbisCommentIds')),
        ('Matroska', 'MatroskaTag', Rec(), named('MatroskaTagIds')),
    ]
    fwd, rev = {}, {}
    for fmt, cls, this, ids in formats:
        f, r = fn(cls + '::internallyGetFieldId', 1), fn(cls + '::internallyGetKnownField', 1)
        if len(ids) < 20:
            raise AnalysisBroken('identifiers of %s not found' % fmt)
        fwd[fmt] = {v: ev(f, [v], this) for v in sorted(fields) if v != invalid}
        allids = set(ids) | {i for i in fwd[fmt].values() if i}
        rev[fmt] = {i: kid(ev(r, [i], this)) for i in sorted(allids, key=str)}
        for v, i in fwd[fmt].items():
            if not i:
                continue
            back = fields.get(rev[fmt][i], rev[fmt][i])
            al = ALIAS.get((fmt, i), ())
            ctx.check(back == fields[v] or fields[v] in al and back in al, 'field -> identifier -> field', f, None, '%s: %s' % (fmt, fields[v]),
                      'is stored as %s which is read back as %s' % (name(i, ids), back))
        used = {}
        for v, i in fwd[fmt].items():
            if i:
                used.setdefault(i, []).append(fields[v])
        for i, l in used.items():
            ctx.check(len(l) == 1 or set(l) <= set(ALIAS.get((fmt, i), ())), 'identifier used once', f, None, '%s: %s' % (fmt, name(i, ids)), 'used for ' + ', '.join(l))
    for fmt, cls, this, ids in formats:
        r = fn(cls + '::internallyGetKnownField', 1)
        peers = [x[0] for x in formats if x[1] == cls]
        for i, v in rev[fmt].items():
            if v == invalid:
                continue
            if v not in fields:
                ctx.bad('identifier -> field -> identifier', r, None, '%s: %s' % (fmt, name(i, ids)), 'yields %r which is no field' % (v,))
                continue
            ctx.check(any(fwd[x].get(v) for x in peers), 'identifier -> field -> identifier', r, None, '%s: %s' % (fmt, name(i, ids)),
                      'is read as %s but there is no identifier to store %s' % (fields[v], fields[v]))

    # ID3v2: short and long identifiers
    ids = formats[0][3]
    sh, lo = fn('Id3v2FrameIds::convertToShortId', 1), fn('Id3v2FrameIds::convertToLongId', 1)
    short = {i for i in ids if i < 1 << 24}
    to_long = {i: ev(lo, [i]) for i in sorted(short)}
    to_short = {i: ev(sh, [i]) for i in sorted(set(ids) - short)}
    for i, l in to_long.items():
        ctx.check(l and to_short.get(l) == i, 'short <-> long identifier', lo, None, ids[i], 'is converted to %s which is converted back to %s' % (name(l, ids) if l else 'nothing', name(to_short.get(l) or 0, ids)))
    for l, i in to_short.items():
        if i:
            ctx.check(to_long.get(i) == l, 'short <-> long identifier', sh, None, ids[l], 'is converted to %s which is converted back to %s' % (name(i, ids), name(to_long.get(i) or 0, ids)))
    r = fn('Id3v2Tag::internallyGetKnownField', 1)
    for i, l in to_long.items():
        if not l:
            continue
        a, b = rev['ID3v2.2'].get(i), rev['ID3v2.4'].get(l)
        ctx.check(a == b, 'same field for short and long identifier', r, None, '%s and %s' % (ids[i], name(l, ids)), '%s and %s' % (fields.get(a), fields.get(b)))
    f = fn('Id3v2Tag::internallyGetFieldId', 1)
    for v, i in fwd['ID3v2.2'].items():
        l = fwd['ID3v2.4'].get(v)
        if i and l and i != l:
            ctx.check(to_long.get(i) == l and to_short.get(l) == i, 'field keeps its identifier when converting', f, None, fields[v], '%s is not converted to %s and back' % (name(i, ids), name(l, ids)))
    for v, l in fwd['ID3v2.4'].items():
        ctx.check(fwd['ID3v2.3'].get(v) == l, 'field keeps its identifier when converting', f, None, fields[v] + ' (2.3/2.4)')

    # names and levels
    for there, back, en in (('mp4TagMediaTypeName', 'mp4TagMediaTypeId', 'Mp4TagMediaType'), ('mp4TagContentRatingName', 'mp4TagContentRatingId', 'Mp4TagContentRating'),
                            ('mp4TagAccountTypeName', 'mp4TagAccountTypeId', 'AccountType'), ('matroskaTagTargetLevelValue', 'matroskaTagTargetLevel', 'TagTargetLevel')):
        a, b = fn(there, 1), fn(back, 1)
        for q, v in p.enum(en)['vals']:
            x = ev(a, [v])
            y = ev(b, [x]) if x is not None else None
            ctx.check(y == v, 'name or level', a, None, q.split('TagParser::')[-1], 'is converted to %r which is converted back to %r' % (x, y))

    # ID3v1: a member for each field
    rec = p.rec('Id3v1Tag')
    members = [x['n'] for x in rec['fields'] if rec['T'][x['t']].get('s') == 'TagParser::TagValue']
    if len(members) < 5:
        raise AnalysisBroken('members of Id3v1Tag not found')
    nat = {'TagParser::TagValue::isEmpty': lambda s, f, n, e, th: s.val(s.ev(f, n['obj'], e, th)) == 'empty',
           'TagParser::TagValue::empty': lambda s, f, n, e, th: 'none'}

    def v1(f, args, this):
        try:
            return Interp(p, natives=nat).call(f, args, this)
        except Thrown as e:
            return ('thrown', e.t)
        except Unknown as e:
            ctx.lost('%s can not be evaluated: %s' % (f.q, e))

    get, has, sup = fn('Id3v1Tag::value', 1), fn('Id3v1Tag::hasField', 1), fn('Id3v1Tag::supportsField', 1)
    put = fn('Id3v1Tag::setValue', 2)
    for v in sorted(fields):
        if v == invalid:
            continue
        m = v1(get, [v], Rec((x, x) for x in members))
        m = m if m in members else None
        this = Rec((x, 'old') for x in members)
        r = v1(put, [v, 'new'], this)
        changed = [x for x in members if this[x] != 'old']
        present = [x for x in members if v1(has, [v], Rec((y, 'set' if x == y else 'empty') for y in members))]
        want = [m] if m else []
        ctx.check(changed == want and bool(r) == bool(m), 'ID3v1 field', put, None, fields[v] + ' is set', 'setting it changes %s but getting it returns %s' % (changed, m))
        ctx.check(present == want, 'ID3v1 field', has, None, fields[v] + ' is present', 'presence depends on %s but getting it returns %s' % (present, m))
        ctx.check(bool(v1(sup, [v], Rec())) == bool(m), 'ID3v1 field', sup, None, fields[v] + ' is supported', 'getting it returns %s' % m)

    # MP4: raw data types
    ids = formats[3][3]
    raw = fn('Mp4TagField::appropriateRawDataTypeForValue', 1)
    utf8 = dict((q.split('::')[-1], v) for q, v in p.enum('TagTextEncoding')['vals'])['Utf8']
    for v, i in fwd['MP4'].items():
        if i:
            val = Rec(m_encoding=utf8, m_mimeType='image/jpeg', m_flags=0)
            x = ev(raw, [val], Rec(m_id=i, m_mean='', m_name=''))
            ctx.check(isinstance(x, int), 'MP4 raw data type', raw, None, fields[v], 'there is no raw data type for %s' % name(i, ids))

    ctx.need('field -> identifier -> field', 180)
    ctx.need('identifier -> field -> identifier', 180)
    ctx.need('identifier used once', 180)
    ctx.need('short <-> long identifier', 60)
    ctx.need('name or level', 15)
    ctx.need('ID3v1 field', 100)
    ctx.need('MP4 raw data type', 20)
    ctx.cov['fields'] = len(fields)
    ctx.cov['mapped_fields_per_format'] = {k: sum(1 for i in m.values() if i) for k, m in fwd.items()}
