"""Every integer division and remainder (built-in operators and the integer operators of CppUtilities::TimeSpan) in the library:
the divisor is a non-zero constant or proved to be non-zero by must-hold facts of the dominating branches, a constant local, the
arguments of all call sites (parameters) or all returns (calls)."""
from truthy import Truthy
from backup import strip

EXPLAIN = __doc__
ASSUME = ['the size of a file whose container header could be parsed is not zero (BasicFileInfo::size() in functions which are only reachable '
          'from the writers)', 'the "Segment" elements written to a Matroska file are not empty (SegmentData::totalDataSize)']


def run(ctx):
    p, sh = ctx.p, ctx.sh
    T = Truthy(sh)
    makers = sh.reach([f.id for f in p.fns.values() if f.q.endswith('::internalMakeFile')] + [f.id for f in p.q('MediaFileInfo::makeMp3File', False)])
    parsers = sh.reach([f.id for f in p.fns.values() if f.q.endswith(('::internalParseHeader', '::internalParseTags', '::internalParseTracks', '::internalParseChapters', '::internalParseAttachments'))])
    used = {}

    def assumed(fn, n):
        if n['k'] == 'MCall' and n.get('q') == 'TagParser::BasicFileInfo::size' and fn.id in makers and (fn.id not in parsers or fn.q.endswith('::internalMakeFile')):
            used['file size'] = used.get('file size', 0) + 1
            return 'size of a file which has been parsed'
        if n['k'] == 'Member' and n['q'].endswith('SegmentData::totalDataSize'):
            used['segment size'] = used.get('segment size', 0) + 1
            return 'size of a written "Segment" element'
        if n['k'] == 'Var' and fn.q == 'TagParser::Mp4Container::internalMakeFile':
            # number of all chunks; dividing by it happens in a loop which ends when no chunk has been copied (checked every 10th chunk)
            if any(x['k'] == 'CAssign' and x['op'] == '+=' and strip(x['c'][0]).get('v') == n['v'] and strip(x['c'][1]).get('q') == 'TagParser::Mp4Track::chunkCount'
                   for x in fn.nodes()):
                used['chunks'] = used.get('chunks', 0) + 1
                return 'number of chunks while copying chunks'
        return None

    T.assumed.append(assumed)
    seen = set()
    for f in p.repo_fns():
        for n in f.nodes():
            if n['k'] in ('Bin', 'CAssign') and n['op'] in ('/', '%', '/=', '%='):
                t = f.ty(n) if n['k'] == 'Bin' else f.T[n['ct']] if 'ct' in n else f.ty(n)
                if t.get('k') not in ('int', 'enum', 'bool'):
                    continue
            elif n['k'] == 'OCall' and n['op'] in ('/', '%', '/=', '%=') and n.get('q', '').startswith('CppUtilities::TimeSpan::'):
                if f.ty(n['c'][1]).get('k') not in ('int', 'enum', 'bool') or n['op'] in ('%', '%='):
                    if f.ty(n['c'][1]).get('k') not in ('int', 'enum', 'bool') and n['op'][0] == '/':
                        continue
            else:
                continue
            d = n['c'][1]
            if d.get('cv'):
                ctx.ok('constant', f, n, 'divisor %s' % d['cv'])
                continue
            k = (f.file, n['l'], T.acc.key(f, d))
            r = T.prove(f, n, d)
            if r:
                ctx.ok('divisor', f, n, r)
            elif k not in seen:
                seen.add(k)
                ctx.bad('divisor', f, n, 'divisor %s can be zero' % (T.acc.key(f, d) or strip(d).get('q', strip(d)['k'])), 'no branch on the way here excludes zero')
    ctx.need('constant', 15)
    ctx.need('divisor', 8)
    ctx.cov['assumptions_used'] = used
