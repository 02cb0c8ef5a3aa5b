"""Effect analysis over the resolved call graph (virtual calls reach all overriders, lambdas count as called where created): no function
reachable from a parse method writes to a stream other than a string stream, opens a file in a truncating, appending or write-only mode
or calls a modifying filesystem function."""
from mfi import ENTRY
from backup import strip

EXPLAIN = __doc__


def root(n):
    n = strip(n)
    while n is not None and n['k'] in ('Un', 'OCall') and n.get('op') in ('*', '&', '<<', '->'):
        n = strip(n['c'][0])
    return n


def only_string(ctx, E, f, n, reach, seen):
    """the stream expression designates string streams only"""
    if E.sl.of(f, n, ()) == 'S':
        return True
    r = root(n)
    if r is None or r['k'] != 'Var':
        return False
    idx = [i for i, p in enumerate(f.params) if p.get('id') == r['v']]
    if not idx or f.id in seen:
        return bool(idx)
    seen.add(f.id)
    for c in reach:
        g = ctx.p.fns.get(c)
        if g is None:
            continue
        for node, ts in ctx.sh.calls(g):
            if f.id in ts and node['k'] in ('Call', 'MCall', 'Ctor', 'OCall'):
                a = node.get('c', [])
                if node['k'] == 'OCall' and node.get('m'):
                    a = a[1:]
                if idx[0] >= len(a) or not only_string(ctx, E, g, a[idx[0]], reach, seen):
                    return False
            elif f.id in ts:
                return False
    return True


def run(ctx):
    p, sh = ctx.p, ctx.sh
    E = sh.effects
    from streams import is_write
    roots = [f for e in ENTRY for f in p.q('MediaFileInfo::' + e)]
    for cls in ('AbstractContainer', 'AbstractTrack'):
        roots += [f for f in p.fns.values() if f.rec == 'TagParser::' + cls and f.n.startswith('parse')]
    roots += p.q('BasicFileInfo::open') + p.q('BasicFileInfo::reopen')
    reach = sh.reach(roots)
    n = 0
    for fid in sorted(reach):
        f = p.fns.get(fid)
        if f is None or not f.file.startswith(p.repo + '/'):
            continue
        n += 1
        bad = False
        for node, kind in E.prim.get(fid, ()):
            if kind == 'rw':
                ctx.ok('open', f, node, 'not truncating')
                continue
            if kind == 'write' and only_string(ctx, E, f, is_write(node), reach, set()):
                continue
            bad = True
            ctx.bad('effect', f, node, {'write': 'writes to a file stream', 'open': 'opens a file in a modifying mode', 'fs': 'calls ' + node.get('q', '')}[kind],
                    'reachable while parsing', sh.chain(roots, fid))
        if not bad:
            ctx.ok('effect', f)
    ctx.need('effect', 400)
    ctx.need('open', 1)
    ctx.cov['functions_reachable_from_parsers'] = n
    ctx.cov['entry_points'] = len(roots)
