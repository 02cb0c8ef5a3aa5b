"""Interprocedural typestate of the output streams (clean / unflushed / data lost, error reporting on/off) over normal and
exceptional control flow: no function applying changes returns normally with unflushed data, after closing or reopening a
stream with unflushed data, or after swallowing a failed write operation."""
from streams import FlushState, OINIT
from backup import Labels
from rules.p10 import writers

EXPLAIN = __doc__
ASSUME = ['std::ostream::flush() reports write errors unless exceptions are disabled for the stream; close() of file streams does not']


def run(ctx):
    p, sh = ctx.p, ctx.sh
    T = FlushState(sh, Labels(p, sh.acc, sh.mod))
    roots = writers(ctx) + p.q('MediaFileInfo::applyChanges')
    nw = 0
    for f in roots:
        T.writes.clear(), T.flushes.clear(), T.memo.clear()
        ex, xx, par, cfg = T.explore(f, OINIT)
        if not T.writes:
            ctx.lost('%s does not write' % f.q)
        nw = max(nw, len(T.writes))
        if not ex:
            ctx.lost('%s never returns normally' % f.q)
        bad = {}
        for s, key in ex.items():
            if s.lost:
                bad.setdefault('may report success after %s' % s.lost.split(': ', 1)[1], (s, key))
            elif s.dirty:
                bad.setdefault('may report success with unflushed data', (s, key))
        for what, (s, key) in sorted(bad.items()):
            ctx.bad('flush', f, None, what, '%s; a write error (e.g. disk full) is not noticed' % (s.lost or 'streams %s' % ','.join(s.dirty)),
                    ['%s:%s' % (f.rel, l) for l in T.path(cfg, par, key)[-14:]])
        if not bad:
            ctx.ok('flush', f, None, '%d write operations, %d flush operations reached; all %d normal exit states are clean' % (len(T.writes), len(T.flushes), len(ex)))
    ctx.need('flush', 5)
    ctx.cov['write_operations'] = nw
    ctx.cov['product_states'] = T.visits
    if nw < 100:
        ctx.lost('only %d write operations found' % nw)
