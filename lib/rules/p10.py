"""Typestate of the file being rewritten (in place / moved to the backup path / restored), tracked from the filesystem
calls through all functions and all exceptional edges: no writer may be left by an exception while the original is moved
away, and no writer may return normally after the original has been restored (a failure would be reported as success)."""
from backup import BackupState, INIT

EXPLAIN = __doc__
ASSUME = ['a path is identified by the variables it is derived from', 'error codes of filesystem calls tell whether the call succeeded']


def writers(ctx):
    p = ctx.p
    im = p.q('AbstractContainer::internalMakeFile')[0]
    w = [p.fns[o] for o in sorted(p.all_overriders(im.id)) if o in p.fns]
    return w + p.q('MediaFileInfo::makeMp3File')


def run(ctx):
    B = BackupState(ctx.sh)
    ws = [f for f in writers(ctx) + ctx.p.q('MediaFileInfo::applyChanges') if f.id in B.rel]
    for f in ws:
        ex, xx = B.run(f.id, INIT)
        moved = any(s.s in ('M', 'R') for s in ex) or any(s.s in ('M', 'R', 'F') for _, s in xx)
        if not moved:
            ctx.lost('%s does not move the original file' % f.q)
        e2, x2, par, cfg = B.explore(f, INIT)
        bad = False
        for what, sel in (('while the original file is moved away', lambda s: s.s == 'M'),
                          ('with the outcome of moving the file untested', lambda s: s.s != 'M' and s.pend and s.pend[0] in ('rename', 'copy'))):
            hits = sorted(((t, k) for (t, s), k in x2.items() if sel(s)), key=str)
            if hits:
                bad = True
                ctx.bad('restore', f, None, 'may be left by an exception ' + what, '%s; the original path is left without (complete) file' % ', '.join(sorted({t for t, _ in hits})),
                        ['%s:%s' % (f.rel, l) for l in B.path(cfg, par, hits[0][1])[-14:]])
        for s, key in e2.items():
            if s.s in ('R', 'F'):
                bad = True
                ctx.bad('report', f, None, 'may return normally after the original file has been restored', 'the failure is not reported to the caller',
                        ['%s:%s' % (f.rel, l) for l in B.path(cfg, par, key)[-14:]])
        if not bad:
            ctx.ok('restore', f, None, 'no exceptional exit leaves the original moved away (%d exceptional exit states)' % len(x2))
            ctx.ok('report', f, None, 'no normal exit after a restoration')
    # the functions restoring the file either succeed or fail with an exception
    p = ctx.p
    for f in p.q('BackupHelper::restoreOriginalFileFromBackupFile'):
        o, b = (frozenset(['v%d' % x['id']]) for x in f.params[:2])
        st = INIT._replace(s='M', o=o, b=b)
        e2, x2, par, cfg = B.explore(f, st)
        bad = [s for s in e2 if s.s != 'R' or s.pend]
        if not e2:
            ctx.lost('restoring the file never succeeds')
        for s in bad:
            ctx.bad('restored', f, None, 'may return normally without the original file having been restored', '',
                    ['%s:%s' % (f.rel, l) for l in B.path(cfg, par, e2[s])[-14:]])
        if not bad:
            ctx.ok('restored', f, None, 'normal return implies the backup was moved/copied back')
    for name in ('BackupHelper::handleFailureAfterFileModifiedCanonical', 'BackupHelper::handleFailureAfterFileModified'):
        for f in p.q(name):
            ctx.check(not ctx.sh.cfgs.returns(f.id), 'rethrow', f, None, 'never returns normally', 'the failure would be reported as success')
    ctx.need('restore', 5)
    ctx.need('restored', 1)
    ctx.need('rethrow', 2)
    ctx.cov['product_states'] = B.visits
    ctx.cov['filesystem_calls'] = ['%s %s' % (f.where(n), n['q']) for f, n in B.ops.values()]
