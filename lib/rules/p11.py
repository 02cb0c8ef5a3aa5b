"""Typestate on the filesystem calls (see P10): an overwriting move needs a preceding test that exactly its target path is
unused, removing a file needs its replacement to be known to exist, and the error code of each modifying call is tested before it
is overwritten or the function is left. Destructive filesystem calls are only allowed where they are analysed this way."""
from backup import BackupState, INIT, NULLOP, MOVE, REMOVE, FS
from rules.p10 import writers

EXPLAIN = __doc__
CLIB = {'rename', 'remove', 'unlink', 'truncate', 'ftruncate', 'std::rename', 'std::remove', 'symlink', 'link', 'rmdir', 'mkdir', 'system',
        FS + 'create_hard_link', FS + 'create_symlink', FS + 'create_directory', FS + 'create_directories', FS + 'permissions'}


def run(ctx):
    p, sh = ctx.p, ctx.sh
    B = BackupState(sh)
    exits = []
    roots = [(f, INIT) for f in p.q('BackupHelper::createBackupFile') + p.q('BackupHelper::createBackupFileCanonical') + writers(ctx)]
    for f in p.q('BackupHelper::restoreOriginalFileFromBackupFile'):
        o, b = (frozenset(['v%d' % x['id']]) for x in f.params[:2])
        roots.append((f, INIT._replace(s='M', o=o, b=b)))
    for f, st in roots:
        ex, xx, par, cfg = B.explore(f, st)
        want = 'M' if '::createBackup' in f.q else 'R' if f.q.endswith('::restoreOriginalFileFromBackupFile') else None
        if want:
            left = [(s, key) for s, key in ex.items() if s.s != want and not s.pend]
            for s, key in left[:1]:
                ctx.bad('noticed', f, None, 'may return normally although the file has not been moved', 'the caller relies on the file having been %s' % ('moved to the backup path' if want == 'M' else 'restored'),
                        ['%s:%s' % (f.rel, l) for l in B.path(cfg, par, key)[-14:]])
            if not left:
                ctx.ok('noticed', f, None, 'all normal exits have moved the file')
        for s, key in ex.items():  # leaving by an exception reports a failure
            s = s if not isinstance(s[0], str) or hasattr(s, 'pend') else s[1]
            if s.pend:
                B.issues.setdefault(('error-code', f.id, 0, 'result of %s not tested when leaving the function' % s.pend[0]),
                                    (f, None, 'a failing operation goes unnoticed'))
    seen = {(fid, l) for fid, l, _ in B.ops}
    flagged = set()
    for (rule, fid, l, detail), (f, n, why) in sorted(B.issues.items(), key=str):
        ctx.bad(rule, f, n, detail, why)
        flagged.add((fid, l))
    for f in p.repo_fns():
        for n in f.nodes():
            q = n.get('q', '')
            if n['k'] != 'Call':
                continue
            if q in NULLOP and q != FS + 'canonical':
                if (f.id, n['l']) not in seen:
                    ctx.bad('audited', f, n, '%s() is not reached from the functions creating/restoring backups or writing files' % q, 'files may get lost')
                elif (f.id, n['l']) not in flagged:
                    ctx.ok('error-code', f, n, q[len(FS):])
                    if q in MOVE:
                        ctx.ok('clobber', f, n, q[len(FS):])
                    if q in REMOVE:
                        ctx.ok('remove', f, n, q[len(FS):])
            elif q in CLIB:
                ctx.bad('audited', f, n, 'call of %s()' % q, 'modifies the filesystem outside of the audited functions')
    ctx.need('clobber', 1)
    ctx.need('noticed', 2)
    ctx.need('error-code', 3)
    ctx.cov['product_states'] = B.visits
