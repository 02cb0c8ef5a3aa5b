"""Interprocedural exception-flow analysis (see P01) for the functions applying changes; additionally functions which
must not throw (noexcept, destructors) have an empty exception set."""
from exc import IOS
from rules.p01 import report, ASSUME

EXPLAIN = __doc__


def run(ctx):
    p, E = ctx.p, ctx.sh.exc

    def bad(f):
        return [t for t in E.sum[f.id] if t != IOS and not p.isa(t, 'TagParser::Failure')]
    for f in p.q('MediaFileInfo::applyChanges'):
        report(ctx, 'apply', f, bad(f), 'std::ios_base::failure, Failure')
    base = p.q('AbstractContainer::makeFile')[0]
    for f in p.q('AbstractContainer::makeFile') + p.q('MediaFileInfo::makeMp3File'):
        report(ctx, 'apply', f, bad(f), 'std::ios_base::failure, Failure')
    im = p.q('AbstractContainer::internalMakeFile')[0]
    for o in p.all_overriders(im.id):
        if o in p.fns:
            report(ctx, 'maker', p.fns[o], bad(p.fns[o]), 'std::ios_base::failure, Failure')
    for f in p.repo_fns():
        if f.d.get('nx') or f.d.get('role') == 'dtor':
            ts = set(E.sum[f.id])
            report(ctx, 'nothrow', f, ts, 'no exception')
    ctx.need('apply', 3)
    ctx.need('maker', 3)
    ctx.need('nothrow', 20)
    ctx.cov['exception_contexts'] = len(E.csum)
