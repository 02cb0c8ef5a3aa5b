"""Interprocedural exception-flow analysis: the set of exception classes which may leave every parse entry point is
computed over all call paths (virtual calls: all overriders; calls through binders: all address-taken functions) and
compared with the documented set."""
from exc import IOS

EXPLAIN = __doc__
LEVEL = 'other'
ASSUME = ['std::bad_alloc/length_error (resource exhaustion) are not modelled',
          'functions outside of the repository throw as listed in lib/exc.py (EXT table); NativeFileStream::close() and read/write on local string streams do not fail']
ENTRY = ('parseContainerFormat', 'parseTracks', 'parseTags', 'parseChapters', 'parseAttachments', 'parseEverything')


def report(ctx, rule, f, types, allowed_txt):
    E = ctx.sh.exc
    if not types:
        ctx.ok(rule, f, None, 'may only be left by ' + allowed_txt)
        return
    for t in sorted(types):
        tr = E.trace(f.id, t, 20)
        ctx.bad(rule, f, None, '%s may leave the function' % t, 'origin: %s' % (tr[-1] if tr else '?'), tr)


def run(ctx):
    p, E = ctx.p, ctx.sh.exc
    n = 0
    for name in ENTRY:
        for f in p.q('MediaFileInfo::' + name):
            report(ctx, 'entry', f, [t for t in E.sum[f.id] if t != IOS], 'std::ios_base::failure')
            n += 1
    # lower layers which are public API as well: additionally Failure and derived classes
    for f in p.repo_fns():
        if f.d.get('acc') == 0 and f.rec and f.rec != 'TagParser::MediaFileInfo' and f.n.startswith(('parse', 'internalParse')) and f.body:
            bad = [t for t in E.sum[f.id] if t != IOS and t != '@current' and not p.isa(t, 'TagParser::Failure')]
            report(ctx, 'layer', f, bad, 'std::ios_base::failure, Failure')
    ctx.need('entry', 6)
    ctx.need('layer', 25)
    ctx.cov['exception_contexts'] = len(E.csum)
    ctx.cov['sites_discharged'] = dict(E.site_filter.count)
    ctx.cov['throw_expressions'] = sum(1 for f in p.repo_fns() for x in f.nodes() if x['k'] == 'Throw')
    ctx.cov['try_blocks'] = sum(1 for f in p.repo_fns() for x in f.nodes() if x['k'] == 'Try')
