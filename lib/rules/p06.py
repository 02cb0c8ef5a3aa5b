"""Lifetimes of storage (flow-sensitive may-analysis per function with summaries of what callees invalidate and return; see life.py). Every use of
a local reference, pointer, iterator or view is an obligation of rule (use): on no path has the storage it refers to been given up before -- the
container it is an element of has grown, been emptied, reassigned or had elements erased (vectors and strings: all iterators and references to
elements, other containers: the erased element), the owning smart pointer has been reset or assigned, the object deleted, or the variable's
scope left; it does not refer to a temporary which is destroyed at the end of the statement. The hidden iterators of range-for loops are used by each turn.
Rule (moved): an object passed to std::move(), or a smart pointer which has been reset or released, is not read before it is assigned again (asking
a smart pointer whether it is set is fine, and so is reading a number from an object of the library, which is copied when moving).
Rule (ret): no function returns a reference, pointer, iterator or view to one of its local variables or temporaries."""
from life import Life, summaries
EXPLAIN = __doc__


def run(ctx):
    p, sh = ctx.p, ctx.sh
    summ, lf = summaries(sh)
    glob = {}
    for l in lf.values():
        glob.update({i: d[0].get('n', '?') for i, d in l.decls.items()})
        glob.update({q['id']: q.get('n', '?') for q in l.fn.params})
    for f in sorted(p.repo_fns(), key=lambda f: f.id):
        l = lf.get(f.id)
        if l is None:
            continue
        names = glob

        def txt(x):
            if isinstance(x, tuple):
                return (names.get(x[0], str(x[0])) + ''.join(x[1:])).replace('this.', '').replace('*.', '->')
            return names.get(x, 'the range' if str(x).startswith('rf') else str(x))

        def rep(kind, n, what, why):
            if kind == 'ok':
                ctx.ok('use', f, n, '%s refers to something alive' % txt(what))
            elif kind == 'rok':
                ctx.ok('ret', f, n, 'what is returned outlives the call')
            elif kind == 'use':
                ctx.bad('use', f, n, '%s is not used after %s' % (txt(what), why[1]), 'invalidated in line %s' % why[0])
            elif kind == 'moved':
                ctx.bad('moved', f, n, '%s is not used after %s' % (txt(what), why[1]), 'in line %s' % why[0])
            elif kind == 'temp':
                ctx.bad('use', f, n, '%s does not refer to a temporary' % txt(what))
            elif kind == 'ret':
                ctx.bad('ret', f, n, 'nothing referring to %s is returned' % txt(what))
        l.run(None, rep)
    ctx.cov['summaries'] = sum(1 for s in summ.values() if s.kills)
    ctx.need('use', 800)
    ctx.need('ret', 100)
