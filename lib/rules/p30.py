"""No shared mutable state. Over all functions of the library: (static) no variable with static storage duration -- namespace scope, static member,
function-local -- is modified: not assigned, not incremented, no modifying member function is called on it, no modifiable reference or pointer to it
is formed, passed or returned; (init) the initial value of each function-local static depends neither on parameters, local variables, the object the
function is called on nor on modifiable globals, as it is computed only for the first call; (external) no external function keeping hidden state or
changing the state of the process is called; (abort) the members accessed by requesting and checking for an abort, which may happen in
different threads, are atomic, an abort request is only ever set (no store of anything but the constant true outside constructors)."""
from access import lroot
from facts import nodes, AnalysisBroken

EXPLAIN = __doc__
HIDDEN = {
    'strtok', 'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'localtime', 'gmtime', 'ctime', 'asctime', 'setlocale', 'localeconv', 'tmpnam', 'tempnam', 'mktemp',
    'setenv', 'putenv', 'unsetenv', 'clearenv', 'chdir', 'fchdir', 'umask', 'signal', 'sigaction', 'atexit', 'tzset', 'strerror', 'mblen', 'mbtowc', 'wctomb', 'getpwnam',
    'getpwuid', 'readdir', 'setrlimit', 'exit', 'abort', 'quick_exit', '_exit', 'terminate',
}
HIDDENQ = {'std::locale::global', 'std::ios_base::sync_with_stdio', 'std::set_terminate', 'std::set_new_handler', 'std::filesystem::current_path', 'std::set_unexpected'}
STREAMS = ('std::cout', 'std::cerr', 'std::clog', 'std::cin')


def hidden(q):
    b = q.split('<')[0]
    l = b.split('::')
    return b in HIDDENQ or l[-1] in HIDDEN and (len(l) == 1 or l[0] == 'std' and len(l) == 2)


class Uses:
    """places at which static variables may be modified"""

    def __init__(self, p, mod):
        self.p, self.mod = p, mod

    def static(self, f, n):
        """static variable designated by the lvalue n"""
        while n is not None:
            k = n['k']
            if k == 'Global':
                return n['gid'], n['q']
            if k == 'Var':
                return (n['v'], n['n']) if n.get('static') else None
            if k in ('Cast', 'Paren', 'Index', 'Opaque') or k == 'Member' and not (n.get('arrow') and n.get('c')):
                n = n['c'][0] if n.get('c') else None
            elif k == 'Cond':
                return self.static(f, n['c'][1]) or self.static(f, n['c'][2])
            elif k == 'OCall' and n['op'] in ('[]', '*', '->') and n.get('c'):
                n = n['c'][0]
            elif k == 'MCall' and n.get('obj') is not None and n.get('q', '').split('::')[-1] in ('at', 'front', 'back', 'get', 'value', 'data', 'begin', 'end', 'find'):
                n = n['obj']
            else:
                return None
        return None

    def modifying(self, f):
        """(node, lvalue) written, or to which a modifiable reference/pointer is formed"""
        T = f.T
        for n in f.nodes():
            k = n['k']
            if k in ('Assign', 'CAssign') or k == 'Un' and n['op'] in ('++', '--'):
                yield n, n['c'][0], 'modified'
            elif k == 'Un' and n['op'] == '&' and T[n['t']].get('k') == 'ptr' and not T[n['t']].get('ce') and not T[n['t']]['s'].startswith('const '):
                yield n, n['c'][0], 'modifiable pointer formed'
            elif k == 'OCall':
                if n.get('m') and not n.get('mc') and n.get('c'):
                    yield n, n['c'][0], 'modified'
                for a in self.mod._refargs(n, f):
                    yield n, a, 'passed to be modified'
            elif k == 'MCall':
                if not n.get('mc') and n.get('obj') is not None and not n.get('arrow'):
                    yield n, n['obj'], 'modified'
                for a in self.mod._refargs(n, f):
                    yield n, a, 'passed to be modified'
            elif k in ('Call', 'Ctor'):
                for a in self.mod._refargs(n, f):
                    yield n, a, 'passed to be modified'
            elif k == 'DeclStmt':
                for v in n['decls']:
                    if v and v.get('i') and T[v['t']].get('k') == 'ref' and not T[v['t']].get('ce'):
                        yield n, v['i'], 'modifiable reference formed'
            elif k == 'Return' and n.get('c') and n['c'][0] and f.d.get('rt', -1) >= 0 and T[f.d['rt']].get('k') == 'ref' and not T[f.d['rt']].get('ce'):
                yield n, n['c'][0], 'modifiable reference returned'


def run(ctx):
    p, sh = ctx.p, ctx.sh
    U = Uses(p, sh.mod)
    const, where = set(), {}
    for g in p.globals.values():
        if g['file'].startswith(p.repo + '/'):
            where[g['gid']] = ('%s:%s' % (g['file'][len(p.repo) + 1:], g['l']), g['q'])
            if g.get('const'):
                const.add(g['gid'])
    local = {}
    for f in p.repo_fns():
        for n in f.nodes():
            if n['k'] == 'DeclStmt':
                for v in n['decls']:
                    if v and v.get('static'):
                        local[v['id']] = (f, n, v)
                        where[v['id']] = (f.where(n), f.q + '::' + v['n'])
                        if v.get('const'):
                            const.add(v['id'])
    bad = {}
    nf = 0
    for f in sorted(p.repo_fns(), key=lambda f: f.id):
        nf += 1
        for n, lv, how in U.modifying(f):
            s = U.static(f, lv)
            if s and s[0] not in const and not s[1].startswith(('std::ios_base::', 'std::placeholders')):
                if s[0] in where or s[1] in STREAMS or how == 'modified':
                    bad.setdefault(s[0], []).append((f, n, how, s[1]))
        for n in f.nodes():
            if n['k'] == 'Call' and 'q' in n and hidden(n['q']):
                ctx.bad('external', f, n, 'no external functions with hidden or process-wide state are called', n['q'] + ' called')
    for key, (w, q) in sorted(where.items(), key=lambda kv: str(kv[1])):
        if key not in bad:
            ctx.check(True, 'static', local[key][0] if key in local else None, None, '%s (%s) is not modified' % (q.replace('TagParser::', ''), w))
    for key, l in sorted(bad.items(), key=str):
        for f, n, how, name in l:
            ctx.bad('static', f, n, 'static variable %s is not modified' % name, '%s by %s' % (how, f.q))
    for vid, (f, d, v) in sorted(local.items()):
        i = v.get('i')
        if i is None:
            ctx.ok('init', f, d, v['n'])
            continue
        why = dep(p, f, i, const, set())
        ctx.check(why is None, 'init', f, d, 'initial value of static %s does not depend on the call' % v['n'], why and 'it depends on %s which is only evaluated for the first call' % why)
    # ---- abort flag
    entry = p.q('AbortableProgressFeedback::tryToAbort') + p.q('AbortableProgressFeedback::isAborted')
    rec = p.rec('AbortableProgressFeedback')
    flds = {f['n']: f for f in rec['fields']}
    touched = set()
    for fid in sh.reach(entry):
        f = p.fns.get(fid)
        if f is not None and f.rec == rec['n']:
            for n in f.nodes():
                if n['k'] == 'Member' and n.get('n') in flds:
                    touched.add(n['n'])
    if not touched:
        raise AnalysisBroken('no member used for requesting an abort')
    for m in sorted(touched):
        t = rec['T'][flds[m]['t']]
        ctx.check(t['s'].startswith('std::atomic<') or t['s'] == 'std::atomic_flag', 'abort', entry[0], None, '%s is atomic' % m, 'its type is %s' % t['s'])
    setter = False
    for f in p.repo_fns():
        for n in f.nodes():
            k = n['k']
            tgt = n.get('obj') if k == 'MCall' and not n.get('mc') else n['c'][0] if k in ('Assign', 'CAssign') or k == 'OCall' and n.get('op') in ('=', '|=', '&=', '^=') else None
            while tgt is not None and tgt['k'] == 'Cast' and tgt.get('c'):
                tgt = tgt['c'][0]
            if tgt is None or tgt['k'] != 'Member' or not tgt.get('q', '').startswith(rec['n'] + '::') or tgt['n'] not in touched:
                continue
            a = (n.get('c') or [None])[0] if k == 'MCall' else n['c'][1]
            nm = n.get('q', '').split('::')[-1] if k == 'MCall' else '='
            val = truth(p, f, a)
            ctx.check(nm in ('store', 'exchange', '=', 'test_and_set', 'fetch_or', '|=') and (nm == 'test_and_set' or val == 1), 'abort', f, n, 'an abort request is never taken back', '%s with %s' % (nm, val))
            if f.n == 'tryToAbort' or f.id in sh.reach(p.q('AbortableProgressFeedback::tryToAbort')):
                setter = True
    ctx.check(setter, 'abort', entry[0], None, 'requesting an abort sets the flag', 'no store found')
    ctx.ok('external', None, None, 'calls of external functions in %d functions' % nf)
    ctx.need('static', 80)
    ctx.need('init', 30)
    ctx.need('abort', 3)
    ctx.cov['functions'] = nf


def truth(p, f, a):
    """constant value of the expression"""
    for _ in range(6):
        if a is None:
            return None
        if 'cv' in a:
            return int(bool(a['cv'])) if not isinstance(a['cv'], str) else None
        if a['k'] in ('Cast', 'Paren', 'Ctor') and len(a.get('c', ())) == 1:
            a = a['c'][0]
            continue
        return None
    return None


def dep(p, f, n, const, seen):
    own = {v['id'] for x in nodes(n) if x['k'] == 'DeclStmt' for v in x['decls'] if v}
    for x in nodes(n):
        k = x['k']
        if 'cv' in x or 'cvu' in x:
            continue
        if k == 'This':
            return 'the object the function is called on'
        if k == 'Var' and x['v'] not in own and not x.get('static'):
            return x['n']
        if k == 'Global' and x['gid'] in p.globals and x['gid'] not in const and p.globals[x['gid']]['file'].startswith(p.repo + '/') and 'string_view' not in p.globals[x['gid']]['T'][p.globals[x['gid']]['t']]['s']:
            return x['q']
        if k == 'Lambda':
            for g in x['fns']:
                h = p.fns.get(g)
                if h is not None and g not in seen and h.body:
                    mine = {q['id'] for q in h.params}
                    for y in nodes(h.body):
                        if y['k'] == 'Var' and y.get('cap'):
                            return y['n'] + ' (captured)'
                        if y['k'] == 'This':
                            return 'the object the function is called on'
    return None
