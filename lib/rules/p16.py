"""Path-sensitive interprocedural exploration of all writers under the assumption that a path to save to is set (conditions depending on
it are decided accordingly, through local variables and helper functions): as long as the path to save to has not become the current path,
every file opened for writing, resized, moved or removed is designated by a path derived from the path to save to, and nothing is written
to the stream while it still refers to the original file."""
from vals import ValState, V, getd, setd
from facts import nodes
from backup import NULLOP, FS, strip
from effects import openmode, OUT, APP, TRUNC, CLIB
from streams import is_write
from rules.p10 import writers

EXPLAIN = __doc__
SAVE = 'm_saveFilePath'


class SaveAs(ValState):
    def __init__(self, sh):
        super().__init__(sh)
        self.E = sh.effects
        prim = set(self.E.prim) | {f.id for n in ('BasicFileInfo::reportPathChanged', 'MediaFileInfo::setSaveFilePath') for f in self.p.q(n)}
        opens = {f.id for f in self.p.repo_fns() if any(openmode(f, n) for n in f.nodes())}
        self.rel = sh.may_reach(lambda i, q: i in prim or i in opens)
        self.report = {f.id for f in self.p.q('BasicFileInfo::reportPathChanged')}
        self.issues = {}
        self.seen = set()
        self.flows = {}
        self.dep = self.dependent()

    def dependent(self):
        """local variables whose value depends on whether a path to save to is set"""
        dep = set()
        while True:
            n0 = len(dep)
            for fid in self.rel:
                f = self.p.fns[fid]
                for n in f.nodes():
                    if n['k'] == 'DeclStmt':
                        for d in n['decls']:
                            if d.get('i') and 'id' in d and d['id'] not in dep and self.mentions(f, d['i'], dep):
                                dep.add(d['id'])
                    elif n['k'] in ('Assign', 'CAssign') and n['c'][0]['k'] == 'Var' and n['c'][0]['v'] not in dep and self.mentions(f, n['c'][1], dep):
                        dep.add(n['c'][0]['v'])
                    elif n['k'] in ('Call', 'MCall', 'OCall') and 'fn' in n:
                        for t in self.p.targets(n):
                            if t in self.p.fns and t in self.rel:
                                args = n['c'][1:] if n['k'] == 'OCall' and n.get('m') else n['c']
                                for pr, x in zip(self.p.fns[t].params, args):
                                    if x is not None and 'id' in pr and pr['id'] not in dep and self.mentions(f, x, dep):
                                        dep.add(pr['id'])
            if len(dep) == n0:
                return dep

    @staticmethod
    def mentions(f, e, dep):
        return f.ty(e).get('k') == 'bool' and any(x['k'] == 'Member' and x['n'] == SAVE or x['k'] == 'Var' and x['v'] in dep or x['k'] == 'MCall'
                                                  and x.get('q', '').endswith('::saveFilePath') for x in nodes(e))

    def slim(self, env):
        return frozenset((k, v) for k, v in env if not k.startswith(('v', 'this.', '#', 'g:')) or k.endswith('.empty()') or k[1:].isdigit() and int(k[1:]) in self.dep)

    def event(self, fn, n, st):
        r = super().event(fn, n, st)
        return None if r is None else tuple({s._replace(env=self.slim(s.env)) for s in r})

    def descend(self, fid):
        return fid in self.rel and fid not in self.report and self.p.fns[fid].file.startswith(self.p.repo + '/')

    # which variables may influence decisions about files
    def keyok(self, key):
        return key.startswith('v') and (key[1:].isdigit() and int(key[1:]) in self.dep or key.endswith('.empty()'))

    def ev(self, fn, n, env, depth=0):
        if n is not None and n['k'] == 'MCall' and n.get('q', '').split('::')[-1] == 'empty' and 'cv' not in n and not getd(env, 'saved'):
            k = self.acc.key(fn, n['obj'])
            if k and (k.endswith('.' + SAVE) or getd(env, 'L:' + k) and self.issave(getd(env, 'L:' + k))):
                return 0
        return super().ev(fn, n, env, depth)

    @staticmethod
    def issave(l):
        return bool(l) and all(x.endswith('.' + SAVE) for x in l)

    def pairs(self, env, pre):
        return [(int(k[len(pre) + 1:]), v) for k, v in env if k.startswith(pre + 'v')]

    def labels(self, fn, n, st):
        return self.E.lab.of(fn, n, self.pairs(st.env, 'L:'))

    def stream(self, fn, n, st):
        m = strip(n)
        if m is not None and m['k'] == 'Member' and 'BinaryWriter' in fn.ty(m).get('s', ''):
            b = getd(st.env, 'B:' + m['q'])
            if b is not None:
                return b
        return self.E.sl.of(fn, n, self.pairs(st.env, 'W:'))

    def enter(self, fn, node, target, st):
        s = super().enter(fn, node, target, st)
        f = self.p.fns[target]
        a = node.a
        args = a.get('c', [])
        if a['k'] == 'OCall' and a.get('m'):
            args = args[1:]
        env = {(k, v) for k, v in s.env if k.startswith(('v', 'this.'))}
        env |= {(k, v) for k, v in st.env if k.startswith(('on:', 'B:')) or k == 'saved'}
        if 'lambda' in f.d:
            env |= {(k, v) for k, v in st.env if k.startswith(('L:', 'W:'))}
        for p, x in zip(f.params, args):
            if x is None or 'id' not in p:
                continue
            ts = f.T[p['t']].get('s', '')
            if 'stream' in ts or 'BinaryWriter' in ts:
                env.add(('W:v%d' % p['id'], self.stream(fn, x, st)))
            elif 'char' in ts or 'path' in ts:
                l = self.labels(fn, x, st)
                if l:
                    env.add(('L:v%d' % p['id'], l))
        return s._replace(env=frozenset(env))

    def leave(self, fn, node, target, before, st, exc=None):
        s = super().leave(fn, node, target, before, st, exc)
        env = {(k, v) for k, v in s.env if not k.startswith(('on:', 'B:')) and k != 'saved'} | {(k, v) for k, v in st.env if k.startswith(('on:', 'B:')) or k == 'saved'}
        return s._replace(env=frozenset(env))

    def allowed(self, st, l):
        for x in l:
            if x.endswith('.' + SAVE) or getd(st.env, 'saved') and x.endswith('.m_path'):
                continue
            return False
        return True

    def effect(self, fn, n, st):
        if n.k == 'd' and n.a.get('i') is None or n.k == 'd' and self.emptystr(n.a['i']):
            st2 = super().effect(fn, n, st)
            if 'id' in n.a and 'basic_string' in fn.T[n.a['t']].get('s', '') if 't' in n.a else False:
                return st2._replace(env=setd(st2.env, 'v%d.empty()' % n.a['id'], 1))
            return st2
        s = super().effect(fn, n, st)
        if n.k == 'e':
            drop = {'L:v%d' % v for v in self.E.lab.modified(fn, n.a)}
            if drop:
                s = s._replace(env=frozenset(kv for kv in s.env if kv[0] not in drop))
        return s

    @staticmethod
    def emptystr(i):
        while i is not None and i['k'] in ('Cast', 'Ctor') and len([c for c in i.get('c', []) if c and c['k'] != 'DefArg']) == 1:
            i = [c for c in i['c'] if c and c['k'] != 'DefArg'][0]
        return i is None or i['k'] == 'Ctor' and not [c for c in i.get('c', []) if c and c['k'] != 'DefArg'] or i['k'] == 'ZeroInit'

    def step(self, fn, n, st):
        if n.k != 'e' or n.a['k'] not in ('Call', 'MCall', 'OCall', 'Ctor'):
            return None
        a = n.a
        q = a.get('q', '')
        if q == 'CppUtilities::BinaryWriter::setStream' and a['obj']['k'] == 'Member':
            return (st._replace(env=setd(st.env, 'B:' + a['obj']['q'], self.stream(fn, a['c'][0], st))),)
        if a.get('fn') in self.report:
            l = self.labels(fn, a['c'][0], st)
            self.flows[(fn.id, a['l'])] = (fn, a, l)
            if self.issave(l):
                s = self.effect(fn, n, st)
                return (s._replace(env=setd(s.env, 'saved', 1)),)
            return (self.effect(fn, n, st),)
        o = openmode(fn, a)
        if o:
            l = self.labels(fn, o[0], st)
            out = o[1] is None or any(m & (OUT | APP | TRUNC) for m in o[1])
            ok = self.allowed(st, l)
            self.seen.add((fn.id, a['l'], ok, out))
            if out and not ok:
                self.issues.setdefault((fn.id, a['l']), (fn, a, 'original file is opened for writing although a path to save to is set'))
            s = self.effect(fn, n, st)
            if a['k'] == 'MCall':
                w = self.stream(fn, a['obj'], st)
                if w != 'S':
                    s = s._replace(env=setd(s.env, 'on:' + w, 'save' if ok else 'orig' if out else 'ro'))
            return (s,)
        if a['k'] == 'Call' and (q in NULLOP and q != FS + 'canonical' or q in CLIB):
            self.issues.setdefault((fn.id, a['l']), (fn, a, '%s() is called although a path to save to is set' % q.split('::')[-1])) \
                if not all(self.allowed(st, self.labels(fn, x, st)) for x in a['c'][:2] if x and 'path' in fn.ty(x).get('s', '')) else None
            return (self.effect(fn, n, st),)
        w = is_write(a)
        if w is not None:
            l = self.stream(fn, w, st)
            if l != 'S':
                self.seen.add((fn.id, a['l'], 'w', True))
                if getd(st.env, 'on:' + l) == 'orig':
                    self.issues.setdefault((fn.id, a['l']), (fn, a, 'written to while the stream may still refer to the original file although a path to save to is set'))
            return (self.effect(fn, n, st),)
        return None


def run(ctx):
    p, sh = ctx.p, ctx.sh
    vis = 0
    for f in writers(ctx):
        T = SaveAs(sh)
        ex, xx, par, cfg = T.explore(f, V(frozenset([('on:F', 'orig')]), None, None))
        vis += T.visits
        if not ex:
            ctx.lost('%s does not return normally with a path to save to' % f.q)
        for (fid, l), (fn, a, what) in sorted(T.issues.items(), key=str):
            ctx.bad('save-as', fn, a, what, 'the original file may be modified', sh.chain([f], fid))
        for fid, l, ok, out in sorted(T.seen, key=str):
            if (fid, l) not in T.issues:
                ctx.ok('write' if ok == 'w' else 'open-save' if out else 'open-original', p.fns[fid], {'l': l})
        for (fid, l), (fn, a, lab) in T.flows.items():
            ctx.check(T.issave(lab), 'report', fn, a, 'path to save to becomes the current path')
    ctx.need('open-save', 1)
    ctx.need('open-original', 1)
    ctx.need('report', 1)
    ctx.cov['product_states'] = vis
