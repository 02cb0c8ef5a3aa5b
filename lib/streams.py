"""Which stream an expression designates, and typestates of output streams."""
from collections import namedtuple
from ts import Typestate
from backup import strip

BUF = ('std::basic_stringstream<', 'std::basic_ostringstream<', 'std::basic_istringstream<')
WRITEM = ('write', 'put', 'operator<<')
IOS = 'std::ios_base::failure'
BADBIT = 1


def is_write(n):
    """expression of the stream written to by a primitive write operation, or None"""
    q = n.get('q', '')
    k = n['k']
    if k == 'MCall':
        if q.startswith('CppUtilities::BinaryWriter::write') or q == 'CppUtilities::BinaryWriter::flush':
            return n['obj']
        if q.startswith('std::basic_ostream<') and q.split('::')[-1] in WRITEM:
            return n['obj']
        if q.startswith('CppUtilities::CopyHelper<') and q.split('::')[-1] in ('copy', 'callbackCopy'):
            return n['c'][1]
        if q.startswith('std::basic_streambuf<') and q.split('::')[-1] in ('sputn', 'sputc'):
            return n['obj']
    elif k == 'OCall' and n['op'] == '<<' and len(n['c']) == 2:
        if q.startswith('std::') or q.startswith('CppUtilities::'):
            return n['c'][0]
    return None


class StreamLabels:
    """labels: 'F' the file of the media file info (and everything unknown), 'S' string stream, 'v<id>' local file stream"""

    def __init__(self, prog, lab):
        self.p, self.lab = prog, lab

    def of(self, fn, n, env, depth=0):
        n = strip(n)
        if n is None or depth > 12:
            return 'F'
        k = n['k']
        if k == 'Un' and n['op'] in ('*', '&'):
            return self.of(fn, n['c'][0], env, depth + 1)
        if k == 'OCall' and n['op'] in ('<<', '->', '*'):
            return self.of(fn, n['c'][0], env, depth + 1)
        if k == 'MCall' and n.get('q', '').split('::')[-1] in ('rdbuf', 'stream') and n.get('q', '').startswith(('std::', 'CppUtilities::')):
            return self.of(fn, n['obj'], env, depth + 1)
        if k == 'MCall' and n.get('q', '').startswith('std::basic_ostream<'):
            return self.of(fn, n['obj'], env, depth + 1)
        if k == 'Var':
            for v, l in env:
                if v == n['v']:
                    return l
            decl, _ = self.lab.info(fn)
            ts = fn.ty(n).get('s', '')
            if n['v'] in decl:
                dt = self.dtype(fn, n['v'])
                i = decl[n['v']]
                if dt.startswith(BUF):
                    return 'S'
                if 'BinaryWriter' in dt and i is not None:
                    j = strip(i)
                    if j['k'] == 'Ctor' and j.get('c') and j['c'][0]:
                        return self.of(fn, j['c'][0], env, depth + 1)
                    return self.of(fn, j, env, depth + 1) if j['k'] != 'Ctor' else 'F'
                if self.isref(fn, n['v']) and i is not None:
                    return self.of(fn, i, env, depth + 1)
                if 'NativeFileStream' in dt or 'fstream' in dt:
                    return 'v%d' % n['v']
            elif ts.startswith(BUF):
                return 'S'
            return 'F'
        ts = fn.ty(n).get('s', '')
        if ts.startswith(BUF):
            return 'S'
        return 'F'

    def dtypes(self, fn):
        r = fn.extra.get('dtypes')
        if r is None:
            r = {}
            for x in fn.nodes():
                if x['k'] == 'DeclStmt':
                    for d in x['decls']:
                        if 'id' in d and 't' in d:
                            r[d['id']] = fn.T[d['t']]
            fn.extra['dtypes'] = r
        return r

    def dtype(self, fn, v):
        t = self.dtypes(fn).get(v, {})
        if t.get('k') in ('ref', 'ptr') and 'e' in t:
            t = fn.T[t['e']]
        return t.get('s', '')

    def isref(self, fn, v):
        return self.dtypes(fn).get(v, {}).get('k') in ('ref', 'ptr')


FS_ = namedtuple('FS_', 'dirty off lost env bind')
OINIT = FS_(frozenset(), frozenset(), None, frozenset(), frozenset())


class FlushState(Typestate):
    """dirty: streams with unflushed data; off: streams with exceptions disabled; lost: where data may have been lost"""

    def __init__(self, sh, lab):
        super().__init__(sh.p, sh.exc, sh.cfgs)
        self.sh = sh
        self.sl = StreamLabels(sh.p, lab)
        self.rel = sh.may_reach(lambda i, q: False) | {f.id for f in sh.p.fns.values() if self.direct(f)}
        # closure over callers
        rel = {f.id for f in sh.p.fns.values() if self.direct(f)}
        self.rel = sh.may_reach(lambda i, q: i in rel)
        self.writes = set()
        self.flushes = set()

    def direct(self, f):
        if not f.file.startswith(self.sh.p.repo + '/'):
            return False
        for n in f.nodes():
            if n['k'] in ('MCall', 'OCall') and (is_write(n) is not None or self.op(n) or n.get('q', '') == 'CppUtilities::BinaryWriter::setStream'):
                return True
        return False

    def op(self, n):
        q = n.get('q', '')
        m = q.split('::')[-1]
        if n['k'] != 'MCall':
            return None
        if q.startswith('std::basic_ostream<') and m == 'flush':
            return 'flush'
        if m in ('close', 'open') and ('stream' in q.lower()) and not q.startswith('TagParser::'):
            return m
        if m == 'exceptions' and q.startswith('std::basic_ios<') and n.get('c'):
            return 'exc'
        return None

    def relevant(self, fid):
        return fid in self.rel and self.p.fns[fid].file.startswith(self.p.repo + '/')

    def enter(self, fn, node, target, st):
        f = self.p.fns[target]
        a = node.a
        args = a.get('c', [])
        if a['k'] == 'OCall' and a.get('m'):
            args = args[1:]
        env = list(st.env) if 'lambda' in f.d else []
        for p, x in zip(f.params, args):
            ts = f.T[p['t']].get('s', '')
            if x is not None and ('stream' in ts or 'BinaryWriter' in ts):
                env.append((p['id'], self.label(fn, x, st)))
        return st._replace(env=frozenset(env))

    def leave(self, fn, node, target, before, st, exc=None):
        return st._replace(env=before.env)

    def label(self, fn, n, st):
        n = strip(n)
        if n is not None and n['k'] == 'Member' and 'BinaryWriter' in fn.ty(n).get('s', ''):
            for f, l in st.bind:
                if f == n['q']:
                    return l
        return self.sl.of(fn, n, st.env)

    def event(self, fn, n, st):
        if n.k != 'e':
            return None
        a = n.a
        if a['k'] not in ('MCall', 'OCall'):
            return None
        if a.get('q', '') == 'CppUtilities::BinaryWriter::setStream' and a['obj']['k'] == 'Member':
            f = a['obj']['q']
            return (st._replace(bind=frozenset({b for b in st.bind if b[0] != f} | {(f, self.label(fn, a['c'][0], st))})),)
        w = is_write(a)
        if w is not None:
            l = self.label(fn, w, st)
            if l == 'S':
                return (st,)
            self.writes.add((fn.id, a['l']))
            return (st._replace(dirty=st.dirty | {l}),)
        o = self.op(a)
        if not o:
            return None
        l = self.label(fn, a['obj'], st)
        if l == 'S':
            return (st,)
        if o == 'flush':
            self.flushes.add((fn.id, a['l']))
            return (st,) if l in st.off else (st._replace(dirty=st.dirty - {l}),)
        if o == 'exc':
            m = a['c'][0].get('cv')
            if m is not None and not (m & BADBIT):
                return (st._replace(off=st.off | {l}),)
            return (st._replace(off=st.off - {l}),)
        if o in ('close', 'open'):
            if l in st.dirty:
                return (st._replace(dirty=st.dirty - {l}, lost=st.lost or '%s: %s() with unflushed data' % (fn.where(a), o)),)
            return (st,)
        return None

    def event_x(self, fn, n, st, t):
        a = n.a
        if n.k == 'e' and a['k'] in ('MCall', 'OCall'):
            w = is_write(a)
            o = self.op(a)
            if (w is not None or o in ('flush', 'close')) and t == IOS:
                l = self.label(fn, w if w is not None else a['obj'], st)
                if l == 'S':
                    return (st,)
                return (st._replace(dirty=st.dirty | {l}, lost=st.lost or '%s: failed write operation ignored' % fn.where(a)),)
        return (st,)
