"""Every loop makes progress on each of its turns. Loops are the natural loops of the control-flow graphs (including those made by goto; exceptional edges
into handlers are edges). For every loop measures are looked for: counters and sizes, pointers/iterators moving along a finite chain, library iterators and
the position of a throwing stream. A measure is accepted if nothing in the loop moves it backwards or sets it otherwise and a test leaving the loop is passed
between each two of its steps. The accepted measures together must cut all cycles: no turn without a step. Counters are not narrower than their bound,
unsigned ones are not decreased below zero, steps are non-zero."""
from cfg import CFG
from facts import nodes
from rules.p26 import unc

EXPLAIN = __doc__
CHAIN = {'nextSibling', 'siblingById', 'firstChild', 'parent', 'denoteNextSibling'}
ITSTEP = {'nextPage', 'nextSegment'}
GROW = {'push_back', 'emplace_back', 'insert', 'emplace', 'resize', 'append', 'push_front', 'emplace_front', 'try_emplace', 'insert_or_assign'}


def real(lab):
    return not (isinstance(lab, tuple) and lab and lab[0] == 'x')


class Loop:
    def __init__(self, head, body):
        self.head, self.body = head, body


def loops(cfg):
    """natural loops (header -> node set), via dominators"""
    order, seen = [], set()
    st = [(cfg.entry, iter(cfg.entry.succ))]
    seen.add(cfg.entry.i)
    while st:
        n, it = st[-1]
        for lab, m in it:
            if m.i not in seen:
                seen.add(m.i)
                st.append((m, iter(m.succ)))
                break
        else:
            order.append(n)
            st.pop()
    rpo = order[::-1]
    num = {n.i: k for k, n in enumerate(rpo)}
    pred = {n.i: [] for n in rpo}
    for n in rpo:
        for lab, m in n.succ:
            pred[m.i].append(n)
    idom = {rpo[0].i: 0}
    ch = True
    while ch:
        ch = False
        for k, n in enumerate(rpo[1:], 1):
            new = None
            for q in pred[n.i]:
                if q.i in idom:
                    a = num[q.i]
                    if new is None:
                        new = a
                    else:
                        b = new
                        while a != b:
                            while a > b:
                                a = idom[rpo[a].i]
                            while b > a:
                                b = idom[rpo[b].i]
                        new = a
            if idom.get(n.i) != new:
                idom[n.i] = new
                ch = True

    def dom(a, b):      # a dominates b
        x = num[b]
        while x > num[a]:
            x = idom[rpo[x].i]
        return x == num[a]
    out = {}
    irreducible = []
    for n in rpo:
        for lab, m in n.succ:
            if num[m.i] <= num[n.i]:
                if dom(m.i, n.i):
                    body = out.setdefault(m.i, {m.i})
                    work = [n]
                    while work:
                        x = work.pop()
                        if x.i in body:
                            continue
                        body.add(x.i)
                        work += pred[x.i]
                else:
                    irreducible.append((n, m))
    return out, irreducible


class Measures:
    def __init__(self, sh):
        self.sh, self.p = sh, sh.p
        self.acc, self.mod = sh.acc, sh.mod
        self._mustread, self._touch, self._fwd, self._its = {}, {}, {}, None

    # ---- what a step does to variables/members
    def effects(self, f, a):
        """list of (key, kind, step expression)"""
        out = []
        k = a['k']
        op = a.get('op')
        lhs = a['c'][0] if a.get('c') else None
        if k == 'Un' and op in ('++', '--') or k == 'OCall' and op in ('++', '--'):
            out.append((self.key(f, lhs), '+1' if op == '++' else '-1', None))
        elif (k == 'CAssign' or k == 'OCall') and op in ('+=', '-=', '>>=', '<<=', '/=', '*=', '&=', '|=', '%=', '^='):
            kind = {'+=': '+', '-=': '-', '>>=': 'shr', '/=': 'div', '<<=': 'shl'}.get(op, 'set')
            if f.ty(lhs).get('k') == 'rec' and op == '+=' and 'string' in f.ty(lhs).get('s', ''):
                kind = 'grow'
            out.append((self.key(f, lhs), kind, a['c'][1]))
        elif k == 'Assign' or k == 'OCall' and op == '=':
            if not self.through(f, lhs):
                out.append((self.key(f, lhs),) + self.assigned(f, lhs, a['c'][1]))
        elif k in ('Call', 'MCall', 'OCall', 'Ctor'):
            q = a.get('q', '').split('::')[-1].split('<')[0]
            if k == 'MCall' and a.get('obj') is not None:
                o = self.key(f, a['obj'])
                if q in ITSTEP:
                    out.append((o, 'obj', None))
                elif q in GROW:
                    out.append((o, 'grow', None))
                elif 'OggIterator' in a.get('q', '') and q not in BACK:
                    pass
                elif a.get('q', '').startswith('std::') and q in ('begin', 'end', 'rbegin', 'rend'):
                    pass        # a view; what happens to the elements does not matter
                elif not a.get('mc') and not self.on_this(a) and not self.through(f, a['obj'], a):
                    out.append((o, 'mod?' if 'fn' in a and all(t in self.mod.sum for t in self.p.targets(a)) else 'mod', None))
            if a.get('q') == 'std::advance' and len(a['c']) == 2:
                out.append((self.key(f, a['c'][0]), '+', a['c'][1]))
            else:
                mu = a.get('mu') or ()
                args = a.get('c', ())
                if k == 'OCall' and a.get('m'):
                    args = args[1:]
                    if not a.get('mc') and op not in ('*', '->', '[]', '()'):
                        out.append((self.key(f, a['c'][0]), 'mod', None))
                for i, x in enumerate(args):
                    if x is not None and i < len(mu) and mu[i]:
                        y = unc(x)
                        if mu[i] == 2 and not (y['k'] == 'Un' and y['op'] == '&'):
                            continue        # what a pointer points to
                        if f.ty(y).get('k') in ('ptr', 'int', 'bool', 'enum', 'float') and a.get('q', '').startswith(('std::', 'CppUtilities::')):
                            if q in ('min', 'max', 'make_tuple', 'make_pair', 'emplace_back', 'push_back', 'emplace', 'insert', 'make_unique', 'forward_as_tuple', 'tuple', 'argsToString', 'pair', 'get', 'move', 'forward', 'bind', 'ref', 'cref'):
                                continue
                        if y['k'] == 'Un' and y['op'] == '&':
                            y = y['c'][0]
                        if self.through(f, y):
                            continue
                        if 'OggIterator' in f.ty(y).get('s', '') and 'fn' in a and self.forward_only(a):
                            continue
                        out.append((self.key(f, y), 'mod', None))
            # members modified by callees
            for t in self.p.targets(a) if 'fn' in a else ():
                for m in self.mod.sum.get(t, ()):
                    if m in self.oggits() and self.forward_only(a):
                        continue
                    out.append(('.' + m.split('::')[-1], 'member', m))
        elif k == 'Lambda':
            for g in a['fns']:
                h = self.p.fns.get(g)
                if h is not None and h.body:
                    for y in h.nodes():
                        if y['k'] in ('Assign', 'CAssign') or y['k'] == 'Un' and y['op'] in ('++', '--'):
                            kk = self.key(h, y['c'][0])
                            if kk and kk.startswith('v'):
                                out.append((kk, 'set', None))
        return [(kk, kind, e) for kk, kind, e in out if kk]

    def oggits(self):
        """members which are Ogg iterators"""
        if self._its is None:
            self._its = {n['q'] for f in self.p.repo_fns() for n in f.nodes() if n['k'] == 'Member' and 'q' in n and 'OggIterator' in f.ty(n).get('s', '')}
        return self._its

    def forward_only(self, a):
        """an iterator passed to these functions is only moved forwards"""
        for t in self.p.targets(a):
            c = self._fwd.get(t)
            if c is None:
                self._fwd[t] = True
                g = self.p.fns.get(t)
                c = g is not None and bool(g.body)
                if c and not g.q.startswith('TagParser::OggIterator::'):
                    for n in g.nodes():
                        q = n.get('q', '')
                        if q.startswith('TagParser::OggIterator::') and (q.split('::')[-1] in BACK or q.endswith('operator=')):
                            c = False
                        elif n['k'] in ('Call', 'MCall', 'Ctor', 'OCall') and 'fn' in n and any(x in self.p.fns and self.p.fns[x].file.startswith(self.p.repo + '/') for x in self.p.targets(n)) and not self.forward_only(n):
                            c = False
                self._fwd[t] = c
            if not c:
                return False
        return True

    def through(self, f, obj, a=None):
        """is what is changed behind a pointer or iterator?"""
        o = unc(obj)
        if a is not None and a.get('arrow') and o['k'] != 'This':
            return True
        return o['k'] == 'Un' and o['op'] == '*' or o['k'] == 'OCall' and o['op'] in ('*', '->') and len(o['c']) == 1

    def on_this(self, a):
        return unc(a['obj'])['k'] == 'This'

    def key(self, f, n):
        return self.acc.key(f, n)

    def assigned(self, f, lhs, rhs):
        """kind of v = rhs"""
        v = self.key(f, lhs)
        r = unc(rhs)
        if r['k'] == 'Assign':
            r = unc(r['c'][1])
        if r['k'] == 'MCall' and r.get('obj') is not None and self.key(f, r['obj']) == v and r.get('q', '').split('::')[-1] in CHAIN:
            return ('chain', None)
        if r['k'] == 'MCall' and r.get('q', '').split('::')[-1] == 'erase' and r.get('c') and self.key(f, r['c'][0]) == v:
            return ('erase', None)  # fewer elements ahead, as many behind as before
        if r['k'] == 'Call' and r.get('q', '').split('<')[0] in ('std::next', 'std::prev') and self.key(f, r['c'][0]) == v:
            return ('+1' if 'next' in r['q'] else '-1', None)
        if r['k'] == 'Member' and r.get('arrow') and self.key(f, r['c'][0]) == v:
            return ('chain', None)
        if r['k'] in ('Bin', 'OCall') and r.get('op') in ('+', '-') and len(r['c']) == 2:
            if self.key(f, r['c'][0]) == v:
                return (r['op'], r['c'][1])
            if r['op'] == '+' and self.key(f, r['c'][1]) == v:
                return ('+', r['c'][0])
        if r.get('cv') == 0:
            return ('zero', None)
        return ('set', rhs)

    # ---- stream position
    READS = {'readByte': 1, 'readChar': 1, 'readBool': 1, 'readUInt16': 2, 'readInt16': 2, 'readUInt24': 3, 'readInt24': 3, 'readUInt32': 4, 'readInt32': 4, 'readUInt40': 5,
             'readInt40': 5, 'readUInt56': 7, 'readInt56': 7, 'readUInt64': 8, 'readInt64': 8, 'readSynchsafeUInt32': 4, 'readFloat32': 4, 'readFloat64': 8, 'readFixed8': 2,
             'readFixed16': 4}

    def moves(self, f, n):
        """(minimal number of bytes the stream position advances by an evaluation step: normally, {exception: minimum}); negative for constant seeks back;
        None for seeks elsewhere, ('back', variable) for seeks to a position remembered before"""
        a = n.a
        k = a['k']
        if k not in ('Call', 'MCall', 'OCall', 'Ctor'):
            return 0, {}
        q = a.get('q', '')
        nm = q.split('::')[-1].split('<')[0]
        if q.startswith('CppUtilities::BinaryReader::'):
            for x, w in self.READS.items():
                if nm == x or nm in (x + 'BE', x + 'LE'):
                    return w, {}
            return 0, {}
        if q.startswith('std::basic_istream'):
            if nm == 'get' and not a.get('c'):
                return 1, {}
            if nm in ('read', 'ignore') and a.get('c'):
                c = unc(a['c'][-1 if nm == 'read' else 0])
                return (c['cv'] if isinstance(c.get('cv'), int) and c['cv'] > 0 else 0), {}
            if nm == 'seekg':
                return self.seek(f, a), {}
            if nm in ('unget', 'putback'):
                return -1, {}
            return 0, {}
        if q.startswith('CppUtilities::CopyHelper') and nm in ('copy', 'callbackCopy') and len(a.get('c', ())) >= 3:
            return self.atleast(f, a['c'][2]), {}
        if 'fn' not in a or q.startswith('std::'):
            return 0, {}
        ts = [t for t in self.p.targets(a) if t in self.p.fns]
        rs = [self.net(t) for t in ts]
        if not rs:
            return 0, {}
        m = min((r[0] for r in rs), key=lambda x: -10 ** 9 if x is None else x)
        ex = {}
        for r in rs:
            for t, w in r[1].items():
                ex[t] = min(ex.get(t, w), w, key=lambda x: -10 ** 9 if x is None else x)
        return m, ex

    def atleast(self, f, e):
        """lower bound of a count"""
        e = unc(e)
        if isinstance(e.get('cv'), int):
            return max(e['cv'], 0)
        if e['k'] in ('Bin', 'OCall') and e.get('op') == '+' and 'unsigned' in f.ty(e).get('s', '') and len(e['c']) == 2:
            return self.atleast(f, e['c'][0]) + self.atleast(f, e['c'][1])
        return 0

    def seek(self, f, a):
        c = a['c']
        x = unc(c[0])
        if len(c) == 1 or c[1] is None or c[1]['k'] == 'DefArg' or 'beg' in str(c[1].get('q', '')) or unc(c[1]).get('cv') == 0:
            # remembered position plus something which is not negative?
            vs = [y for y in nodes(x) if y['k'] == 'Var']
            while x['k'] in ('Bin', 'OCall') and x.get('op') == '+' and len(x['c']) == 2:
                l = unc(x['c'][0])
                if l['k'] == 'Var':
                    x = l
                    break
                x = l
            if x['k'] == 'Var':
                return ('back', x['v'])
            return None
        if isinstance(x.get('cv'), int):
            return x['cv']
        s = c[0]
        while True:
            while s['k'] == 'Cast' and s.get('c'):
                s = s['c'][0]
            d = self.once(f, s['v']) if s['k'] == 'Var' else None
            if d is None or not any(self.key(f, y) for y in nodes(d) if y['k'] in ('Var', 'Member')):
                break
            s = d
        if 'unsigned' in f.ty(s).get('s', '') or f.ty(s).get('s', '').startswith(('uint', 'std::uint', 'const unsigned', 'std::size_t')):
            return 0 if self.unsigned_whole(f, s) else ('rest', self.key(f, s))
        return None

    def once(self, f, v):
        """initial value of a local variable which is never changed"""
        r = None
        for n in self.sh.cfgs.get(f.id).nodes:
            if n.k == 'd' and n.a.get('id') == v:
                if r is not None:
                    return None
                r = n.a.get('i')
            elif n.k == 'e' and any(kk == 'v%s' % v for kk, kind, e in self.effects(f, n.a)):
                return None
        return r

    def unsigned_whole(self, f, s):
        """an unsigned amount which nothing is subtracted from"""
        k = self.key(f, s)
        for n in f.nodes():
            if n['k'] == 'CAssign' and n['op'] == '-=' and self.key(f, n['c'][0]) == k:
                return False
        return not any(y['k'] == 'Bin' and y['op'] == '-' for y in nodes(s))

    def net(self, fid):
        """minimal advance of the stream by a function: normal return, {exception: ...}"""
        r = self._mustread.get(fid)
        if r is not None:
            return r
        self._mustread[fid] = (0, {})
        f = self.p.fns.get(fid)
        if f is None or not f.body or not f.file.startswith(self.p.repo + '/'):
            return 0, {}
        if not self.touches(fid):
            return 0, {}
        cfg = self.sh.cfgs.get(fid)
        d = self.shortest(f, cfg, cfg.entry, None)
        xs = {}
        for n in cfg.nodes:
            for lab, m in n.succ:
                if m is cfg.xexit and n.i in d:
                    t = lab[1] if isinstance(lab, tuple) else '?'
                    w = self.along(f, n, lab, d[n.i])
                    xs[t] = w if t not in xs else min(xs[t], w)
        r = self._mustread[fid] = (d.get(cfg.exit.i, 0) if d is not None else None, xs)
        r = self._mustread[fid] = tuple([None if r[0] is not None and r[0] < -10 ** 6 else r[0], {t: None if w < -10 ** 6 else w for t, w in r[1].items()}])
        return r

    def touches(self, fid, _seen=None):
        """does the function (transitively) move a stream?"""
        c = self._touch.get(fid)
        if c is None:
            self._touch[fid] = False
            f = self.p.fns.get(fid)
            c = False
            if f is not None and f.body:
                for n in f.nodes():
                    q = n.get('q', '')
                    if n['k'] == 'MCall' and q.startswith(('std::basic_istream', 'CppUtilities::BinaryReader')):
                        c = True
                        break
                    if n['k'] in ('Call', 'MCall', 'Ctor', 'OCall') and 'fn' in n and any(self.touches(t) for t in self.p.targets(n) if t in self.p.fns and self.p.fns[t].file.startswith(self.p.repo + '/')):
                        c = True
                        break
            self._touch[fid] = c
        return c

    def along(self, f, n, lab, w):
        """advance after taking an edge"""
        if n.k != 'e':
            return w
        mv, ex = self.moves(f, n)
        if real(lab):
            x = mv
        else:
            x = ex.get(lab[1], 0)
        if x is None:
            return -10 ** 9
        if isinstance(x, tuple):
            return w if x[0] == 'rest' else -10 ** 9
        return w + x

    def shortest(self, f, cfg, start, within, zero=()):
        """minimal stream advance from start to all nodes (Bellman-Ford)"""
        d = {start.i: 0}
        remembered = {}
        work, cnt = [start], {}
        lim = len(within) if within is not None else len(cfg.nodes)
        first = True
        back = {}
        while work:
            n = work.pop(0)
            cnt[n.i] = cnt.get(n.i, 0) + 1
            if cnt[n.i] > lim + 2:
                d[n.i] = -10 ** 9
            for lab, m in n.succ:
                if within is not None and (m.i not in within or m is start):
                    continue
                w = d[n.i]
                if n.k == 'e' and n.i not in zero:
                    mv, ex = self.moves(f, n)
                    if isinstance(mv, tuple) and mv[0] == 'back' and real(lab):
                        w = self.at_decl(f, cfg, mv[1], d, within)
                    else:
                        w = self.along(f, n, lab, w)
                w = max(w, -10 ** 9)
                if m.i not in d or w < d[m.i]:
                    d[m.i] = w
                    work.append(m)
        return d

    def at_decl(self, f, cfg, v, d, within):
        """advance at the declaration of a variable holding tellg()"""
        for n in cfg.nodes:
            if n.k == 'd' and n.a.get('id') == v and (within is None or n.i in within):
                i = n.a.get('i')
                if i is not None and any(y['k'] == 'MCall' and y.get('q', '').split('::')[-1] == 'tellg' for y in nodes(i)):
                    return d.get(n.i, 10 ** 6)
        return -10 ** 9

    def advance(self, f, cfg, head, body):
        """minimal advance of the stream during one turn"""
        zero = set()
        # amounts which have been read and are subtracted from the amount skipped later are not counted
        for i in body:
            n = cfg.nodes[i]
            if n.k == 'e' and n.a['k'] == 'CAssign' and n.a['op'] == '-=':
                r = unc(n.a['c'][1])
                if r['k'] == 'Var':
                    for m in (cfg.nodes[j] for j in body):
                        if m.k == 'd' and m.a.get('id') == r['v'] and m.a.get('i') is not None:
                            ids = {id(y) for y in nodes(m.a['i'])}
                            zero |= {q.i for q in (cfg.nodes[j] for j in body) if q.k == 'e' and id(q.a) in ids}
        d = self.shortest(f, cfg, head, body, zero)
        best = None
        for i in body:
            n = cfg.nodes[i]
            if n.i not in d:
                continue
            for lab, m in n.succ:
                if m is head:
                    w = d[n.i]
                    if n.k == 'e' and n.i not in zero:
                        mv, ex = self.moves(f, n)
                        w = self.at_decl(f, cfg, mv[1], d, body) if isinstance(mv, tuple) and mv[0] == 'back' and real(lab) else self.along(f, n, lab, w)
                    best = w if best is None else min(best, w)
        return best

    @staticmethod
    def reach(cfg, a, b, stop, within=None):
        """b reachable from a (by at least one edge) without passing through nodes where stop holds?"""
        seen, work = set(), [a]
        while work:
            n = work.pop()
            for lab, m in n.succ:
                if within is not None and m.i not in within:
                    continue
                if stop(n) and real(lab) and n is not a:
                    continue
                if m is b:
                    return True
                if m.i in seen:
                    continue
                seen.add(m.i)
                work.append(m)
        return False


BACK = {'reset', 'setPageIndex', 'setSegmentIndex', 'previousPage', 'clear', 'setStream'}      # of OggIterator
WIDTH = {'bool': 1, 'unsigned char': 8, 'signed char': 8, 'char': 8, 'unsigned short': 16, 'short': 16, 'unsigned int': 32, 'int': 32, 'unsigned long': 64, 'long': 64,
         'unsigned long long': 64, 'long long': 64}


def width(f, n):
    """bits of an expression before implicit widening"""
    while n['k'] == 'Cast' and n.get('c') and n.get('ck') in ('IntegralCast', 'LValueToRValue', 'NoOp') and 'cv' not in n:
        n = n['c'][0]
    t = f.ty(n)
    return t.get('w') or WIDTH.get(t.get('s', '').replace('const ', ''), 64), n


class Judge:
    def __init__(self, M, f, cfg, head, body):
        self.M, self.f, self.cfg, self.head, self.body = M, f, cfg, head, body
        self.nodes = [cfg.nodes[i] for i in body]
        self.eff = {}
        for n in self.nodes:
            if n.k == 'e':
                self.eff[n.i] = M.effects(f, n.a)
            elif n.k == 'd' and n.a.get('id') is not None:
                self.eff[n.i] = [('v%s' % n.a['id'], 'set', n.a.get('i'))]
        self.why = []
        self.given, self.within = set(), set()

    def cyc(self, cut):
        """is there still a turn without any of the given nodes?"""
        cut = set(cut)
        if self.head.i in cut:
            return False
        return Measures.reach(self.cfg, self.head, self.head, lambda n: n.i in cut, self.body)

    def prefixes(self, k):
        out, s = [], k
        while '.' in s or '[' in s:
            s = s[:max(s.rfind('.'), s.rfind('['))]
            out.append(s)
        return out

    def measure(self, k):
        """progress nodes of measure k if it is acceptable, else None"""
        prog, kinds, bad = {}, set(), []
        pre = set(self.prefixes(k))
        down = not any(kk == k and kind in ('+1', '+', 'chain', 'obj', 'erase') for es in self.eff.values() for kk, kind, e in es)
        back = any(kk == k and kind in ('-1', '-') for es in self.eff.values() for kk, kind, e in es)
        for i, es in self.eff.items():
            for kk, kind, e in es:
                if kind == 'erase':
                    if back:
                        continue
                    kind = '+1'
                if kk == k:
                    if kind in ('set', 'mod', 'mod?', 'grow') or kind == 'member' or kind == 'zero' and not down:
                        bad.append((i, kind))
                    else:
                        kinds.add(kind)
                        prog.setdefault(i, []).append((kind, e))
                elif kk in pre and kind in ('set', 'mod', 'chain', '+1', '-1'):
                    bad.append((i, kind))
                elif kind == 'member' and k.endswith(kk) and k != kk:
                    bad.append((i, kind))
        return prog, kinds, bad

    def step_ok(self, kind, e, n):
        """is the step strictly non-zero?"""
        if kind in ('+1', '-1', 'chain', 'obj', 'zero'):
            return True
        e = unc(e)
        v = e.get('cv')
        if kind in ('shr', 'shl'):
            return v is not None and v > 0
        if kind == 'div':
            return v is not None and v > 1
        if v is not None:
            return v > 0
        return self.positive(e, n)

    def positive(self, e, at=None):
        e = unc(e)
        v = e.get('cv')
        if v is not None:
            return isinstance(v, int) and v > 0
        if e['k'] == 'Var' and e.get('v') in self.given and at is None:
            return True
        if e['k'] == 'Bin' and e['op'] == '+':
            # sum of unsigned values, one of them positive (or both signed and positive)
            return any(self.positive(c, at) for c in e['c'])
        if e['k'] == 'Bin' and e['op'] == '*':
            return all(self.positive(c, at) for c in e['c'])
        if e['k'] == 'Cond':
            for c, val in ((e['c'][1], True), (e['c'][2], False)):
                k = self.M.key(self.f, unc(c))
                if not self.positive(c, at) and not (k and self.implies(e['c'][0], val, k)):
                    return False
            return True
        if e['k'] == 'Call' and e.get('q', '').split('<')[0] in ('std::min', 'std::max') and len(e['c']) == 2:
            return (all if 'min' in e['q'] else any)(self.positive(c, at) for c in e['c'])
        if at is not None and e['k'] == 'Bin' and e['op'] == '-' and 'unsigned' in self.f.ty(e).get('s', ''):
            ks = [self.M.key(self.f, unc(c)) for c in e['c']]
            return all(ks) and self.nonzero_at(ks[0], at, ks[1])
        if at is not None:
            k = self.M.key(self.f, e)
            if k and self.nonzero_at(k, at):
                return True
            if e['k'] == 'Var':
                d = self.only_def(e['v'])
                if d is not None and d.a.get('i') is not None:
                    return self.positive(d.a['i'], d)
        if e['k'] in ('MCall', 'Call'):
            for t in self.M.p.targets(e) if 'fn' in e else ():
                g = self.M.p.fns.get(t)
                if not self.positive_fn(t, {g.params[i]['id'] for i, c in enumerate(e['c'][:len(g.params)]) if c and self.positive(c, at)} if g else ()):
                    return False
            return 'fn' in e and bool(self.M.p.targets(e))
        return False

    def only_def(self, v):
        """the node declaring a variable which is never changed"""
        for i, es in self.eff.items():
            for kk, kind, e in es:
                if kk == 'v%s' % v and self.cfg.nodes[i].k != 'd':
                    return None
        ds = [n for n in self.nodes if n.k == 'd' and n.a.get('id') == v]
        return ds[0] if len(ds) == 1 else None

    def nonzero_at(self, k, at, k2=None):
        """a branch proving k to be non-zero (k to be different from k2) is passed on every way from the loop head to the node, without k being changed
        afterwards"""
        pre = set(self.prefixes(k)) | {k}
        if k2:
            pre |= set(self.prefixes(k2)) | {k2}
        changed = {i for i, es in self.eff.items() for kk, kind, e in es if kk in pre or kind == 'member' and (k.endswith(kk) or k2 and k2.endswith(kk))}
        # states: proved or not; search for a way with an unproved one
        seen, work = set(), [(self.head, False)]
        while work:
            n, ok = work.pop()
            if (n.i, ok) in seen:
                continue
            seen.add((n.i, ok))
            if n is at and not ok:
                return False
            for lab, m in n.succ:
                if m.i not in self.body or m is self.head:
                    continue
                o = ok and n.i not in changed
                if n.k == 'b' and lab in (True, False) and (self.proves(n.a, lab, k) if k2 is None else self.differ(n.a, lab, k, k2)):
                    o = True
                work.append((m, o))
        return True

    def differ(self, c, val, k, k2):
        c = unc(c)
        if c['k'] in ('Un', 'OCall') and c.get('op') == '!' and len(c['c']) == 1:
            return self.differ(c['c'][0], not val, k, k2)
        if c['k'] in ('Bin', 'OCall') and c.get('op') in ('==', '!=', '>', '<', '>=', '<=') and len(c['c']) == 2:
            if {self.M.key(self.f, unc(x)) for x in c['c']} == {k, k2}:
                op = c['op']
                if not val:
                    op = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}[op]
                return op in ('<', '>', '!=')
        return False

    def implies(self, c, val, k):
        """proves() for the whole condition, evaluated without side effects"""
        c = unc(c)
        if c['k'] == 'Un' and c['op'] == '!':
            return self.implies(c['c'][0], not val, k)
        if c['k'] == 'Bin' and c['op'] in ('&&', '||'):
            return (any if (c['op'] == '&&') == val else all)(self.implies(x, val, k) for x in c['c'])
        return self.proves(c, val, k)

    def proves(self, c, val, k):
        c = unc(c)
        if c['k'] == 'Un' and c['op'] == '!':
            return self.proves(c['c'][0], not val, k)
        if self.M.key(self.f, c) == k:
            return val
        if c['k'] == 'Bin' and c['op'] in ('==', '!=', '>', '<', '>=', '<=') and len(c['c']) == 2:
            a, b = map(unc, c['c'])
            op = c['op']
            if self.M.key(self.f, b) == k:
                a, b, op = b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            v = b.get('cv')
            if self.M.key(self.f, a) != k or not isinstance(v, int):
                return False
            if not val:
                op = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}[op]
            uns = 'unsigned' in self.f.ty(a).get('s', '')
            return op == '>' and v >= 0 or op == '>=' and v >= 1 or op == '!=' and v == 0 and uns or op == '==' and v > 0
        return False

    def positive_fn(self, fid, given=()):
        """is the result positive if the parameters listed are?"""
        f = self.M.p.fns.get(fid)
        if f is None or not f.body or fid in self.within:
            return False
        rets = [n for n in f.nodes() if n['k'] == 'Return']
        if not rets:
            return False
        # parameters which are not changed
        for n in f.nodes():
            if n['k'] in ('Assign', 'CAssign') or n['k'] == 'Un' and n.get('op') in ('++', '--', '&'):
                tg = n['c'][:1]
            else:
                mu = n.get('mu') or ()
                tg = [c for i, c in enumerate(n.get('c') or ()) if i < len(mu) and mu[i]]
            given = set(given) - {unc(c).get('v') for c in tg if c}
        was, self.given = self.given, given
        self.within.add(fid)
        try:
            return all(r.get('c') and r['c'][0] and Judge.positive(self, r['c'][0]) for r in rets)
        finally:
            self.given = was
            self.within.discard(fid)

    def tests(self, k, up):
        """branches leaving the loop which become true as k moves on"""
        out = []
        for n in self.nodes:
            if n.k != 'b':
                continue
            for lab, m in n.succ:
                if m.i not in self.body and lab in (True, False):
                    if self.suits(n.a, lab, k, up):
                        out.append(n)
        return out

    def suits(self, c, leave, k, up):
        f, M = self.f, self.M
        c0 = c
        c = unc(c)
        if c['k'] in ('Un', 'OCall') and c.get('op') == '!' and len(c['c']) == 1:
            return self.suits(c['c'][0], not leave, k, up)
        kk = M.key(f, c)
        if kk == k or kk == k + '.bool':
            if up == 'up':
                return False
            return leave is False
        if c['k'] == 'MCall' and c.get('mc') and not c.get('c') and 'OggIterator' in c.get('q', '') and c.get('obj') is not None and M.key(f, c['obj']) == k:
            return leave is False
        if c['k'] == 'Assign':
            return M.key(f, c['c'][0]) == k and leave is False
        if c['k'] in ('Bin', 'OCall') and c.get('op') in ('<', '>', '<=', '>=', '==', '!=') and len(c['c']) == 2:
            a, b = c['c']
            op = c['op']
            ma, mb = self.mentions(a, k), self.mentions(b, k)
            if mb and not ma:
                a, b = b, a
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            elif ma == mb:
                return False
            if not leave:
                op = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}[op]
            # leave if a <op> b
            if up == 'up':
                if op not in ('>=', '>', '=='):
                    return False
            elif up == 'down':
                if op not in ('<=', '<', '=='):
                    return False
                if op == '<' and f.ty(a).get('k') == 'int' and 'unsigned' in f.ty(unc(a)).get('s', '') and unc(b).get('cv') == 0:
                    self.why.append('unsigned %s is never below zero' % k)
                    return False
            elif op != '==':
                return False
            if up in ('up', 'down') and f.ty(unc(a)).get('k') == 'int':
                wa, wb = width(f, a), width(f, b)
                if up == 'up' and 'cv' not in unc(b) and 'cv' not in wb[1] and wa[0] < wb[0] and unc(a)['k'] in ('Var', 'Member'):
                    self.why.append('%s has %d bits but its bound has %d bits' % (k, wa[0], wb[0]))
                    return False
            return self.fixed(b, k, up)
        return False

    def mentions(self, n, k):
        if self.M.key(self.f, unc(n)) == k:
            return True
        u = unc(n)
        if u['k'] in ('Un', 'OCall') and u.get('op') in ('++', '--'):
            return self.mentions(u['c'][0], k)
        if u['k'] in ('Bin', 'OCall') and u.get('op') in ('+', '-') and len(u['c']) == 2:
            return self.mentions(u['c'][0], k) or u['op'] == '+' and self.mentions(u['c'][1], k)
        return False

    def fixed(self, b, k, up):
        """the bound does not move away"""
        keys = set()
        for y in nodes(b):
            if y['k'] in ('Var', 'Member'):
                kk = self.M.key(self.f, y)
                if kk:
                    keys.add(kk)
        for i, es in self.eff.items():
            x = self.cfg.nodes[i].a
            if self.cfg.nodes[i].k == 'e' and x['k'] == 'MCall' and x.get('q', '').split('::')[-1] == 'erase' and x.get('c') and self.M.key(self.f, x['c'][0]) == k:
                continue  # the begin stays and the end gets closer
            for kk, kind, e in es:
                for b_ in keys:
                    if kk == b_ and kind not in ('-1', '-', 'shr') or kind == 'member' and b_.endswith(kk) and '.' in b_ or kk == b_ and up == 'down' and kind in ('-1', '-', 'shr'):
                        self.why.append('bound %s of %s is changed at line %s (%s)' % (b_, k, self.cfg.line(self.cfg.nodes[i]), kind))
                        return False
        return True

    def run(self):
        """None if every turn makes progress, else explanation"""
        if self.head.k == 'l':
            c = self.M.key(self.f, unc(self.head.a['range']))
            for i, es in self.eff.items():
                for kk, kind, e in es:
                    if kk == c and kind in ('grow', 'set') and c:
                        return 'the sequence iterated over is changed at line %s' % self.cfg.line(self.cfg.nodes[i])
            return None
        cut = set()
        # bits are taken from a buffer of a fixed size; an exception is thrown at its end
        for n in self.nodes:
            if n.k == 'e' and n.a['k'] == 'MCall' and n.a.get('q', '').startswith('CppUtilities::BitReader::read') and not any(
                    m.k == 'e' and m.a['k'] in ('MCall', 'OCall') and m.a.get('q', '') in ('CppUtilities::BitReader::reset', 'CppUtilities::BitReader::operator=') for m in self.nodes):
                if not n.a['q'].split('<')[0].endswith('readBits') or n.a.get('c') and (unc(n.a['c'][0]).get('cv') or 0) > 0:
                    cut.add(n.i)
        keys = {kk for es in self.eff.values() for kk, kind, e in es if kind in ('+1', '-1', '+', '-', 'shr', 'shl', 'div', 'chain', 'obj', 'erase')}
        for k in sorted(keys):
            prog, kinds, bad = self.measure(k)
            if bad:
                self.why.append('%s is also changed at line %s (%s)' % (self.name(k), self.cfg.line(self.cfg.nodes[bad[0][0]]), bad[0][1]))
                continue
            ups = {'+1': 'up', '+': 'up', '-1': 'down', '-': 'down', 'shr': 'down', 'shl': 'down', 'div': 'down', 'zero': 'down', 'chain': 'chain', 'obj': 'chain'}
            dirs = {ups[x] for x in kinds}
            if len(dirs) != 1:
                self.why.append('%s moves both ways' % self.name(k))
                continue
            up = dirs.pop()
            t = self.f.T
            tests = {n.i for n in self.tests(k, up)}
            good = {i for i, l in prog.items() if any(self.step_ok(kind, e, self.cfg.nodes[i]) for kind, e in l)}
            if not tests:
                # iterators may be compared the other way round
                tests = {n.i for d in ('up', 'down', 'chain') for n in self.tests(k, d)} if self.itlike(k) else tests
            if not tests:
                self.why.append('no test of %s leaves the loop' % self.name(k))
                continue
            # a test between each two steps
            g2 = set()
            for i in good:
                x = self.cfg.nodes[i]
                if not Measures.reach(self.cfg, x, x, lambda n: n.i in tests, self.body):
                    g2.add(i)
            if len(g2) != len(good):
                self.why.append('%s steps without being tested' % self.name(k))
            if not good:
                self.why.append('steps of %s may be zero' % self.name(k))
            cut |= g2
        if self.cyc(cut):
            # there is only a limited number of turns with these steps; all other turns have to move the stream forwards
            if any(n.k == 'e' and self.M.moves(self.f, n)[0] for n in self.nodes):
                w = self.M.advance(self.f, self.cfg, self.head, self.body - cut)
                if w is None or w > 0:
                    return None
            return 'a turn without progress is possible (%s)' % '; '.join(dict.fromkeys(self.why)) if self.why else 'a turn without progress is possible'
        return None

    def lives(self):
        """does each turn change something which has not been declared in the loop?"""
        own = {'v%s' % n.a.get('id') for n in self.nodes if n.k == 'd'}
        cut = {i for i, es in self.eff.items() for kk, kind, e in es if kind != 'member' and kk.split('.')[0].split('[')[0] not in own}
        return bool(cut)

    def itlike(self, k):
        for n in self.nodes:
            if isinstance(n.a, dict) and n.k in ('e', 'b'):
                for y in nodes(n.a):
                    if y['k'] in ('Var', 'Member') and self.M.key(self.f, y) == k:
                        return self.f.ty(y).get('k') in ('rec', 'ptr')
        return False

    def seeks(self, a):
        if a['k'] != 'MCall':
            return False
        q = a.get('q', '')
        return q.split('::')[-1] in ('seekg', 'pubseekoff', 'pubseekpos', 'unget', 'putback')

    def name(self, k):
        import re
        def rep(m):
            for n in self.f.nodes():
                if n['k'] == 'Var' and str(n['v']) == m.group(1):
                    return n['n']
            return m.group(0)
        return re.sub(r'v(\d+)', rep, k)


# loops which end for a reason this analysis does not see: function -> (how many, why). Each turn still has to change something outliving the turn
# (and, with True, loops made by jumping back are not decided at all)
EXEMPT = {
    'TagParser::BackupHelper::createBackupFile': (1, 'counts until an unused file name has been found'),
    'TagParser::Id3v2Frame::parse': (1, 'the end of a substring is behind its start'),
    'TagParser::MediaFileInfo::parseContainerFormat': (1, 'goes on behind the skipped part of the file; reading behind the end of the file fails'),
    'TagParser::OggPage::computeChecksum': (1, 'the bound is increased at most 256 times'),
    'TagParser::writePlayCounter': (1, 'the size has been computed for the counter'),
    'TagParser::OggIterator::reset': (1, 'a page is read from the stream when the known ones have been passed'),
    'TagParser::OggIterator::nextPage': (1, 'a page is read from the stream when the known ones have been passed'),
    'TagParser::OggContainer::internalParseHeader': (1, 'a page further behind is gone on with only if it has been found'),
    'TagParser::OggContainer::internalMakeFile': (3, 'goes a page back only when the one expected has been found; a segment size is written if there are bytes left'),
    'TagParser::MatroskaContainer::internalMakeFile': (0, 'jumps back to compute sizes again until they fit', True),
    'TagParser::Mp4Container::internalMakeFile': (1, 'jumps back to compute sizes again until they fit; copies chunks as long as there are any', True),
}


def owners(p, f, callers, memo):
    """exempted functions a function belongs to: itself or, for helpers of the same file, the ones calling it"""
    if f.id in memo:
        return memo[f.id]
    memo[f.id] = set()
    if f.q in EXEMPT:
        r = {f.q}
    else:
        r = None
        for c in callers.get(f.id, ()):
            g = p.fns[c]
            o = owners(p, g, callers, memo) if g.file == f.file else set()
            r = o if r is None else r & o
        r = r or set()
    memo[f.id] = r
    return r


def run(ctx):
    p, sh = ctx.p, ctx.sh
    M = Measures(sh)
    callers = {}
    for f in p.repo_fns():
        for t in sh.callees(f.id):
            callers.setdefault(t, set()).add(f.id)
    memo, open_ = {}, {}
    for f in sorted(p.repo_fns(), key=lambda f: f.id):
        if not f.body or '/aac/' in f.file:
            continue
        if not any(n['k'] in ('For', 'While', 'Do', 'RangeFor', 'Goto') for n in f.nodes()):
            continue
        cfg = sh.cfgs.get(f.id)
        ls, irr = loops(cfg)
        own = sorted(owners(p, f, callers, memo))
        labels = {n.i for n in cfg.labels.values()}
        jumps = any(len(EXEMPT[o]) > 2 for o in own)
        for no, (h, body) in enumerate(sorted(ls.items())):
            J = Judge(M, f, cfg, cfg.nodes[h], body)
            r = J.run()
            node = {'l': min((cfg.line(cfg.nodes[i]) or 10 ** 9 for i in body), default=0)}
            what = 'loop %d of %s makes progress on each turn' % (no + 1, f.n)
            if r is not None and own:
                if jumps and h in labels:
                    ctx.ok('undecided', f, node, what)
                    continue
                if J.lives():
                    open_.setdefault(own[0], []).append((f, node, what, r))
                    continue
            ctx.check(r is None, 'loop', f, node, what, r)
        for a, b in irr:
            node = {'l': cfg.line(a) or 0}
            if jumps:
                ctx.ok('undecided', f, node, 'loop of %s' % f.n)
            else:
                ctx.check(False, 'loop', f, node, 'loop of %s' % f.n, 'is entered at several places')
    for o, l in sorted(open_.items()):
        for f, node, what, r in l:
            if len(l) <= EXEMPT[o][0]:
                ctx.ok('changes', f, node, what + ': ' + EXEMPT[o][1])
            else:
                ctx.check(False, 'loop', f, node, what, r)
    ctx.need('loop', 150)
