"""Lifetime analysis: which storage references, pointers, iterators and views held by local variables refer to, which operations end the
life of that storage (containers growing or being emptied, owners reset, objects moved from, scopes left), and which uses follow.

Storage is named by access paths: a root ('this', a variable or a temporary) followed by '.field', '[]' (an element of a container or
array) and '*' (what a pointer or owner points to). Paths are resolved through the holders, trivial and non-trivial accessors
(the paths a function returns are part of its summary), so the same storage has the same path however it is spelled."""
import re
from cfg import CFG, EVAL
from facts import nodes

SEQ = ('std::vector', 'std::basic_string', 'std::deque', 'std::__cxx11::basic_string')
NODE = ('std::list', 'std::__cxx11::list', 'std::map', 'std::multimap', 'std::set', 'std::multiset', 'std::unordered_map', 'std::unordered_multimap', 'std::unordered_set', 'std::forward_list')
OWN = ('std::unique_ptr', 'std::shared_ptr', 'std::optional', 'std::__shared_ptr')
VIEW = ('std::basic_string_view', 'std::span')
ITER = ('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::_List_iterator', 'std::_List_const_iterator',
        'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::reverse_iterator', 'std::_Bit_iterator', 'std::__detail::_Node_iterator_base')
GROW = {'push_back', 'emplace_back', 'insert', 'emplace', 'resize', 'reserve', 'append', 'shrink_to_fit', 'push_front', 'emplace_front', 'replace', 'operator+='}
EMPTY = {'clear', 'erase', 'pop_back', 'assign', 'swap', 'pop_front', 'extract', 'remove_if', 'remove', 'splice', 'operator='}
ELEM = {'front', 'back', 'at', 'emplace_back', 'operator[]', 'emplace_front'}
ITERS = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'data', 'c_str', 'insert', 'emplace', 'erase', 'lower_bound', 'upper_bound', 'equal_range',
         'try_emplace', 'insert_or_assign', 'emplace_hint', 'rdata'}
STEP = {'std::next', 'std::prev', 'std::find', 'std::find_if', 'std::find_if_not', 'std::lower_bound', 'std::upper_bound', 'std::begin', 'std::end', 'std::cbegin', 'std::cend',
        'std::search', 'std::adjacent_find', 'std::max_element', 'std::min_element', 'std::remove_if', 'std::remove', 'std::partition', 'std::unique', 'std::data'}
SAME = {'std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof'}
MAXLEN, MAXSET = 9, 8


def base(q):
    return q.split('<')[0]


def meth(q):
    if q.endswith('>') and 'operator' not in q:
        d = 0
        for i in range(len(q) - 1, -1, -1):
            d += (q[i] == '>') - (q[i] == '<')
            if d == 0:
                q = q[:i]
                break
    return q.rsplit('::', 1)[-1]


def cls(q):
    """container class of a method's qualified name"""
    return base(q) if '<' in q else q.rsplit('::', 1)[0]


def isa(s, names):
    b = base(s[6:] if s.startswith('const ') else s)
    return b in names


class Temp(tuple):
    pass


class Life:
    """analysis of one function"""

    def __init__(self, sh, fn, summ):
        self.sh, self.p, self.fn, self.T, self.summ = sh, sh.p, fn, fn.T, summ
        c = fn.extra.get('lcfg')
        if c is None:
            c = fn.extra['lcfg'] = CFG(fn, sh.exc.callee_exc, True, sh.cfgs.nr)
        self.cfg = c
        self._prepare()

    # ---- structure
    def _prepare(self):
        x = self.fn.extra.get('life')
        if x is None:
            parent, scope, decls = {}, {}, {}
            SC = ('Compound', 'For', 'While', 'If', 'Switch', 'RangeFor', 'Do')

            def go(n, par, sc):
                if isinstance(n, dict):
                    if 'k' in n:
                        if par is not None:
                            parent[id(n)] = par
                        scope[id(n)] = sc
                        if n['k'] == 'DeclStmt':
                            for v in n['decls']:
                                if v:
                                    decls[v['id']] = (v, sc)
                        if n['k'] == 'RangeFor' and n.get('loopvar'):
                            decls[n['loopvar']['id']] = (n['loopvar'], n)
                        if n['k'] in SC:
                            sc = n
                        par = n
                    for v in n.values():
                        if type(v) in (dict, list):
                            go(v, par, sc)
                elif isinstance(n, list):
                    for v in n:
                        if type(v) in (dict, list):
                            go(v, par, sc)
            for r in self.fn.roots():
                go(r, None, None)
            uses = {}
            for nd in self.cfg.nodes:
                if nd.k in ('e', 'b', 'r', 's', 'i') and isinstance(nd.a, dict):
                    a = nd.a.get('e') if nd.k == 'i' else nd.a
                    if a is None:
                        continue
                    l = []
                    st = [a] if nd.k != 'e' else [c for key in ('obj', 'callee') for c in [a.get(key)] if c] + [c for c in a.get('c', ()) if c]
                    while st:
                        y = st.pop()
                        if y['k'] == 'Var':
                            l.append(y)
                        elif y['k'] in EVAL:
                            continue
                        else:
                            st.extend(c for c in y.get('c', ()) if isinstance(c, dict))
                    uses[nd.i] = l
            x = self.fn.extra['life'] = (parent, scope, decls, uses)
        self.parent, self.scope, self.decls, self.uses = x
        self.pid = {p['id']: i for i, p in enumerate(self.fn.params)}

    def ts(self, t):
        return self.T[t]['s'] if t is not None and t >= 0 else ''

    def holder(self, t):
        """kind of holder a type is"""
        if t is None or t < 0:
            return None
        ty = self.T[t]
        k = ty.get('k')
        if k == 'ptr':
            e = self.T[ty['e']]
            return 'ptr' if not e['s'].startswith(('void (', 'bool (')) else None
        if k == 'ref':
            return 'ref'
        s = ty['s'][6:] if ty['s'].startswith('const ') else ty['s']
        if isa(s, VIEW):
            return 'view'
        if isa(s, ITER):
            return 'iter'
        if s.startswith('std::pair<') and ty.get('ta'):
            if any(isinstance(a, int) and a >= 0 and self.holder(a) == 'iter' for a in ty['ta'][:1]):
                return 'iter'
        return None

    # ---- paths
    def loc(self, n, st, d=0):
        """paths of the storage an lvalue designates (empty: unknown)"""
        if n is None or d > 24:
            return frozenset()
        k = n['k']
        if k == 'Var':
            if n['v'] in st.bind and st.kind.get(n['v']) == 'ref':
                return st.bind[n['v']]
            return frozenset([(n['v'],)])
        if k in ('Global', 'Ref'):
            return frozenset([('g:' + n.get('q', '?'),)])
        if k == 'Member':
            if not n.get('c') or n['c'][0] is None:
                return frozenset()
            c = n['c'][0]
            b = self.ptv(c, st, d + 1) if n.get('arrow') else self.loc(c, st, d + 1)
            return self.ext(b, '.' + n['n'])
        if k == 'Un' and n['op'] == '*':
            return self.ptv(n['c'][0], st, d + 1)
        if k == 'Un' and n['op'] in ('++', '--'):
            return self.loc(n['c'][0], st, d + 1)
        if k == 'Index':
            t = self.fn.ty(n['c'][0])
            return self.ptv(n['c'][0], st, d + 1) if t.get('k') == 'ptr' else self.ext(self.loc(n['c'][0], st, d + 1), '[]')
        if k == 'Cast':
            if n.get('ck') == 'ArrayToPointerDecay':
                return frozenset()
            return self.loc(n['c'][0], st, d + 1) if n.get('c') else frozenset()
        if k == 'Cond':
            return self.loc(n['c'][1], st, d + 1) | self.loc(n['c'][2], st, d + 1)
        if k in ('DefArg', 'DefInit', 'Opaque'):
            return self.loc(n['c'][0], st, d + 1) if n.get('c') else frozenset()
        if k in ('Assign', 'CAssign'):
            return self.loc(n['c'][0], st, d + 1)
        if k == 'OCall':
            op, c = n['op'], n['c']
            if n.get('pr'):
                return self.temp(n)
            if op in ('->', '*') and len(c) == 1:
                return self.ptv(c[0], st, d + 1)
            if op == '[]':
                s = self.fn.ty(c[0]).get('s', '')
                if isa(s, VIEW + ITER):
                    return self.ptv(c[0], st, d + 1)
                return self.ext(self.loc(c[0], st, d + 1), '[]')
            if op in ('=', '+=', '-=', '|=', '&=', '<<', '>>', '++', '--'):
                return self.loc(c[0], st, d + 1)
            return frozenset()
        if k == 'Ctor':
            return self.temp(n)
        if k == 'Call':
            q = n.get('q', '')
            if q in SAME and n['c']:
                return self.loc(n['c'][0], st, d + 1)
            if base(q) in ('std::get', 'std::__get') and n['c'] and not n.get('pr'):
                if self.fn.ty(n['c'][0]).get('k') != 'ptr':
                    return self.ext(self.loc(n['c'][0], st, d + 1), '.' + str(n.get('t')))
            if n.get('pr'):
                return self.temp(n)
            return self.retpaths(n, st, 'ref', d)
        if k == 'MCall':
            if n.get('pr'):
                return self.temp(n)
            q = n.get('q', '')
            m = meth(q)
            if q.startswith('std::') and n.get('obj') is not None:
                c = cls(q)
                o = self.objloc(n, st, d)
                if c in SEQ + NODE or c == 'std::array':
                    if m in ELEM:
                        return self.ext(o, '[]')
                    if m in ('append', 'assign', 'insert', 'operator=', 'replace'):
                        return o
                if c in OWN and m in ('value', 'emplace', 'operator*'):
                    return self.ext(o, '*')
                if c in VIEW and m in ELEM:
                    return self.ptv(n['obj'], st, d + 1)
                return frozenset()
            return self.retpaths(n, st, 'ref', d)
        return frozenset()

    def objloc(self, n, st, d=0):
        o = n.get('obj')
        return self.ptv(o, st, d + 1) if n.get('arrow') else self.loc(o, st, d + 1)

    def temp(self, n):
        """a temporary owning what is reached through it"""
        s = self.fn.ty(n).get('s', '')
        s = s[6:] if s.startswith('const ') else s
        if isa(s, SEQ + NODE + OWN):
            return frozenset([('tmp:%d' % n.get('l', 0),)])
        return frozenset()

    def ptv(self, n, st, d=0):
        """paths of the storage the value of a pointer, owner, iterator or view refers to"""
        if n is None or d > 24:
            return frozenset()
        k = n['k']
        if k == 'This':
            return frozenset([('this',)])
        if k == 'Var':
            h = st.kind.get(n['v'])
            if h and h != 'ref' and n['v'] in st.bind:
                return st.bind[n['v']]
            return self.pointee(n, self.loc(n, st, d + 1))
        if k in ('Member', 'Index', 'Global', 'Ref'):
            if k == 'Member' and n.get('n') in ('first', 'second') and n.get('c') and not n.get('arrow') and self.holder(n['c'][0].get('t')) == 'iter':
                return self.ptv(n['c'][0], st, d + 1)
            return self.pointee(n, self.loc(n, st, d + 1))
        if k == 'Un':
            if n['op'] == '&':
                return self.loc(n['c'][0], st, d + 1)
            if n['op'] == '*':
                return self.pointee(n, self.loc(n, st, d + 1))
            return self.ptv(n['c'][0], st, d + 1)
        if k == 'Cast':
            if not n.get('c'):
                return frozenset()
            if n.get('ck') == 'ArrayToPointerDecay':
                if n['c'][0]['k'] == 'Str':
                    return frozenset()
                return self.ext(self.loc(n['c'][0], st, d + 1), '[]')
            return self.ptv(n['c'][0], st, d + 1)
        if k == 'Cond':
            return self.ptv(n['c'][1], st, d + 1) | self.ptv(n['c'][2], st, d + 1)
        if k in ('Assign', 'DefArg', 'DefInit', 'Opaque', 'CAssign'):
            return self.ptv(n['c'][0], st, d + 1) if n.get('c') else frozenset()
        if k == 'Bin' and n['op'] in ('+', '-') and self.fn.ty(n).get('k') == 'ptr':
            a = n['c'][0] if self.fn.ty(n['c'][0]).get('k') == 'ptr' else n['c'][1]
            return self.ptv(a, st, d + 1)
        if k == 'Bin' and n['op'] == ',':
            return self.ptv(n['c'][1], st, d + 1)
        if k == 'Ctor':
            a = [c for c in n.get('c', []) if c and c['k'] != 'DefArg']
            s = self.fn.ty(n).get('s', '')
            if isa(s, VIEW + ITER) and a:
                t = self.fn.ty(a[0]).get('s', '')
                if isa(t, SEQ):
                    return self.ext(self.loc(a[0], st, d + 1), '[]')
                return self.ptv(a[0], st, d + 1)
            if n.get('cm') and len(a) == 1:
                return self.ptv(a[0], st, d + 1)
            if isa(s, OWN):
                return self.ext(self.loc(n, st, d + 1), '*')
            return frozenset()
        if k == 'InitList' and len(n.get('c', [])) == 1:
            return self.ptv(n['c'][0], st, d + 1)
        if k == 'OCall':
            op, c = n['op'], n['c']
            t = self.fn.ty(c[0]).get('s', '') if c else ''
            if op in ('++', '--', '+', '-', '+=', '-=', '=') and isa(t, ITER + VIEW):
                return self.ptv(c[0], st, d + 1)
            if n.get('pr'):
                return self.pointee(n, self.temp(n))
            return self.pointee(n, self.loc(n, st, d + 1))
        if k == 'Call':
            q = n.get('q', '')
            if q in SAME and n['c']:
                return self.ptv(n['c'][0], st, d + 1)
            if base(q) in STEP and n['c']:
                a = n['c'][0]
                if base(q) in ('std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::data'):
                    return self.ext(self.loc(a, st, d + 1), '[]')
                return self.ptv(a, st, d + 1)
            if isa(self.fn.ty(n).get('s', ''), OWN):
                return self.pointee(n, self.loc(n, st, d + 1))
            return self.retpaths(n, st, 'ptr', d)
        if k == 'MCall':
            q = n.get('q', '')
            m = meth(q)
            if q.startswith('std::') and n.get('obj') is not None:
                c = cls(q)
                if c in SEQ + NODE or c == 'std::array' or c == 'std::initializer_list':
                    if m in ITERS or m.startswith('operator basic_string_view') or m.startswith('operator std::'):
                        return self.ext(self.objloc(n, st, d), '[]')
                    if m in ELEM:
                        return self.pointee(n, self.loc(n, st, d + 1))
                if c in OWN and m in ('get',):
                    return self.ext(self.objloc(n, st, d), '*')
                if c in OWN and m in ('value',):
                    return self.pointee(n, self.ext(self.objloc(n, st, d), '*'))
                if 'operator' in q and 'basic_string_view' in q.split('operator')[-1]:
                    return self.ext(self.objloc(n, st, d), '[]')
                if c in VIEW:
                    if m in ('data', 'begin', 'end', 'cbegin', 'cend', 'substr'):
                        return self.ptv(n['obj'], st, d + 1)
                return frozenset()
            if 'operator' in q and 'string_view' in q:
                return self.ext(self.objloc(n, st, d), '[]')
            if n.get('pr') and isa(self.fn.ty(n).get('s', ''), OWN):
                return self.pointee(n, self.temp(n))
            return self.retpaths(n, st, 'ptr', d)
        return frozenset()

    def pointee(self, n, locs):
        s = self.fn.ty(n).get('s', '')
        if isa(s, OWN) or self.fn.ty(n).get('k') == 'ptr':
            return self.ext(locs, '*')
        if self.holder(n.get('t')) in ('view', 'iter'):
            return self.ext(locs, '*')
        return frozenset()

    def ext(self, paths, step):
        return frozenset(p + (step,) for p in paths if len(p) < MAXLEN)

    # ---- calls
    def callees(self, n):
        if n['k'] == 'OCall' and n.get('op') == '()':
            return [n['fn']] if n.get('fn') else []
        return self.p.targets(n)

    def translate(self, n, callee, path, st, d=0):
        """path in the callee -> paths in the caller"""
        r = path[0]
        if r == 'this':
            if 'lambda' in callee.d:
                b = frozenset([('this',)])
            elif n['k'] == 'MCall':
                o = n.get('obj')
                if o is None:
                    return frozenset()
                b = self.ptv(o, st, d + 1) if n.get('arrow') else self.loc(o, st, d + 1)
            elif n['k'] == 'OCall' and n.get('m') and n['c']:
                b = self.loc(n['c'][0], st, d + 1)
            else:
                return frozenset()
            rest = path[1:]
        else:
            pid = callee.extra.get('pid')
            if pid is None:
                pid = callee.extra['pid'] = {p['id']: (i, p) for i, p in enumerate(callee.params)}
            if r not in pid:
                if 'lambda' in callee.d and not str(r).startswith(('tmp:', 'g:')):
                    return frozenset([path])
                return frozenset()
            i, prm = pid[r]
            args = n['c'][1:] if n['k'] == 'OCall' and n.get('m') else n['c']
            if i >= len(args) or args[i] is None:
                return frozenset()
            k = callee.T[prm['t']].get('k') if prm.get('t', -1) >= 0 else None
            if k == 'ref':
                b = self.loc(args[i], st, d + 1)
                rest = path[1:]
            elif len(path) > 1 and path[1] == '*' and k == 'ptr':
                b = self.ptv(args[i], st, d + 1)
                rest = path[2:]
            else:
                return frozenset()
        return frozenset(x + rest for x in b if len(x) + len(rest) <= MAXLEN)

    def retpaths(self, n, st, kind, d):
        if d > 12:
            return frozenset()
        out = set()
        ids = self.callees(n)
        for t in ids:
            s = self.summ.get(t)
            if s is None:
                continue
            g = self.p.fns[t]
            rt = g.T[g.d['rt']].get('k') if g.d.get('rt', -1) >= 0 else None
            for pth in s.ret:
                x = self.translate(n, g, pth, st, d + 1)
                if kind == 'ptr' and rt == 'ref':
                    x = self.pointee(n, x)
                out |= x
        return frozenset(out) if len(out) <= MAXSET else frozenset()

    # ---- transfer
    def kill_root(self, st, v):
        """variable v designates something else from now on"""
        for w, b in list(st.bind.items()):
            if w != v and any(p[0] == v for p in b):
                b = frozenset(p for p in b if p[0] != v)
                st.bind[w] = b or frozenset([(w, '*')])
        for p in [p for p in st.moved if p[0] == v]:
            del st.moved[p]

    def bind_var(self, st, v, kind, paths, via):
        st.inv.pop(v, None)
        self.kill_root(st, v)
        b = frozenset(p for p in paths if p[0] != v or len(p) == 1)
        if len(b) > MAXSET:
            b = frozenset()
        st.kind[v] = kind
        st.bind[v] = b or frozenset([(v, '*')])
        st.via[v] = frozenset(via) | frozenset(y for x in via for y in st.via.get(x, ()))
        # what is bound to something invalid is invalid as well
        for x in via:
            if x in st.inv and kind != 'ref':
                pass

    def holders_in(self, n, st):
        out, s = set(), [n]
        while s:
            x = s.pop()
            if x is None:
                continue
            if x['k'] == 'Var':
                if x['v'] in st.kind:
                    out.add(x['v'])
                continue
            if x['k'] == 'Lambda' or x['k'] == 'OCall' and x['op'] in ('++', '--'):
                continue
            for key in ('obj',):
                if x.get(key):
                    s.append(x[key])
            s.extend(c for c in x.get('c', ()) if isinstance(c, dict))
        return out

    def invalidate(self, st, kind, P, why, only=None):
        """the storage at path P changes: holders referring to parts of it become invalid"""
        n = len(P)
        hit = False
        for v, b in st.bind.items():
            apart = only is not None and v not in only and not (st.via.get(v, frozenset()) & only)
            if apart and kind != 'cut':
                continue
            for p in b:
                if p[:n] != P:
                    continue
                rest = p[n:]
                if kind == 'grow':
                    h = rest[:1] == ('[]',) and '*' not in rest and '[]' not in rest[1:]
                elif kind == 'cut' and (apart or only is None):
                    h = rest[:1] == ('[]',) and '*' not in rest  # the other elements are moved, what they own stays
                elif kind in ('erase', 'cut'):
                    h = rest[:1] == ('[]',)
                elif kind == 'own':
                    h = rest[:1] == ('*',)
                elif kind == 'gone':
                    h = bool(rest) or st.kind.get(v) is not None
                else:
                    h = False
                if h and v not in st.inv:
                    st.inv[v] = why
                    hit = True
        return hit

    def moveaway(self, st, P, string, why):
        n = len(P)
        for v, b in list(st.bind.items()):
            if any(p[:n] == P and p[n:n + 1] in (('*',), ('[]',)) for p in b):
                if string:
                    st.inv.setdefault(v, why)
                else:
                    b = frozenset(p for p in b if not (p[:n] == P and p[n:n + 1] in (('*',), ('[]',))))
                    st.bind[v] = b or frozenset([(v, '*')])
        # a part of what has been moved away is no separate state
        st.moved[P] = why

    def unmove(self, st, P):
        for p in [p for p in st.moved if p[:len(P)] == P]:
            del st.moved[p]

    def events(self, n, st):
        """[(kind, path, description, only)] of an evaluated expression"""
        k = n['k']
        out = []
        if k == 'MCall' and n.get('q', '').startswith('std::') and n.get('obj') is not None:
            q = n['q']
            m, c = meth(q), cls(q)
            if c in SEQ and (m in GROW or m in EMPTY):
                kind = 'grow' if m in GROW else 'cut' if m == 'erase' else 'erase'
                only = None
                if kind == 'cut':
                    only = set()
                    for a in n['c']:
                        only |= self.holders_in(a, st)
                for P in self.objloc(n, st):
                    out.append((kind, P, '%s()' % m, only))
            elif c in NODE and m in EMPTY:
                only = None
                if m in ('erase', 'extract', 'remove_if', 'remove', 'splice'):
                    only = set()
                    for a in n['c']:
                        only |= self.holders_in(a, st)
                    for x in list(only):
                        if st.kind.get(x) in ('ref', 'ptr'):
                            only |= st.via.get(x, frozenset())  # the same element
                for P in self.objloc(n, st):
                    out.append(('erase', P, '%s()' % m, only))
            elif c in OWN and m in ('reset', 'swap', 'emplace', 'operator='):
                for P in self.objloc(n, st):
                    out.append(('own', P, '%s()' % m, None))
        elif k == 'OCall' and n['op'] in ('=', '+=') and n.get('c') and n.get('q', '').startswith('std::'):
            c = cls(n['q'])
            if c in SEQ + NODE:
                for P in self.loc(n['c'][0], st):
                    out.append(('grow' if n['op'] == '+=' else 'erase', P, 'operator%s' % n['op'], None))
            elif c in OWN and n['op'] == '=':
                for P in self.loc(n['c'][0], st):
                    out.append(('own', P, 'operator=', None))
        elif k == 'OCall' and n['op'] == '>>' and n.get('c') and len(n['c']) == 2 and isa(self.fn.ty(n['c'][1]).get('s', ''), SEQ):
            for P in self.loc(n['c'][1], st):
                out.append(('grow', P, 'operator>>', None))
        elif k == 'Delete':
            for P in self.ptv(n['c'][0], st):
                out.append(('gone', P, 'delete', None))
        if k in ('Call', 'MCall', 'OCall', 'Ctor') and n.get('fn'):
            for t in self.callees(n):
                s = self.summ.get(t)
                if s is None:
                    continue
                g = self.p.fns[t]
                for kind, P in s.kills:
                    for x in self.translate(n, g, P, st):
                        out.append((kind, x, g.q.replace('TagParser::', '') + '()', None))
        # passed by reference to standard functions
        if k == 'Call' and n.get('q', '').startswith('std::'):
            q = base(n['q'])
            if q in ('std::getline',) and len(n['c']) > 1:
                for P in self.loc(n['c'][1], st):
                    out.append(('grow', P, 'getline()', None))
            elif q in ('std::swap', 'std::exchange'):
                for a in n['c'][:2]:
                    t = self.fn.ty(a).get('s', '')
                    for P in self.loc(a, st):
                        if isa(t, OWN):
                            if q == 'std::exchange' and a is n['c'][0]:
                                self.moveaway(st, P, False, None)
                                self.unmove(st, P)
        return out

    def same_arg(self, n):
        """variable rebound by `i = c.erase(i)`"""
        p = self.parent.get(id(n))
        while p is not None and p['k'] in ('Cast', 'Ctor'):
            p = self.parent.get(id(p))
        return p

    def node(self, nd, st, rep=None):
        """transfer function of a CFG node; rep(kind, ast, var/path, why) reports uses"""
        k, a = nd.k, nd.a
        if rep:
            self.check(nd, st, rep)
        if k == 'd':
            self.decl(a, st, rep, nd)
            return
        if k != 'e':
            if k == 'r' and self.collect is not None and a.get('c') and a['c'][0]:
                self.returns(a, st)
            return
        n = a
        kk = n['k']
        if kk == 'Call' and n.get('q') == 'std::move' and n['c']:
            t = self.fn.ty(n['c'][0])
            if t.get('k') == 'rec' and not self.through(n['c'][0]):
                for P in self.loc(n['c'][0], st):
                    if not str(P[0]).startswith('tmp:') and '[]' not in P:
                        self.pending.setdefault(id(n), []).append(P)
                        self.moveaway(st, P, isa(t['s'], SEQ[1:2] + SEQ[3:]), (n.get('l'), 'std::move()'))
            return
        if kk in ('Call', 'MCall', 'OCall', 'Ctor', 'Delete'):
            for kind, P, what, only in self.events(n, st):
                self.invalidate(st, kind, P, (n.get('l'), what), only)
                if self.collect is not None and kind in ('grow', 'erase', 'own', 'gone', 'cut') and (only is None or kind == 'cut'):
                    self.export(kind, P, n)
            if kk == 'MCall' and n.get('obj') is not None:
                m = meth(n.get('q', ''))
                if m in ('release',) and isa(self.fn.ty(n['obj']).get('s', ''), OWN):
                    for P in self.objloc(n, st):
                        self.moveaway(st, P, False, None)
                        self.unmove(st, P)
                        st.moved[P] = (n.get('l'), 'release()')
                elif m in ('reset', 'clear', 'assign', 'swap', 'resize', 'emplace') or not n.get('q', '').startswith('std::') and not n.get('mc'):
                    for P in self.objloc(n, st):
                        if m in ('reset', 'clear', 'assign', 'swap', 'resize', 'emplace'):
                            self.unmove(st, P)
                if m == 'reset' and isa(self.fn.ty(n['obj']).get('s', ''), OWN[:2]) and not [c for c in n['c'] if c and c['k'] not in ('DefArg', 'Null0')]:
                    for P in self.objloc(n, st):
                        st.moved[P] = (n.get('l'), 'reset()')
            # passing by modifiable reference may assign
            for i, m in enumerate(n.get('mu', ()) or ()):
                args = n['c'][1:] if kk == 'OCall' and n.get('m') else n.get('c', [])
                if m and i < len(args) and args[i] is not None and args[i]['k'] != 'Call':
                    for P in self.loc(args[i], st):
                        self.unmove(st, P)
        if kk in ('Assign',) or kk == 'OCall' and n['op'] == '=':
            l, r = n['c'][0], n['c'][1] if len(n['c']) > 1 else None
            if l['k'] == 'Var' and l['v'] in st.kind and st.kind[l['v']] != 'ref' or l['k'] == 'Var' and self.holder(l.get('t')) in ('ptr', 'iter', 'view'):
                self.bind_var(st, l['v'], self.holder(l.get('t')) or st.kind.get(l['v']), self.ptv(r, st), self.holders_in(r, st) - {l['v']})
                if rep:
                    self.tempcheck(n, l['v'], st, rep)
            else:
                if l['k'] == 'Member' and l['n'] in ('first', 'second') and l['c'] and l['c'][0]['k'] == 'Var' and st.kind.get(l['c'][0]['v']) == 'iter':
                    st.inv.pop(l['c'][0]['v'], None)
                for P in self.loc(l, st):
                    self.unmove(st, P)
                    if len(P) == 1:
                        self.kill_root(st, P[0])
                if isa(self.fn.ty(l).get('s', ''), OWN) and r is not None and (r['k'] == 'Null0' or r['k'] in ('Cast', 'Ctor') and self.isnull(r)):
                    for P in self.loc(l, st):
                        st.moved[P] = (n.get('l'), '= nullptr')
        elif kk in ('CAssign',) and n['c'][0]['k'] == 'Var' or kk == 'Un' and n['op'] in ('++', '--') and n['c'][0]['k'] == 'Var':
            pass

    def through(self, n):
        """does the expression designate an element via an iterator?"""
        while n is not None:
            if n['k'] == 'OCall' and n['op'] in ('->', '*') and self.holder(n['c'][0].get('t')) == 'iter':
                return True
            if n['k'] == 'Var':
                return self.decls.get(n['v'], ({}, 0))[0].get('t') is None and n['v'] not in self.pid
            n = n.get('obj') or (n['c'][0] if n.get('c') else None)
        return False

    def isnull(self, n):
        while n is not None:
            if n['k'] == 'Null0':
                return True
            if n['k'] in ('Cast', 'Ctor') and n.get('c') and len(n['c']) == 1:
                n = n['c'][0]
                continue
            return False
        return False

    def lazy(self, n):
        """is n part of `if (!m_done) { ...; m_done = true; }`? Then it happens before anything of it has been handed out"""
        p = self.parent.get(id(n))
        while p is not None:
            if p['k'] == 'If' and p.get('cond') is not None:
                c = p['cond']
                while c['k'] == 'Cast':
                    c = c['c'][0]
                if c['k'] == 'Un' and c['op'] == '!':
                    c = c['c'][0]
                    while c['k'] == 'Cast':
                        c = c['c'][0]
                    flag = self.sh.acc.key(self.fn, c)
                    if flag and flag.startswith('this.'):
                        for x in nodes(p['then']):
                            if x['k'] == 'Assign' and x['c'][1].get('cv') == 1 and self.sh.acc.key(self.fn, x['c'][0]) == flag:
                                return True
            p = self.parent.get(id(p))
        return False

    def export(self, kind, P, n):
        r = P[0]
        if len(P) > 6 or self.lazy(n):
            return
        if r == 'this' or r in self.pid or ('lambda' in self.fn.d and r not in self.decls and not str(r).startswith(('tmp:', 'g:'))):
            self.collect.kills.add((kind, P))

    def returns(self, a, st):
        rt = self.fn.d.get('rt', -1)
        if rt is None or rt < 0:
            return
        h = self.holder(rt)
        if not h:
            return
        e = a['c'][0]
        for P in (self.loc(e, st) if h == 'ref' else self.ptv(e, st)):
            if P[0] == 'this' or P[0] in self.pid or ('lambda' in self.fn.d and P[0] not in self.decls):
                if len(P) <= 6:
                    self.collect.ret.add(P)

    def decl(self, v, st, rep, nd):
        vid = v['id']
        if 'binding' in v:
            return
        # the variable comes into being anew: what refers to its previous incarnation is gone
        for w, b in list(st.bind.items()):
            if w != vid and any(p[0] == vid for p in b):
                st.inv.setdefault(w, (None, 'end of the scope of %s' % v['n']))
        self.unmove(st, (vid,))
        h = self.holder(v.get('t'))
        i = v.get('i')
        rf = next((p.a for lab, p in nd.pred if p.k == 'l' and p.a.get('loopvar') is v), None)
        if rf is not None:
            r = rf['range']
            src = self.ptv(r, st) if self.holder(r.get('t')) in ('view',) else self.ext(self.loc(r, st), '[]')
            pv = 'rf%d' % id(rf)
            via = self.holders_in(r, st)
            self.bind_var(st, pv, 'iter', src, via)
            if h == 'ref':
                self.bind_var(st, vid, 'ref', src, via | {pv})
            elif h:
                self.bind_var(st, vid, h, frozenset(), set())
            return
        if h is None:
            st.bind.pop(vid, None)
            st.kind.pop(vid, None)
            st.inv.pop(vid, None)
            return
        if i is None:
            self.bind_var(st, vid, h, frozenset(), set())
            return
        paths = self.loc(i, st) if h == 'ref' else self.ptv(i, st)
        self.bind_var(st, vid, h, paths, self.holders_in(i, st))
        if rep:
            self.tempcheck(v, vid, st, rep)

    def tempcheck(self, n, vid, st, rep):
        for P in st.bind.get(vid, ()):
            if str(P[0]).startswith('tmp:') and ('[]' in P or '*' in P):
                rep('temp', n, vid, (n.get('l'), 'the end of the statement'))

    def inside(self, node, scope):
        n = node
        for _ in range(200):
            if n is None:
                return False
            if n is scope:
                return True
            n = self.parent.get(id(n))
        return True

    def edge(self, nd, lab, m, st):
        """state along an edge"""
        if m.k == 'l':
            if nd.i < m.i:
                pv = 'rf%d' % id(m.a)
                if pv in st.bind or pv in st.inv:
                    st = st.copy()
                    st.bind.pop(pv, None)
                    st.inv.pop(pv, None)
        if nd.k == 'b' and lab in (True, False):
            # a smart pointer known to be set has not been moved from
            c = nd.a
            while c['k'] == 'Cast' and c.get('c'):
                c = c['c'][0]
            if c['k'] == 'MCall' and 'operator bool' in c.get('q', '') and lab and st.moved:
                L = self.objloc(c, st)
                if any(p in st.moved for p in L):
                    st = st.copy()
                    for p in L:
                        st.moved.pop(p, None)
        return st

    # ---- uses
    def check(self, nd, st, rep):
        k = nd.k
        if k == 'l':
            pv = 'rf%d' % id(nd.a)
            if pv in st.inv:
                rep('use', nd.a, pv, st.inv[pv])
            return
        for y in self.uses.get(nd.i, ()):
            v = y['v']
            h = st.kind.get(v)
            if h:
                par = self.parent.get(id(y))
                if self.is_write(y, par):
                    continue
                if h == 'ptr' and not self.deref(y):
                    continue
                if v in st.inv:
                    rep('use', y, v, st.inv[v])
                    continue
                bad = None
                for P in st.bind.get(v, ()):
                    d = self.decls.get(P[0])
                    if d and d[1] is not None and not d[0].get('static') and not (h != 'ref' and self.holder(d[0].get('t')) and len(P) > 1) \
                            and P != (v, '*') and not self.inside(y, d[1]):
                        bad = d
                if bad:
                    rep('use', y, v, (None, 'the end of the scope of %s' % bad[0]['n']))
                else:
                    rep('ok', y, v, None)
        if k == 'e' and st.moved:
            self.check_moved(nd.a, st, rep)
        elif k == 'e' and nd.a['k'] in ('Member', 'MCall', 'OCall', 'Call', 'Ctor', 'Cast'):
            pass
        if k == 'r' and nd.a.get('c') and nd.a['c'][0]:
            rt = self.fn.d.get('rt', -1)
            h = self.holder(rt) if rt is not None and rt >= 0 else None
            if h:
                e = nd.a['c'][0]
                for P in (self.loc(e, st) if h == 'ref' else self.ptv(e, st)):
                    d = self.decls.get(P[0])
                    if str(P[0]).startswith('tmp:'):
                        rep('ret', e, 'a temporary', None)
                    elif d and not d[0].get('static') and (not self.holder(d[0].get('t')) or P == (P[0],)) and self.owned(d[0], P):
                        rep('ret', e, d[0]['n'], None)
                    elif P[0] in self.pid and self.byvalue(P) :
                        rep('ret', e, self.fn.params[self.pid[P[0]]].get('n', '?'), None)
                    else:
                        rep('rok', e, '', None)

    def owned(self, d, P):
        t = self.T[d['t']] if d.get('t', -1) >= 0 else {}
        return '*' not in P[1:] or isa(t.get('s', ''), OWN) and P[1:2] == ('*',) and '*' not in P[2:] and not t.get('s', '').startswith('std::shared_ptr')

    def byvalue(self, P):
        prm = self.fn.params[self.pid[P[0]]]
        t = self.T[prm['t']] if prm.get('t', -1) >= 0 else {}
        return t.get('k') == 'rec' and '*' not in P[1:] and not self.holder(prm['t']) and isa(t['s'], SEQ + NODE)

    def is_write(self, y, par):
        if par is not None and par['k'] == 'Member' and par.get('n') in ('first', 'second') and not par.get('arrow'):
            g = self.parent.get(id(par))
            if g is not None and (g['k'] == 'Assign' or g['k'] == 'OCall' and g['op'] == '=') and g['c'][0] is par:
                return True
        return par is not None and (par['k'] == 'Assign' or par['k'] == 'OCall' and par['op'] == '=') and par['c'] and par['c'][0] is y and self.holder(y.get('t')) != 'ref' \
            and (self.decls.get(y['v'], ({}, 0))[0].get('t') is None or self.holder(self.decls[y['v']][0]['t']) != 'ref')

    def deref(self, y):
        """is the pointer value read here dereferenced or handed out?"""
        n, p = y, self.parent.get(id(y))
        while p is not None and p['k'] == 'Cast':
            if self.fn.ty(p).get('k') == 'bool':
                return False
            n, p = p, self.parent.get(id(p))
        if p is None:
            return False
        k = p['k']
        if k == 'Un':
            return p['op'] == '*' or p['op'] in ('++', '--')
        if k == 'Member':
            return True
        if k == 'Index':
            return p['c'][0] is n
        if k == 'MCall':
            return p.get('obj') is n or any(c is n for c in p['c'])
        if k in ('Call', 'Ctor', 'OCall', 'Return'):
            return True
        return False

    def check_moved(self, n, st, rep):
        """n evaluates an lvalue (or reads a member) which has been moved from"""
        k = n['k']
        cand = []
        if k == 'Member' or k in ('MCall', 'OCall', 'Call', 'Ctor', 'Cast'):
            kids = ([n['obj']] if n.get('obj') else []) + [c for c in n.get('c', ()) if c]
            for c in kids:
                if c['k'] in ('Var', 'Member', 'Index', 'OCall', 'MCall'):
                    cand.append(c)
        q = n.get('q', '')
        m = meth(q) if q else ''
        for c in cand:
            if c['k'] == 'MCall' and c.get('pr') or c['k'] == 'OCall' and (c.get('pr') or c['op'] == '='):
                continue
            t = self.fn.ty(c)
            L = self.loc(c, st)
            hit = next((P for x in L for P in st.moved if x[:len(P)] == P), None)
            if hit is None:
                continue
            exact = any(x == hit for x in L)
            own = isa(t.get('s', ''), OWN)
            if k == 'Member':
                # part of a moved object: only its use matters (checked at the outermost access)
                continue
            if k == 'OCall' and n['op'] == '=' and n['c'][0] is c:
                continue
            if k == 'Cast' and exact and n.get('ck') not in ('LValueToRValue',):
                continue
            if k == 'MCall' and n.get('obj') is c and m in ('clear', 'reset', 'assign', 'swap', 'resize', 'emplace', 'operator bool', 'get', 'has_value', 'release'):
                if m != 'get' or not self.getderef(n):
                    continue
            if own and k == 'OCall' and n['op'] in ('==', '!='):
                continue
            if own and exact and (st.moved[hit][1] in ('reset()', '= nullptr') or hit[0] not in self.decls and hit[0] not in self.pid or len(hit) > 1) \
                    and not (k == 'OCall' and n['op'] in ('->', '*')):
                continue  # an owner is known to be empty afterwards
            if k == 'MCall' and n.get('obj') is c and exact and self.scalar(n):
                continue
            mu = n.get('mu') or ()
            args = n['c'][1:] if k == 'OCall' and n.get('m') else n.get('c', [])
            idx = next((i for i, x in enumerate(args) if x is c), None)
            if k == 'Call' and q == 'std::move' and False:
                continue
            if idx is not None and idx < len(mu) and mu[idx] and k != 'Ctor' and q not in SAME and not (k == 'OCall' and n['op'] in ('->', '*', '[]')):
                continue
            if idx is not None and k in ('Call', 'MCall') and exact and self.readscalar(n, idx):
                continue
            rep('moved', c, hit, st.moved[hit])

    def scalar(self, n):
        """accessor returning a member which is copied when moving"""
        g = self.sh.acc.trivial(n.get('fn'))
        if not g:
            return False
        e = g[1]
        while e is not None and e['k'] == 'Cast' and e.get('c'):
            e = e['c'][0]
        return e is not None and g[0].ty(e).get('k') in ('int', 'bool', 'enum', 'float')

    def readscalar(self, n, idx):
        """the called functions only use accessors on the object passed by reference which return a member copied when moving"""
        fns = [self.sh.p.fns.get(t) for t in self.sh.p.targets(n)] if 'fn' in n else []
        if not fns or any(g is None or not g.body or idx >= len(g.params) for g in fns):
            return False
        for g in fns:
            v = g.params[idx]['id']
            if g.T[g.params[idx]['t']].get('k') != 'ref':
                return False
            uses = sum(1 for x in g.nodes() if x['k'] == 'Var' and x.get('v') == v)
            plain = sum(1 for x in g.nodes() if x['k'] == 'MCall' and x.get('obj') and x['obj']['k'] == 'Var' and x['obj'].get('v') == v and self.scalar(x))
            if uses != plain:
                return False
        return True

    def getderef(self, n):
        p = self.parent.get(id(n))
        while p is not None and p['k'] == 'Cast' and self.fn.ty(p).get('k') != 'bool':
            n, p = p, self.parent.get(id(p))
        return p is not None and (p['k'] == 'Un' and p['op'] == '*' or p['k'] == 'Member' or p['k'] == 'MCall' and p.get('obj') is n)

    # ---- fixpoint
    def run(self, collect=None, rep=None):
        self.collect = collect
        self.pending = {}
        cfg = self.cfg
        order = self.fn.extra.get('lrpo')
        if order is None:
            seen, post = set(), []
            st = [(cfg.entry, iter(cfg.entry.succ))]
            seen.add(cfg.entry.i)
            while st:
                nd, it = st[-1]
                for lab, m in it:
                    if m.i not in seen:
                        seen.add(m.i)
                        st.append((m, iter(m.succ)))
                        break
                else:
                    post.append(nd)
                    st.pop()
            order = self.fn.extra['lrpo'] = {nd.i: i for i, nd in enumerate(reversed(post))}
        import heapq
        s0 = State()
        for p in self.fn.params:
            h = self.holder(p.get('t'))
            if h and h != 'ref':
                s0.kind[p['id']] = h
                s0.bind[p['id']] = frozenset([(p['id'], '*')])
        ins = {cfg.entry.i: s0}
        byi = {nd.i: nd for nd in cfg.nodes}
        heap = [(order[cfg.entry.i], cfg.entry.i)]
        queued = {cfg.entry.i}
        cnt = 0
        while heap:
            _, i = heapq.heappop(heap)
            queued.discard(i)
            nd = byi[i]
            cnt += 1
            if cnt > 60000:
                break
            st = ins[i].copy()
            pre = ins[i]
            self.node(nd, st)
            for lab, m in nd.succ:
                s = st
                if isinstance(lab, tuple) and lab[0] == 'x' and nd.k == 'e' and nd.a['k'] in ('Assign',):
                    s = pre
                s = self.edge(nd, lab, m, s)
                old = ins.get(m.i)
                if old is None:
                    ins[m.i] = s.copy()
                    ch = True
                else:
                    ch = old.join(s)
                if ch and m.i not in queued and m.i in order:
                    queued.add(m.i)
                    heapq.heappush(heap, (order[m.i], m.i))
        if rep:
            self.collect = None
            for nd in cfg.nodes:
                if nd.i in ins:
                    self.node(nd, ins[nd.i].copy(), rep)
        return ins


class State:
    __slots__ = ('bind', 'kind', 'inv', 'moved', 'via')

    def __init__(self):
        self.bind, self.kind, self.inv, self.moved, self.via = {}, {}, {}, {}, {}

    def copy(self):
        s = State()
        s.bind, s.kind, s.inv, s.moved, s.via = dict(self.bind), dict(self.kind), dict(self.inv), dict(self.moved), dict(self.via)
        return s

    def join(self, o):
        ch = False
        for v, b in o.bind.items():
            x = self.bind.get(v)
            if x is None:
                self.bind[v] = b
                ch = True
            elif not b <= x:
                x = x | b
                self.bind[v] = x if len(x) <= MAXSET else frozenset([(v, '*')])
                ch = ch or self.bind[v] != x or True
        for a, b in ((self.kind, o.kind), (self.inv, o.inv), (self.moved, o.moved)):
            for v, w in b.items():
                if v not in a:
                    a[v] = w
                    ch = True
        for v, w in o.via.items():
            x = self.via.get(v)
            if x is None or not w <= x:
                self.via[v] = (x or frozenset()) | w
                ch = True
        return ch


class Summary:
    __slots__ = ('kills', 'ret')

    def __init__(self):
        self.kills, self.ret = set(), set()


def summaries(sh, rounds=5):
    """what each function of the repository invalidates and returns, in terms of its object and parameters"""
    fns = [f for f in sh.p.repo_fns() if f.body or f.inits]
    summ = {f.id: Summary() for f in fns}
    todo = fns
    lf = {}
    callers = {}
    for f in fns:
        for n, ts in sh.calls(f):
            for t in ts:
                callers.setdefault(t, set()).add(f.id)
    for r in range(rounds):
        nxt = set()
        for f in todo:
            l = lf.get(f.id)
            if l is None:
                l = lf[f.id] = Life(sh, f, summ)
            s = Summary()
            l.run(s)
            o = summ[f.id]
            if not (s.kills <= o.kills and s.ret <= o.ret):
                o.kills |= s.kills
                o.ret |= s.ret
                nxt |= callers.get(f.id, set())
        todo = [f for f in fns if f.id in nxt]
        if not todo:
            break
    return summ, lf
