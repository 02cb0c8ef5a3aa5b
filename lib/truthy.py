"""Proves that an expression is non-zero / non-null where it is used: constants, facts established by dominating branches,
constant locals, the arguments passed at every call site for parameters, values returned on every path for calls."""
from access import lroot
from cfg import CFG
from facts import nodes as walk
from guards import Facts, nonnull_expr


class Truthy:
    def __init__(self, sh):
        self.sh, self.p, self.acc, self.mod = sh, sh.p, sh.acc, sh.mod
        self.facts = {}
        self.assumed = []      # (predicate(fn, expr) -> reason)
        self._callers = None
        self._ctors = None
        self._active = set()
        self._ret = {}
        self.why = []
        self._fi = None
        self._nulls = None
        self._bound = None

    # ---- facts
    def at(self, fn):
        r = self.facts.get(fn.id)
        if r is None:
            self.sh.exc.env = {}
            self.sh.exc.cur_key = (fn.id, ())
            cfg = CFG(fn, self.sh.exc.callee_exc, True, self.sh.cfgs.nr)
            f = Facts(self.p, self.acc, self.mod, cfg, self.nulls())
            idx = {}
            for n in cfg.nodes:
                if isinstance(n.a, dict):
                    idx.setdefault(id(n.a), n)
                    if n.k == 'd' and n.a.get('i'):
                        idx.setdefault(id(n.a['i']), n)
            r = self.facts[fn.id] = (cfg, f, idx)
        return r

    def known(self, fn, node, key, val=True):
        """does a dominating branch establish that key is true (false)?"""
        cfg, f, idx = self.at(fn)
        n = idx.get(id(node))
        if n is None:
            return None
        fs = f.at(n)
        if fs is None:
            return 'unreachable'
        if ('t', key, val) in fs:
            return 'established by a dominating branch'
        if val:
            for x in fs:
                if x[0] == 'c':
                    op, a, b = x[1]
                    if a == key and b.startswith('#') and b[1:].lstrip('-').isdigit():
                        c = int(b[1:])
                        if op == '>' and c >= 0 or op == '>=' and c > 0 or op == '==' and c or op == '!=' and c == 0 or op == '<' and c <= 0 and False:
                            return 'established by a dominating comparison'
                    if op == '>' and a == key or op == '<' and b == key:
                        return 'greater than another unsigned value' if self._unsigned(fn, x) else None
        return None

    def _unsigned(self, fn, x):
        return False

    # ---- containers of pointers: every inserted element is non-null
    def elem_type(self, t, fn):
        """canonical name of the container type if its elements are (smart) pointers"""
        s = t.get('s', '')
        if s.startswith('const '):
            s = s[6:]
        for c in ('std::vector<', 'std::list<', 'std::deque<'):
            if s.startswith(c):
                a = t.get('ta')
                if a:
                    e = fn.T[a[0]]
                    if e.get('k') == 'ptr' or e.get('s', '').startswith(('std::unique_ptr<', 'std::shared_ptr<')):
                        return s
        return None

    def element_of(self, fn, n):
        """container expression if n designates an element of a container of pointers"""
        while n is not None and n['k'] == 'Cast' and n.get('c'):
            n = n['c'][0]
        k = n['k']
        if k == 'Var':
            c = self.loopvars(fn).get(n['v'])
            if c is not None and n['v'] not in self.locals(fn)[1]:
                return (fn, c) if self.elem_type(fn.ty(c), fn) else None
            if self.bound_only(fn, n['v']):
                return fn, None, fn.ty(n)['s'].replace('const TagParser::', 'TagParser::')
            return None
        if k == 'Member' and n['n'] == 'second' and fn.ty(n).get('k') == 'ptr':
            return fn, None, 'map:' + fn.ty(n)['s'].replace('const TagParser::', 'TagParser::')
        if k == 'MCall' and n.get('obj') is not None and n['q'].split('::')[-1] in ('front', 'back', 'at') and self.elem_type(fn.ty(n['obj']), fn):
            return fn, n['obj']
        if k == 'OCall' and n['op'] == '[]' and self.elem_type(fn.ty(n['c'][0]), fn):
            return fn, n['c'][0]
        if k == 'OCall' and n['op'] in ('*', '->') and len(n['c']) == 1 and '__normal_iterator' in n.get('q', ''):
            e = fn.ty(n)
            if n['op'] == '->' and e.get('k') == 'ptr':
                e = fn.T[e['e']]
            s = e.get('s', '').replace('const std::', 'std::', 1)
            return (fn, None, s) if s.startswith(('std::unique_ptr<TagParser', 'std::shared_ptr<TagParser')) else None
        return None

    def bound_only(self, fn, v):
        """parameter of a predicate which is only passed to std::bind (for standard algorithms going through a container of pointers)"""
        if self._bound is None:
            self._bound, called = set(), set()
            for f in self.p.fns.values():
                for n in f.nodes():
                    if n['k'] == 'Call' and n.get('q') == 'std::bind':
                        self._bound.update(x['fn'] for x in walk(n['c'][0]) if x['k'] == 'FnRef')
                    elif n['k'] in ('Call', 'MCall'):
                        called.update(self.p.targets(n) if 'fn' in n else ())
            self._bound -= called
        return fn.id in self._bound and any(p.get('id') == v for p in fn.params)

    def all_of_list(self, fn, n, depth):
        """variable of a loop over a list of addresses"""
        c = self.loopvars(fn).get(n['v'])
        if c is None or n['v'] in self.locals(fn)[1]:
            return None
        for x in walk(c):
            if x['k'] == 'InitList' and x.get('c'):
                return 'element of a list of addresses' if all(self.prove(fn, x, y, depth + 1) for y in x['c']) else None
        return None

    def loopvars(self, fn):
        r = fn.extra.get('loopvars')
        if r is None:
            r = fn.extra['loopvars'] = {n['loopvar']['id']: n['range'] for n in fn.nodes() if n['k'] == 'RangeFor' and n.get('loopvar') and 'id' in n['loopvar']}
        return r

    def elements(self, c, depth):
        """all elements ever inserted into containers of that element type are non-null"""
        fn = c[0]
        if c[1] is None:
            key = c[2]
        else:
            t = fn.ty(c[1])
            key = fn.T[t['ta'][0]]['s']
        if key in self._ret:
            return self._ret[key]
        self._ret[key] = 'element of a container'      # (coinductive)
        if key.startswith('map:'):
            return self.map_values(key, depth)
        for f in self.p.fns.values():
            for n in f.nodes():
                if n['k'] == 'MCall' and n.get('obj') is not None and 'map<' not in f.ty(n['obj']).get('s', '') and n['q'].split('::')[-1] in (
                        'push_back', 'emplace_back', 'insert', 'emplace', 'resize', 'push_front', 'emplace_front', 'assign'):
                    t = f.ty(n['obj'])
                    if not self.elem_type(t, f) or f.T[t['ta'][0]]['s'] != key:
                        continue
                    m = n['q'].split('::')[-1]
                    if m in ('push_back', 'emplace_back') and len(n['c']) == 1 and self.prove(f, n, n['c'][0], depth + 1):
                        continue
                    if m == 'emplace_back' and not n['c'] and self.assigned_next(f, n):
                        continue
                    self._ret[key] = None
                    self.why.append('%s: inserts a possibly null element' % f.where(n))
        return self._ret[key]

    def map_values(self, key, depth):
        for f in self.p.fns.values():
            for n in f.nodes():
                e = 0
                if n['k'] == 'MCall' and n.get('obj') is not None and n['q'].split('::')[-1] in ('emplace', 'insert', 'insert_or_assign', 'try_emplace'):
                    t = f.ty(n['obj'])
                    e = n['c'][-1] if len(n['c']) > 1 else None
                elif n['k'] == 'OCall' and n['op'] == '[]':
                    t = f.ty(n['c'][0])
                    e = None
                if e == 0 or 'map<' not in t.get('s', '') or len(t.get('ta') or []) < 2 or f.T[t['ta'][1]].get('s') != key[4:]:
                    continue
                while e is not None and (e['k'] == 'Cast' and e.get('c') or e['k'] == 'Call' and e.get('q') == 'std::forward_as_tuple' and len(e['c']) == 1):
                    e = e['c'][0]
                if e is None or not (self.prove(f, n, e, depth + 1) or self.prove(f, e, e, depth + 1)):
                    self._ret[key] = None
                    self.why.append('%s: inserts a possibly null element' % f.where(n))
        return self._ret[key]

    def assigned_next(self, f, n):
        return False

    # ---- members which only ever receive non-null values
    def field(self, q, depth):
        if q in self._ret:
            return self._ret[q]
        self._ret[q] = 'member which only receives non-null values'
        info = self.fieldinfo().get(q)
        ok = info is not None
        if ok:
            for f, n, e in info:
                if e is None or not self.prove(f, n, e, depth + 1):
                    ok = False
                    break
        if not ok:
            self._ret[q] = None
        return self._ret[q]

    def fieldinfo(self):
        if self._fi is None:
            fi = self._fi = {}
            rec = {}
            for r in self.p.records.values():
                for x in r.get('fields', []):
                    rec.setdefault(r['n'], []).append(x)
            for f in self.p.fns.values():
                if f.d.get('role') in ('copyctor', 'movector') and not f.inits:
                    continue    # implicit or deleted; copies the (non-null) value of another object
                if f.d.get('role') in ('ctor', 'copyctor', 'movector') and f.rec and not any('deleg' in i for i in f.inits):
                    got = set()
                    for i in f.inits:
                        if 'm' in i:
                            got.add(i['m'])
                            fi.setdefault(f.rec + '::' + i['m'], []).append((f, i.get('e'), i.get('e')))
                    for x in rec.get(f.rec, []):
                        if x['n'] not in got:
                            fi.setdefault(f.rec + '::' + x['n'], []).append((f, None, None))
                for n in f.nodes():
                    k = n['k']
                    if k in ('Assign', 'CAssign') or k == 'OCall' and n['op'] == '=':
                        x = n['c'][0]
                        while x and x['k'] == 'Cast':
                            x = x['c'][0]
                        if x and x['k'] == 'Member':
                            fi.setdefault(x['q'], []).append((f, n, n['c'][1] if n['op'] == '=' else None))
                    elif k == 'Un' and n['op'] in ('++', '--') and n['c'][0]['k'] == 'Member':
                        fi.setdefault(n['c'][0]['q'], []).append((f, n, None))
                    elif k == 'MCall' and n.get('obj') is not None and not n.get('mc') and n['obj']['k'] == 'Member':
                        m = n['q'].split('::')[-1]
                        if n['q'].startswith(('std::unique_ptr', 'std::shared_ptr', 'std::optional', 'std::__shared_ptr')) and m in ('reset', 'swap', 'release', 'emplace'):
                            fi.setdefault(n['obj']['q'], []).append((f, n, n['c'][0] if n.get('c') and n['c'][0] and n['c'][0]['k'] != 'DefArg' else None))
                    if k in ('Call', 'MCall', 'OCall', 'Ctor'):
                        for x in self.mod._refargs(n, f):
                            while x and x['k'] in ('Cast', 'Un') and x.get('c'):
                                x = x['c'][0]
                            if x and x['k'] == 'Member' and k != 'OCall' and not n.get('q', '').startswith(('std::move', 'std::forward')):
                                fi.setdefault(x['q'], []).append((f, n, None))
        return self._fi

    def nulls(self):
        """fields which may become null within each function, transitively"""
        if self._nulls is None:
            d = {}
            pt = set()
            for r in self.p.records.values():
                for x in r.get('fields', []):
                    pt.add(r['n'] + '::' + x['n'])
            for q, info in self.fieldinfo().items():
                for f, n, e in info:
                    if n is not None and f.d.get('role') not in ('ctor', 'copyctor', 'movector') and (e is None or not nonnull_expr(f, e)):
                        d.setdefault(f.id, set()).add(q)
            # fields modified otherwise than by the assignments which have been looked at
            seen = {}
            for q, info in self.fieldinfo().items():
                for f, n, e in info:
                    seen.setdefault(f.id, set()).add(q)
            for fid, m in self.mod.direct.items():
                d.setdefault(fid, set()).update(m - seen.get(fid, set()))
            callers = {}
            for f in self.p.fns.values():
                for n in f.nodes():
                    ts = self.p.targets(n) if n['k'] in ('Call', 'MCall', 'OCall', 'Ctor') and 'fn' in n else n['fns'] if n['k'] == 'Lambda' else ()
                    for t in ts:
                        callers.setdefault(t, set()).add(f.id)
            work = list(d)
            while work:
                x = work.pop()
                for c in callers.get(x, ()):
                    s = d.setdefault(c, set())
                    if not d[x] <= s:
                        s |= d[x]
                        work.append(c)
            self._nulls = d
            for fid in self.p.fns:
                d.setdefault(fid, set())
        return self._nulls

    # ---- callers
    def callers(self, fid):
        if self._callers is None:
            self._callers = {}
            for f in self.p.fns.values():
                for n in f.nodes():
                    if n['k'] in ('Call', 'MCall', 'OCall', 'Ctor') and 'fn' in n:
                        for t in self.p.targets(n):
                            self._callers.setdefault(t, []).append((f, n))
                    for t in self.made(f, n):
                        self._callers.setdefault(t, []).append((f, n))
        return self._callers.get(fid, [])

    def made(self, f, n):
        """constructors possibly invoked by make_unique<T>(…), make_shared<T>(…), container.emplace_back(…)"""
        if n['k'] not in ('Call', 'MCall') or 'q' not in n:
            return []
        m = n['q'].split('::')[-1].split('<')[0]
        if m in ('make_unique', 'make_shared'):
            t = f.ty(n)
        elif m in ('emplace_back', 'emplace', 'emplace_front') and n.get('obj') is not None:
            t = f.ty(n['obj'])
        else:
            return []
        if not t.get('ta'):
            return []
        e = f.T[t['ta'][-1 if m == 'emplace' and 'map' in t.get('s', '') else 0]].get('s', '')
        if not e.startswith('TagParser::'):
            return []
        if self._ctors is None:
            self._ctors = {}
            for c in self.p.fns.values():
                if c.d.get('role') == 'ctor' and c.rec:
                    self._ctors.setdefault(c.rec, []).append(c)
        return [c.id for c in self._ctors.get(e, []) if len(c.params) >= len(n['c'])]

    def args(self, n):
        a = n.get('c', [])
        return a[1:] if n['k'] == 'OCall' and n.get('m') else a

    # ---- local variables
    def locals(self, fn):
        r = fn.extra.get('tlocals')
        if r is None:
            ini, mult = {}, set()
            for n in fn.nodes():
                k = n['k']
                if k == 'DeclStmt':
                    for d in n['decls']:
                        if 'id' in d:
                            if d['id'] in ini:
                                mult.add(d['id'])
                            ini[d['id']] = d
                elif k in ('Assign', 'CAssign') or k == 'Un' and n['op'] in ('++', '--') or k == 'OCall' and n['op'] in ('=', '+=', '-='):
                    x = n['c'][0]
                    while x and x['k'] == 'Cast':
                        x = x['c'][0]
                    if x and x['k'] == 'Var':
                        mult.add(x['v'])
                if k in ('Call', 'MCall', 'OCall', 'Ctor'):
                    for x in self.mod._refargs(n, fn):
                        while x and (x['k'] == 'Cast' or x['k'] == 'Un' and x['op'] != '*'):   # "*x": what it points to is modified
                            x = x['c'][0]
                        if x and x['k'] == 'Var':
                            mult.add(x['v'])
            r = fn.extra['tlocals'] = (ini, mult)
        return r

    def strip(self, fn, n):
        """without casts which preserve the truth value"""
        while n is not None and n['k'] in ('Cast', 'DefArg', 'Opaque', 'DefInit') and n.get('c') and 'cv' not in n:
            a, b = fn.ty(n), fn.ty(n['c'][0])
            if a.get('k') in ('int', 'enum') and b.get('k') in ('int', 'enum') and a.get('w', 0) < b.get('w', 0):
                return n
            n = n['c'][0]
        return n

    def prove(self, fn, at, e, depth=0):
        """reason why e is truthy when the node at is evaluated, or None"""
        n = self.strip(fn, e)
        if n is None or depth > 8:
            return None
        if 'cv' in n:
            return 'constant %s' % n['cv'] if n['cv'] else None
        if nonnull_expr(fn, n):
            return 'non-null expression'
        k = n['k']
        for pred in self.assumed:
            r = pred(fn, n)
            if r:
                return r
        if k == 'Cast':
            return None
        key = self.acc.key(fn, n)
        if key is not None:
            r = self.known(fn, at, key)
            if r:
                return r
        if k == 'Ctor' and n.get('cm') and len(n.get('c', [])) == 1:
            return self.prove(fn, at, n['c'][0], depth + 1) or self.prove(fn, n, n['c'][0], depth + 1)
        if k == 'Cond':
            t, f = n['c'][1], n['c'][2]
            c = self.acc.key(fn, self.strip(fn, n['c'][0]))
            rt = self.prove(fn, at, t, depth + 1) or (c is not None and c == self.acc.key(fn, self.strip(fn, t)) and 'selected only if non-zero')
            rf = self.prove(fn, at, f, depth + 1)
            return 'both alternatives: %s / %s' % (rt, rf) if rt and rf else None
        if k == 'Call' and n.get('q') == 'std::max' and any(self.prove(fn, at, c, depth + 1) for c in n['c'][:2]) and fn.ty(n).get('u'):
            return 'maximum with a non-zero value'
        if k == 'Bin' and n['op'] == '+' and fn.ty(n).get('u') and fn.ty(n).get('w') == 64:
            for c in n['c']:
                if c.get('cv') and 0 < c['cv'] < 1 << 32:
                    return 'sum with a positive constant'
        if k == 'Bin' and n['op'] == '|':
            for c in n['c']:
                r = self.prove(fn, at, c, depth + 1)
                if r:
                    return r
        if k == 'Var':
            ini, mult = self.locals(fn)
            d = ini.get(n['v'])
            if d is not None and n['v'] not in mult and d.get('i'):
                r = self.prove(fn, d['i'] if id(d['i']) in self.at(fn)[2] else d, d['i'], depth + 1)
                return r and 'initialised with: ' + r
            for i, p in enumerate(fn.params):
                if p.get('id') == n['v'] and n['v'] not in mult:
                    r = self.param(fn, i, depth)
                    if r:
                        return r
            r = self.all_of_list(fn, n, depth)
            if r:
                return r
            if n['v'] in mult:
                r = self.assigned(fn, n['v'], depth)
                if r:
                    return r
        if k == 'Call' and n.get('q') in ('std::move', 'std::forward') and n['c']:
            return self.prove(fn, at, n['c'][0], depth + 1) or self.prove(fn, n, n['c'][0], depth + 1)
        if k in ('Assign', 'OCall') and n.get('op') == '=':
            return self.prove(fn, at, n['c'][1], depth + 1)
        if k == 'MCall' and n.get('q', '').split('::')[-1] in ('emplace_back', 'emplace_front', 'push_back') and len(n['c']) == 1 and self.elem_type(fn.ty(n['obj']), fn):
            return self.prove(fn, at, n['c'][0], depth + 1)
        c = self.element_of(fn, n)
        if c is not None:
            r = self.elements(c, depth)
            if r:
                return r
        if k == 'Member':
            r = self.field(n['q'], depth)
            if r:
                return r
        if k == 'MCall' and not n.get('c') and n.get('obj') is not None:
            g = self.acc.trivial(n['fn']) if not (n.get('virt') and self.p.all_overriders(n['fn'])) else None
            if g:
                e = self.strip(g[0], g[1])
                while e is not None and (e['k'] == 'MCall' and e.get('q', '').endswith('::get') and e.get('obj') or e['k'] == 'Un' and e['op'] == '&'):
                    if e['k'] == 'Un':
                        return 'address'
                    e = self.strip(g[0], e['obj'])
                if e is not None and e['k'] == 'Member':
                    r = self.field(e['q'], depth)
                    if r:
                        return r
            pass
        if k == 'MCall' and len(n.get('c', [])) == 1 and n.get('obj') is not None:
            r = self.within_count(fn, at, n)
            if r:
                return r
        if k == 'MCall' and not n.get('c') and n.get('obj') is not None:
            if n['q'].endswith(('::get', '::release')) and n['q'].startswith(('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::optional')):
                r = self.prove(fn, at, n['obj'], depth + 1)
                if r:
                    return r
        if k in ('Call', 'MCall', 'OCall') and 'fn' in n:
            ts = self.p.targets(n)
            if ts and all(t in self.p.fns and (self.returns(t, depth) or self.returns_here(fn, at, n, t, depth)) for t in ts):
                return 'never returns zero'
        return None

    def assigned(self, fn, v, depth):
        """all values assigned to the local variable are non-null"""
        key = (fn.id, 'v', v)
        if key in self._ret:
            return self._ret[key]
        self._ret[key] = None
        ws = []
        for n in fn.nodes():
            k = n['k']
            if k == 'DeclStmt':
                for d in n['decls']:
                    if d.get('id') == v and d.get('i'):
                        ws.append((d['i'], d['i']))
            elif k in ('CAssign',) or k == 'Un' and n['op'] in ('++', '--') or k == 'OCall' and n['op'] in ('+=', '-='):
                if lroot(n['c'][0]) == ('v', v):
                    return None
            elif (k == 'Assign' or k == 'OCall' and n['op'] == '=') and lroot(n['c'][0]) == ('v', v):
                ws.append((n, n['c'][1]))
            elif k == 'Lambda':
                for l in n['fns']:
                    lf = self.p.fns.get(l)
                    if lf and any(x['k'] == 'Var' and x['v'] == v for x in lf.nodes()):
                        return None
            if k in ('Call', 'MCall', 'OCall', 'Ctor') and not (k == 'OCall' and n['op'] == '='):
                for x in self.mod._refargs(n, fn):
                    if lroot(x) == ('v', v):
                        return None
        if ws and all(self.prove(fn, at, e, depth + 1) for at, e in ws):
            self._ret[key] = 'only assigned non-null values'
        return self._ret[key]

    def param(self, fn, i, depth):
        key = (fn.id, i)
        if key in self._active:
            return 'recursive'
        cs = self.callers(fn.id)
        if not cs:
            return None
        self._active.add(key)
        try:
            for f, n in cs:
                a = self.args(n)
                if i >= len(a) or a[i] is None or not self.prove(f, n, a[i], depth + 1):
                    return None
        finally:
            self._active.discard(key)
        return 'non-zero argument at each of the %d call site(s)' % len(cs)

    def within_count(self, fn, at, n):
        """x.track(i) where i is known to be below x.trackCount()"""
        m = n['q'].split('::')[-1]
        o, i = self.acc.key(fn, n['obj']), self.acc.key(fn, n['c'][0])
        if not n['q'].startswith('TagParser::') or o is None or i is None:
            return None
        cnt = '%s.%sCount()' % (o, m)
        cfg, facts, idx = self.at(fn)
        node = idx.get(id(at))
        fs = facts.at(node) if node is not None else None
        if fs is None:
            return None
        eq = {cnt}
        for _ in range(3):
            for x in fs:
                if x[0] == 'c' and x[1][0] == '==':
                    if x[1][1] in eq:
                        eq.add(x[1][2])
                    if x[1][2] in eq:
                        eq.add(x[1][1])
        for c in eq:
            if i == '#0' and ('t', c, True) in fs:
                return 'there is at least one'
            if any(('c', (op, i, c), True) in fs for op in ('<', '!=')) or any(('c', (op, c, i), True) in fs for op in ('>', '!=')):
                return 'index below the count'
        return None

    def returns_here(self, fn, at, n, fid, depth):
        """the null-returning paths of the (non-virtual) method contradict facts known at the call"""
        o = n.get('obj')
        if n['k'] != 'MCall' or o is None:
            return False
        okey = self.acc.key(fn, o)
        f = self.p.fns[fid]
        if okey is None or not f.body:
            return False
        cfg, facts, idx = self.at(fn)
        node = idx.get(id(at))
        here = facts.at(node) if node is not None else None
        if not here:
            return False
        fcfg, ffacts, fidx = self.at(f)
        rs = [r for r in f.nodes() if r['k'] == 'Return' and r.get('c') and r['c'][0]]
        for r in rs:
            if self.prove(f, r, r['c'][0], depth + 1):
                continue
            node = fidx.get(id(r))
            fs = ffacts.at(node) if node is not None else None
            if not fs or not any(self.contradicts(x, okey, here) for x in fs):
                return False
        return bool(rs)

    INV = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}

    def contradicts(self, x, okey, here):
        def sub(k):
            return okey + k[4:] if k.startswith('this') else k if k.startswith('#') else None
        if x[0] == 't':
            k = sub(x[1])
            return k is not None and ('t', k, not x[2]) in here
        op, a, b = x[1]
        a, b = sub(a), sub(b)
        return a is not None and b is not None and ('c', (self.INV[op], a, b), True) in here

    def returns(self, fid, depth):
        if fid in self._ret:
            return self._ret[fid]
        self._ret[fid] = False
        f = self.p.fns[fid]
        rs = [n for n in f.nodes() if n['k'] == 'Return' and n.get('c') and n['c'][0]]
        self._ret[fid] = bool(f.body) and bool(rs) and all(self.prove(f, n, n['c'][0], depth + 1) for n in rs)
        return self._ret[fid]
