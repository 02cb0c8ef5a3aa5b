"""Control-flow graphs over the dumped syntax trees.

Expressions are linearised in evaluation order; &&, ||, ! and ?: become branches. Every node is one evaluation step:
  ('e', ast)    an expression node takes its effect (all its operands are evaluated)
  ('d', decl)   a variable declaration (its initialiser has been evaluated)
  ('b', cond)   a branch on an atomic condition: edges labelled True / False
  ('s', cond)   a switch: edges labelled ('case', lo, hi) or 'default'
  ('l', ast)    range-for head: edges True (another element) / False
  ('h', catch)  handler entry
  ('r', ast)    return
  ('j', None)   join / no-op
entry, exit (normal return) and xexit (exceptional exit) are join nodes. Edges into handlers/xexit are labelled
('x', type, source)."""


DOCUMENTED = ('TagParser::Failure', 'std::ios_base::failure')


class Node:
    __slots__ = ('i', 'k', 'a', 'succ', 'pred', 'inc')

    def __init__(self, i, k, a):
        self.i, self.k, self.a = i, k, a
        self.succ = []
        self.pred = []
        self.inc = 0

    def __repr__(self):
        return 'N%d<%s %s>' % (self.i, self.k, (self.a or {}).get('k') if isinstance(self.a, dict) else '')




def listed(n):
    """elements a range-for iterates over if they are enumerated"""
    r = n.get('range')
    while r is not None and r['k'] in ('Cast', 'Opaque', 'Ctor', 'CXXStdInitializerListExpr') and len(r.get('c') or []) == 1:
        r = r['c'][0]
    return [x for x in r.get('c', []) if x] if r is not None and r['k'] == 'InitList' else []


EVAL = {'Call', 'MCall', 'OCall', 'Ctor', 'Assign', 'CAssign', 'Un', 'Bin', 'Index', 'Member', 'New', 'Delete', 'Lambda', 'Cast'}
EVENT = {'Call', 'MCall', 'OCall', 'Ctor', 'Assign', 'CAssign', 'New', 'Delete', 'Lambda'}


class CFG:
    def __init__(self, fn, exc=None, full=False, normal_return=None):
        """exc: function (fn, callnode, cur) -> {exception type: witness}; full: nodes for every expression (for value
        analyses), otherwise only for calls/assignments; normal_return(callnode) -> False if the call never returns"""
        self.fn = fn
        self.exc = exc
        self.full = full
        self.nr = normal_return
        self.nodes = []
        self.entry = self.new('j', None)
        self.exit = self.new('j', None)
        self.xexit = self.new('j', None)
        self.handlers = []  # stack of (collector)
        self.brk, self.cnt = [], []
        self.labels, self.gotos = {}, []
        self.loops = {}  # node -> ('turn' | 'end' | 'after', loop): first node of a turn, end of a turn, node after the loop
        self.cur_exc = None
        cur = self.entry
        for i in fn.inits:
            if i.get('e'):
                cur = self.expr(i['e'], cur)
            n = self.new('i', i)
            self.edge(cur, n)
            cur = n
        if fn.body:
            cur = self.stmt(fn.body, cur)
        if cur is not None:
            self.edge(cur, self.exit)
        for g, name in self.gotos:
            if name in self.labels:
                self.edge(g, self.labels[name])
        for n in self.nodes:
            for lab, m in n.succ:
                m.pred.append((lab, n))

    def new(self, k, a):
        n = Node(len(self.nodes), k, a)
        self.nodes.append(n)
        return n

    def edge(self, a, b, lab=None):
        if a is not None:
            a.succ.append((lab, b))
            b.inc += 1

    # ---- exceptions
    def raise_(self, n, types):
        """connects node n to the handlers which may receive the given exception types"""
        for t in types:
            done = False
            for col in reversed(self.handlers):
                for ht, hn, got in col:
                    if ht is None or (t != '@current' and self.fn.prog.isa(t, ht)):
                        self.edge(n, hn, ('x', t))
                        got.add(t)
                        done = True
                        break
                    if t == '@current':
                        self.edge(n, hn, ('x', t))
                        got.add(t)
                if t == '@current':
                    # an exception of unknown type: one of the documented ones (P02)
                    hts = [ht for ht, _, _ in col]
                    done = done or all(any(ht is not None and self.fn.prog.isa(x, ht) for ht in hts) for x in DOCUMENTED)
                if done:
                    break
            if not done:
                self.edge(n, self.xexit, ('x', t))

    def may_throw(self, n, ast):
        if self.exc is None:
            return
        ts = self.exc(self.fn, ast, {t: None for t in self.cur_exc} if self.cur_exc is not None else None)
        if ts:
            self.raise_(n, sorted(ts))

    # ---- expressions; return the current node
    def expr(self, n, cur):
        if n is None or cur is None:
            return cur
        k = n['k']
        if k == 'Bin' and n['op'] in ('&&', '||') or (k == 'Un' and n['op'] == '!' and self.complex(n['c'][0])):
            j = self.new('j', None)
            self.branch(n, cur, j, j)
            return j if j.inc else None
        if k == 'Cond':
            t, f, j = self.new('j', None), self.new('j', None), self.new('j', None)
            self.branch(n['c'][0], cur, t, f)
            a = self.expr(n['c'][1], t)
            b = self.expr(n['c'][2], f)
            self.edge(a, j)
            self.edge(b, j)
            return j
        if k == 'Throw':
            for c in n.get('c', []):
                cur = self.expr(c, cur)
            if cur is None:
                return None
            x = self.new('e', n)
            self.edge(cur, x)
            if 'tt' in n and n['c'] and n['c'][0]:
                self.raise_(x, [self.fn.T[n['tt']]['s']])
            else:
                self.raise_(x, sorted(self.cur_exc) if self.cur_exc is not None else ['@current'])
            return None
        if k == 'Lambda':
            for c in n.get('c', []):
                cur = self.expr(c, cur)
            return self.ev(n, cur)
        if k in ('Assign', 'CAssign'):
            for c in reversed(n['c']):
                cur = self.expr(c, cur)
            return self.ev(n, cur)
        if k == 'OCall' and n['op'] in ('=', '+=', '-=', '<<=', '|=', '&='):
            for c in reversed(n['c']):
                cur = self.expr(c, cur)
            return self.ev(n, cur)
        for key in ('obj', 'callee'):
            if n.get(key):
                cur = self.expr(n[key], cur)
        for c in n.get('c', []):
            if c:
                cur = self.expr(c, cur)
        if k in EVENT or (k == 'Un' and n['op'] in ('++', '--')) or (self.full and k in EVAL):
            return self.ev(n, cur)
        return cur

    def complex(self, n):
        if n is None:
            return False
        if n['k'] == 'Bin' and n['op'] in ('&&', '||'):
            return True
        return any(self.complex(c) for c in n.get('c', []) if c)

    def ev(self, n, cur):
        if cur is None:
            return None
        x = self.new('e', n)
        self.edge(cur, x)
        if n['k'] in ('Call', 'MCall', 'OCall', 'Ctor', 'Lambda'):
            self.may_throw(x, n)
            if self.nr and self.nr(n) is False:
                return None
        return x

    def branch(self, n, cur, t, f):
        """evaluate condition n, continue at t or f"""
        if cur is None:
            return
        k = n['k']
        if k == 'Bin' and n['op'] == '&&':
            m = self.new('j', None)
            self.branch(n['c'][0], cur, m, f)
            self.branch(n['c'][1], m, t, f)
            return
        if k == 'Bin' and n['op'] == '||':
            m = self.new('j', None)
            self.branch(n['c'][0], cur, t, m)
            self.branch(n['c'][1], m, t, f)
            return
        if k == 'Un' and n['op'] == '!':
            self.branch(n['c'][0], cur, f, t)
            return
        if k == 'Cast' and self.complex(n['c'][0]) and self.fn.ty(n).get('k') == 'bool':
            self.branch(n['c'][0], cur, t, f)
            return
        cur = self.expr(n, cur)
        if cur is None:
            return
        b = self.new('b', n)
        self.edge(cur, b)
        cv = n.get('cv')
        if cv is None or cv:
            self.edge(b, t, True)
        if cv is None or not cv:
            self.edge(b, f, False)

    # ---- statements
    def mark(self, n, first, end, after):
        self.loops[first.i] = ('turn', n)
        self.loops[end.i] = ('end', n)
        self.loops[after.i] = ('after', n)

    def stmt(self, n, cur):
        if n is None:
            return cur
        k = n['k']
        if cur is None and k not in ('Label', 'Case', 'Default', 'Compound', 'If', 'For', 'While', 'Do', 'Switch', 'Try'):
            return None
        if k == 'Compound':
            for c in n['c']:
                cur = self.stmt(c, cur)
            return cur
        if k == 'DeclStmt':
            for d in n['decls']:
                if d.get('i'):
                    cur = self.expr(d['i'], cur)
                if cur is None:
                    return None
                x = self.new('d', d)
                self.edge(cur, x)
                cur = x
            return cur
        if k == 'If':
            cur = self.stmt(n.get('init'), cur)
            cur = self.stmt(n.get('var'), cur)
            t, f, j = self.new('j', None), self.new('j', None), self.new('j', None)
            if n.get('cond') is None:
                # if constexpr with both ...
                self.edge(cur, t)
                self.edge(cur, f)
            else:
                self.branch(n['cond'], cur, t, f)
            a = self.stmt(n['then'], t if self.reach(t) else None)
            b = self.stmt(n['else'], f if self.reach(f) else None) if n['else'] else (f if self.reach(f) else None)
            self.edge(a, j)
            self.edge(b, j)
            return j if (a or b) else None
        if k in ('For', 'While'):
            cur = self.stmt(n.get('init'), cur)
            head, body, after, inc = self.new('j', None), self.new('j', None), self.new('j', None), self.new('j', None)
            self.mark(n, body, inc, after)
            self.edge(cur, head)
            c2 = self.stmt(n.get('var'), head)
            if n.get('cond'):
                self.branch(n['cond'], c2, body, after)
            else:
                self.edge(c2, body)
            self.brk.append(after)
            self.cnt.append(inc)
            e = self.stmt(n['body'], body)
            self.brk.pop()
            self.cnt.pop()
            self.edge(e, inc)
            e2 = self.expr(n.get('inc'), inc)
            self.edge(e2, head)
            return after if self.reach(after) else None
        if k == 'Do':
            body, after, cond = self.new('j', None), self.new('j', None), self.new('j', None)
            self.mark(n, body, cond, after)
            self.edge(cur, body)
            self.brk.append(after)
            self.cnt.append(cond)
            e = self.stmt(n['body'], body)
            self.brk.pop()
            self.cnt.pop()
            self.edge(e, cond)
            self.branch(n['cond'], cond, body, after)
            return after if self.reach(after) else None
        if k == 'RangeFor':
            cur = self.stmt(n.get('init'), cur)
            cur = self.expr(n['range'], cur)
            head, after, inc = self.new('l', n), self.new('j', None), self.new('j', None)
            v = self.new('d', n['loopvar']) if n.get('loopvar') else self.new('j', None)
            self.edge(cur, head)
            self.mark(n, v, inc, after)
            self.edge(head, v, True)
            self.edge(head, after, False)
            self.brk.append(after)
            self.cnt.append(inc)
            e = self.stmt(n['body'], v)
            self.brk.pop()
            self.cnt.pop()
            self.edge(e, inc)
            self.edge(inc, head)
            return after
        if k == 'Switch':
            cur = self.stmt(n.get('init'), cur)
            cur = self.stmt(n.get('var'), cur)
            cur = self.expr(n['cond'], cur)
            if cur is None:
                return None
            s = self.new('s', n['cond'])
            self.edge(cur, s)
            after = self.new('j', None)
            self.brk.append(after)
            self.sw = getattr(self, 'sw', [])
            self.sw.append([s, False])
            e = self.stmt(n['body'], None)
            _, hasdef = self.sw.pop()
            self.brk.pop()
            self.edge(e, after)
            if not hasdef:
                self.edge(s, after, 'default')
            return after if self.reach(after) else None
        if k in ('Case', 'Default'):
            s = self.sw[-1]
            j = self.new('j', None)
            self.edge(cur, j)
            if k == 'Case':
                lo = n['lhs'].get('cv')
                hi = n['rhs'].get('cv') if n.get('rhs') else lo
                self.edge(s[0], j, ('case', lo, hi))
            else:
                self.edge(s[0], j, 'default')
                s[1] = True
            c = n.get('c') or [None]
            return self.stmt(c[0], j)
        if k == 'Label':
            j = self.new('j', None)
            self.edge(cur, j)
            self.labels[n['n']] = j
            return self.stmt(n['c'][0], j)
        if k == 'Goto':
            x = self.new('j', None)
            self.edge(cur, x)
            self.gotos.append((x, n['n']))
            return None
        if k == 'Break':
            self.edge(cur, self.brk[-1])
            return None
        if k == 'Continue':
            self.edge(cur, self.cnt[-1])
            return None
        if k == 'Return':
            c = n.get('c') or []
            if c and c[0]:
                cur = self.expr(c[0], cur)
            if cur is None:
                return None
            x = self.new('r', n)
            self.edge(cur, x)
            self.edge(x, self.exit)
            return None
        if k == 'Try':
            col = []
            for h in n['handlers']:
                ht = self.fn.T[h['t']]['s'] if 't' in h else None
                col.append((ht, self.new('h', h), set()))
            self.handlers.append(col)
            e = self.stmt(n['body'], cur)
            self.handlers.pop()
            j = self.new('j', None)
            self.edge(e, j)
            live = e is not None
            for ht, hn, got in col:
                saved = self.cur_exc
                self.cur_exc = set(got)
                x = self.stmt(_catch_body(n, hn.a), hn)
                self.cur_exc = saved
                if x is not None:
                    self.edge(x, j)
                    live = True
            return j if live else None
        if k == 'Null':
            return cur
        return self.expr(n, cur)

    def reach(self, n):
        return n.inc > 0

    # ---- utilities
    def reachable(self, start=None, skip_exc=False):
        seen = set()
        st = [start or self.entry]
        while st:
            n = st.pop()
            if n.i in seen:
                continue
            seen.add(n.i)
            for lab, m in n.succ:
                if skip_exc and isinstance(lab, tuple) and lab[0] == 'x':
                    continue
                st.append(m)
        return seen

    def line(self, n):
        a = n.a
        if isinstance(a, dict):
            if 'l' in a:
                return a['l']
            if isinstance(a.get('i'), dict) and 'l' in a['i']:
                return a['i']['l']
        return None


def _catch_body(t, h):
    return h['body']


def path_lines(cfg, parent, node):
    """source lines of the path recorded in parent (node index -> predecessor node), compressed"""
    out = []
    n = node
    seen = set()
    while n is not None and n.i not in seen:
        seen.add(n.i)
        l = cfg.line(n)
        if l is not None and (not out or out[-1] != l):
            out.append(l)
        n = parent.get(n.i)
    return out[::-1]
