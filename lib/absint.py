"""Abstract evaluation of small, side effect free functions on their resolved syntax trees.

Integers are either constants or vectors of bits of which each is 0, 1 or a bit of the (only) symbolic input x; x is known to be in an interval.
A comparison which is not decided on the interval raises Split with the value of x at which its outcome changes, and the caller repeats the
evaluation on both parts: the result is an exact partition of all inputs. Strings, pairs, arrays and maps consist of constants.
Whatever is outside of this domain raises Unknown (no verdict)."""
from backup import strip


class Unknown(Exception):
    pass


class Split(Exception):
    def __init__(self, at):
        self.at = at    # first value of x of the upper part


class Thrown(Exception):
    def __init__(self, t):
        self.t = t


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class Sym:
    """bit vector; b[i] is 0, 1 or ('x', j)"""
    __slots__ = ('b', 'w', 'u')

    def __init__(self, b, w, u):
        self.b, self.w, self.u = b, w, u

    def at(self, x):
        v = 0
        for i, e in enumerate(self.b):
            if e == 1 or (e != 0 and (x >> e[1]) & 1):
                v |= 1 << i
        if not self.u and self.b[self.w - 1] == 1:
            v -= 1 << self.w
        return v


class Cell:
    """storage location"""
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = v


class Buf:
    def __init__(self, n=None):
        self.n = n
        self.bytes = {}     # index -> list of 8 bits (lowest first)


class Ptr:
    def __init__(self, o, i=0):
        self.o, self.i = o, i   # o: list | Buf | Cell

    def __eq__(self, p):
        return isinstance(p, Ptr) and p.o is self.o and p.i == self.i

    __hash__ = None


class Rec(dict):
    """fields"""
    pass


class Map:
    def __init__(self, items, ci, multi=False):
        self.items, self.ci = [], ci
        for k, v in items:
            self.add(k, v, multi)

    def norm(self, k):
        return k.lower() if self.ci and isinstance(k, str) else k

    def find(self, k):
        for i, e in enumerate(self.items):
            if self.norm(e['first']) == self.norm(k):
                return i
        return None

    def add(self, k, v, multi=False):
        if multi or self.find(k) is None:
            self.items.append(Rec(first=k, second=v))


class Lam:
    def __init__(self, fid, env, this):
        self.fid, self.env, self.this = fid, env, this


END = object()
MAXSTEPS = 60000


class Interp:
    """Interp(prog, lo, hi): x in [lo, hi]"""

    def __init__(self, prog, lo=0, hi=0, natives=None):
        self.p, self.lo, self.hi = prog, lo, hi
        self.natives = natives or {}
        self.statics = {}
        self.steps = 0

    # ---- symbolic input
    def x(self, w=64):
        b = []
        for i in range(w):
            if (self.lo >> i) == (self.hi >> i):
                b.append((self.lo >> i) & 1)
            else:
                b.append(('x', i))
        return self.mk(b, w, True)

    def mk(self, b, w, u):
        if all(e in (0, 1) for e in b):
            v = sum(e << i for i, e in enumerate(b))
            if not u and b[w - 1] == 1:
                v -= 1 << w
            return v
        return Sym(b, w, u)

    def bits(self, v, w):
        if isinstance(v, Sym):
            sign = 0 if v.u else v.b[v.w - 1]
            return (v.b + [sign] * w)[:w]
        if isinstance(v, bool):
            v = int(v)
        if not isinstance(v, int):
            raise Unknown('bits of %r' % (v,))
        return [(v >> i) & 1 for i in range(w)]

    def mono(self, s):
        """is s a monotone function of x? (the bits of x it consists of are all varying bits from some index on, in order, unsigned)"""
        js = [e[1] for e in s.b if e not in (0, 1)]
        if js != sorted(set(js)) or (not s.u and s.b[s.w - 1] not in (0, 1)):
            return False
        varying = [i for i in range(64) if (self.lo >> i) != (self.hi >> i)]
        # bits below the highest differing bit may be fixed in neither; all bits from js[0] to the highest one have to be included
        return bool(js) and js == [i for i in varying if i >= js[0]]

    def less(self, a, c):
        """a < c for a symbolic a and a constant c; may raise Split"""
        if not self.mono(a):
            mx = sum((1 if e != 0 else 0) << i for i, e in enumerate(a.b))
            mn = sum((1 if e == 1 else 0) << i for i, e in enumerate(a.b))
            if a.u:
                if mx < c:
                    return True
                if mn >= c:
                    return False
            raise Unknown('comparison')
        l, h = a.at(self.lo), a.at(self.hi)
        if h < c:
            return True
        if l >= c:
            return False
        lo, hi = self.lo, self.hi     # first x with a(x) >= c
        while lo < hi:
            m = (lo + hi) // 2
            if a.at(m) >= c:
                hi = m
            else:
                lo = m + 1
        raise Split(lo)

    def cmp(self, op, a, b):
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.b == b.b:
                return op in ('==', '<=', '>=')
            # two views of x of different shape: their order is decided on the interval only
            raise Unknown('comparison of two symbolic values')
        if isinstance(b, Sym):
            return self.cmp({'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op], b, a)
        if isinstance(a, Sym):
            if not isinstance(b, int):
                raise Unknown('comparison')
            if op == '<':
                return self.less(a, b)
            if op == '>=':
                return not self.less(a, b)
            if op == '<=':
                return self.less(a, b + 1)
            if op == '>':
                return not self.less(a, b + 1)
            eq = not self.less(a, b) and self.less(a, b + 1)
            if eq and a.at(self.lo) != a.at(self.hi):
                raise Unknown('equality')
            return eq if op == '==' else not eq
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
            a, b = a.i, b.i
        elif isinstance(a, Ptr) or isinstance(b, Ptr):
            if op in ('==', '!='):
                return (a == b) == (op == '==')
            raise Unknown('pointer comparison')
        if a is None or b is None or isinstance(a, (str, int)) and isinstance(b, (str, int)) and isinstance(a, str) != isinstance(b, str):
            if op in ('==', '!='):
                if a is None and b is None:
                    return op == '=='
            raise Unknown('comparison of %r and %r' % (a, b))
        try:
            return {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}[op]()
        except TypeError:
            raise Unknown('comparison')

    def truth(self, v):
        if isinstance(v, Sym):
            return self.cmp('!=', v, 0)
        if v is None or isinstance(v, (int, bool)):
            return bool(v)
        if isinstance(v, Ptr):
            return True
        raise Unknown('condition %r' % (v,))

    # ---- arithmetic
    def wrap(self, v, t):
        k = t.get('k')
        if k == 'bool':
            return self.truth(v)
        if k in ('int', 'enum') and 'w' in t:
            w, u = t['w'], bool(t.get('u'))
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                v &= (1 << w) - 1
                if not u and v >> (w - 1):
                    v -= 1 << w
                return v
            if isinstance(v, Sym):
                return self.mk(self.bits(v, w), w, u)
            if isinstance(v, float):
                return self.wrap(int(v), t)
        return v

    def arith(self, op, a, b, t):
        if isinstance(a, Ptr) and isinstance(b, int) and op in '+-':
            return Ptr(a.o, a.i + (b if op == '+' else -b))
        if isinstance(b, Ptr) and isinstance(a, int) and op == '+':
            return Ptr(b.o, b.i + a)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == '-' and a.o is b.o:
            return a.i - b.i
        if op == '+' and isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            if op in '/%' and b == 0 or op in ('<<', '>>') and not 0 <= b < 64:
                raise Unknown('undefined arithmetic')
            if op == '/':
                r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            elif op == '%':
                r = a - b * (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1))
            else:
                r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
                     '<<': lambda: a << b, '>>': lambda: a >> b}.get(op, lambda: None)()
            if r is None:
                raise Unknown(op)
            return self.wrap(r, t)
        w, u = t.get('w', 64), bool(t.get('u'))
        if not (isinstance(a, (int, Sym)) and isinstance(b, (int, Sym))):
            raise Unknown('arithmetic on %r, %r' % (a, b))
        if op in ('<<', '>>'):
            if not isinstance(b, int) or not 0 <= b < 64:
                raise Unknown('shift')
            x = self.bits(a, w)
            if op == '<<':
                return self.mk(([0] * b + x)[:w], w, u)
            fill = 0 if (not isinstance(a, Sym) or a.u) else a.b[a.w - 1]
            return self.mk(x[b:] + [fill] * min(b, w), w, u)
        if op in '*/%' and isinstance(b, int) and b > 0 and b & (b - 1) == 0:
            k = b.bit_length() - 1
            if op == '%':
                return self.arith('&', a, b - 1, t)
            if op == '*' or isinstance(a, Sym) and a.u:
                return self.arith('<<' if op == '*' else '>>', a, k, t)
        x, y = self.bits(a, w), self.bits(b, w)
        out = []
        for p, q in zip(x, y):
            if op == '&':
                r = 0 if 0 in (p, q) else q if p == 1 else p if q == 1 or p == q else None
            elif op == '|':
                r = 1 if 1 in (p, q) else q if p == 0 else p if q == 0 or p == q else None
            elif op == '^':
                r = q if p == 0 else p if q == 0 else 0 if p == q else (1 - p if q == 1 and p in (0, 1) else None)
            elif op == '+':
                r = q if p == 0 else p if q == 0 else None    # no carry possible
            else:
                r = None
            if r is None:
                raise Unknown('symbolic ' + op)
            out.append(r)
        return self.mk(out, w, u)

    # ---- functions
    def call(self, f, args, this=None, env=None):
        """args: values (or Cells for references)"""
        if f.body is None:
            raise Unknown('no body of ' + f.q)
        e = dict(env or {})
        for prm, a in zip(f.params, args):
            e[prm['id']] = a if isinstance(a, Cell) else Cell(a)
        try:
            self.stmt(f, f.body, e, this)
        except _Ret as r:
            return r.v
        return None

    def stmts(self, f, l, e, th):
        for s in l:
            self.stmt(f, s, e, th)

    def stmt(self, f, n, e, th):
        if n is None:
            return
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Unknown('too many steps')
        k = n['k']
        if k == 'Compound':
            self.stmts(f, n['c'], e, th)
        elif k == 'DeclStmt':
            for d in n['decls']:
                self.decl(f, d, e, th)
        elif k == 'If':
            self.stmt(f, n.get('init'), e, th)
            if n.get('var'):
                self.decl(f, n['var'], e, th)
            if self.truth(self.ev(f, n['cond'], e, th)):
                self.stmt(f, n['then'], e, th)
            else:
                self.stmt(f, n.get('else'), e, th)
        elif k in ('For', 'While', 'Do'):
            self.stmt(f, n.get('init'), e, th)
            first = k == 'Do'
            while True:
                self.steps += 1
                if self.steps > MAXSTEPS:
                    raise Unknown('too many steps')
                if not first:
                    if n.get('var'):
                        self.decl(f, n['var'], e, th)
                    if n.get('cond') and not self.truth(self.ev(f, n['cond'], e, th)):
                        break
                first = False
                try:
                    self.stmt(f, n['body'], e, th)
                except _Brk:
                    break
                except _Cont:
                    pass
                if n.get('inc'):
                    self.ev(f, n['inc'], e, th)
        elif k == 'RangeFor':
            self.stmt(f, n.get('init'), e, th)
            rng = self.ev(f, n['range'], e, th)
            if isinstance(rng, Ptr) and rng.i == 0:
                rng = rng.o
            if isinstance(rng, Map):
                rng = rng.items
            if not isinstance(rng, (list, str)):
                raise Unknown('range')
            for i in range(len(rng)):
                v = rng[i] if isinstance(rng, list) else ord(rng[i])
                lv = n['loopvar']
                lv = lv['decls'][0] if 'decls' in lv else lv
                self.bind(lv, v, e)
                try:
                    self.stmt(f, n['body'], e, th)
                except _Brk:
                    break
                except _Cont:
                    pass
        elif k == 'Switch':
            self.stmt(f, n.get('init'), e, th)
            if n.get('var'):
                self.decl(f, n['var'], e, th)
            self.switch(f, n, self.ev(f, n['cond'], e, th), e, th)
        elif k in ('Case', 'Default', 'Label'):
            for c in n['c'] if isinstance(n['c'], list) else [n['c']]:
                self.stmt(f, c, e, th)
        elif k == 'Return':
            c = n.get('c') or []
            raise _Ret(self.val(self.ev(f, c[0], e, th)) if c and c[0] else None)
        elif k == 'Break':
            raise _Brk()
        elif k == 'Continue':
            raise _Cont()
        elif k == 'Null':
            pass
        elif k == 'Try':
            self.stmt(f, n['body'], e, th)
        elif k == 'Goto':
            raise Unknown('goto')
        else:
            self.ev(f, n, e, th)

    def bind(self, d, v, e):
        if d.get('bind') and isinstance(d['bind'], list):
            items = list(v.values()) if isinstance(v, Rec) else list(v) if isinstance(v, list) else None
            if items is None or len(items) != len(d['bind']):
                raise Unknown('structured binding')
            for b, x in zip(d['bind'], items):
                e[b if isinstance(b, int) else b['id']] = Cell(x)
        e[d['id']] = Cell(v)

    def decl(self, f, d, e, th):
        if d.get('static'):
            key = (f.id, d['id'])
            if key not in self.statics:
                self.statics[key] = Cell(self.init(f, d, e, th))
            e[d['id']] = self.statics[key]
            if d.get('bind') and isinstance(d['bind'], list):
                self.bind(d, e[d['id']].v, e)
            return
        i = d.get('i')
        t = f.T[d['t']] if d.get('t', -1) >= 0 else {}
        if i and t.get('k') == 'ref':
            v = self.lv(f, i, e, th)
            if v is not None:
                e[d['id']] = v
                return
        v = self.val(self.init(f, d, e, th))
        self.bind(d, v, e)

    def init(self, f, d, e, th):
        i = d.get('i')
        t = f.T[d['t']] if d.get('t', -1) >= 0 else {}
        if i is None or (i['k'] == 'Ctor' and not i['c'] and t.get('k') == 'arr'):
            if t.get('k') == 'arr':
                et = f.T[t['e']]
                if et.get('w') == 8:
                    return Buf(t.get('n'))
                return [0] * (t.get('n') or 0)
            return None
        v = self.ev(f, i, e, th)
        if t.get('k') == 'arr' and f.T[t['e']].get('w') == 8 and isinstance(v, list):
            b = Buf(t.get('n'))
            for j in range(t.get('n') or 0):
                b.bytes[j] = self.bits(v[j] if j < len(v) else 0, 8)
            return b
        return v

    def switch(self, f, n, v, e, th):
        body = n['body']
        items = body['c'] if body['k'] == 'Compound' else [body]
        # flatten nested case labels
        flat = []

        def add(s):
            if s is None:
                return
            if s['k'] in ('Case', 'Default'):
                flat.append(s)
                c = s['c'] if isinstance(s['c'], list) else [s['c']]
                for x in c:
                    add(x)
            else:
                flat.append(s)
        for s in items:
            add(s)
        start = None
        for i, s in enumerate(flat):
            if s['k'] == 'Case':
                l = s['lhs']
                if isinstance(l, list):
                    raise Unknown('case range')
                cv = l.get('cv') if isinstance(l, dict) else l
                if cv is None:
                    raise Unknown('case')
                t = f.ty(l)
                if self.cmp('==', v if not isinstance(v, bool) else int(v), self.wrap(cv, f.ty(n['cond'])) if isinstance(cv, int) else cv):
                    start = i
                    break
        if start is None:
            for i, s in enumerate(flat):
                if s['k'] == 'Default':
                    start = i
        if start is None:
            return
        try:
            for s in flat[start:]:
                if s['k'] not in ('Case', 'Default'):
                    self.stmt(f, s, e, th)
        except _Brk:
            pass

    # ---- expressions
    def val(self, v):
        return v.v if isinstance(v, Cell) else v

    def lv(self, f, n, e, th):
        """Cell of an lvalue expression or None"""
        n = strip(n)
        if n['k'] == 'Var':
            if n['v'] not in e:
                raise Unknown('variable ' + n['n'])
            return e[n['v']]
        return None

    def read(self, p):
        o = p.o
        if isinstance(o, Cell):
            return o.v
        if isinstance(o, list):
            if 0 <= p.i < len(o):
                return o[p.i]
            raise Unknown('out of bounds')
        if isinstance(o, Buf):
            if p.i in o.bytes:
                return self.mk(o.bytes[p.i], 8, True)
            raise Unknown('uninitialised byte')
        if isinstance(o, Map):
            if p.i is not END and 0 <= p.i < len(o.items):
                return o.items[p.i]
            raise Unknown('dereferenced end')
        if isinstance(o, str):
            if 0 <= p.i < len(o):
                return ord(o[p.i])
            if p.i == len(o):
                return 0
        raise Unknown('read')

    def write(self, p, v):
        o = p.o
        if isinstance(o, Cell):
            o.v = v
        elif isinstance(o, list) and 0 <= p.i < len(o):
            o[p.i] = v
        elif isinstance(o, Buf):
            if o.n is not None and not 0 <= p.i < o.n:
                raise Unknown('write beyond the buffer')
            o.bytes[p.i] = self.bits(v, 8)
        else:
            raise Unknown('write')

    def place(self, f, n, e, th):
        """Ptr denoting the lvalue"""
        n = strip(n)
        k = n['k']
        if k == 'Var':
            c = e.get(n['v'])
            if c is None:
                raise Unknown('variable')
            return Ptr(c)
        if k == 'Un' and n['op'] == '*':
            v = self.val(self.ev(f, n['c'][0], e, th))
            if isinstance(v, Ptr):
                return v
        if k in ('Index', 'OCall') and (k == 'Index' or n['op'] == '[]'):
            b, i = self.val(self.ev(f, n['c'][0], e, th)), self.val(self.ev(f, n['c'][1], e, th))
            if isinstance(b, (list, Buf)):
                b = Ptr(b)
            if isinstance(b, Ptr) and isinstance(i, int):
                return Ptr(b.o, b.i + i)
        if k == 'Member':
            o = self.val(self.ev(f, n['c'][0], e, th)) if n.get('c') and n['c'][0] else th
            if isinstance(o, Ptr):
                o = self.read(o)
            if isinstance(o, Rec) and n['n'] in o:
                return FieldPtr(o, n['n'])
        if k == 'Un' and n['op'] in ('++', '--') and not n.get('post'):
            self.ev(f, n, e, th)
            return self.place(f, n['c'][0], e, th)
        if k in ('Assign', 'CAssign'):
            self.ev(f, n, e, th)
            return self.place(f, n['c'][0], e, th)
        raise Unknown('lvalue ' + k)

    def get(self, p):
        return p.rec[p.name] if isinstance(p, FieldPtr) else self.read(p)

    def put(self, p, v):
        if isinstance(p, FieldPtr):
            p.rec[p.name] = v
        else:
            self.write(p, v)

    def ev(self, f, n, e, th):
        if n is None:
            return None
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Unknown('too many steps')
        k = n['k']
        t = f.ty(n)
        if 'cv' in n and k not in ('Var',):
            cv = n['cv']
            if isinstance(cv, (int, bool)):
                return self.wrap(cv, t) if t.get('k') in ('int', 'enum', 'bool') else cv
            if isinstance(cv, str) and cv.lstrip('-').isdigit():
                return self.wrap(int(cv), t)
        if k == 'Lit':
            return n.get('cv')
        if k == 'Float':
            return n['fv']
        if k == 'Str':
            if t.get('k') == 'arr' and n.get('len') != len(n['s']):
                raise Unknown('string with escapes')
            return n['s']
        if k == 'Null0':
            return None
        if k == 'This':
            return Ptr(Cell(th)) if th is not None else None
        if k == 'Var':
            if n['v'] in e:
                return e[n['v']].v
            if 'cv' in n and isinstance(n['cv'], int):
                return self.wrap(n['cv'], t)
            raise Unknown('variable ' + n['n'])
        if k == 'Global':
            return self.glob(f, n)
        if k == 'EnumC':
            raise Unknown('enumerator')
        if k == 'Cast':
            v = self.val(self.ev(f, n['c'][0], e, th))
            if n['ck'] in ('IntegralCast', 'IntegralToBoolean', 'PointerToBoolean', 'FloatingToIntegral', 'BooleanToSignedIntegral', 'NoOp', 'LValueToRValue', 'UserDefinedConversion', 'ConstructorConversion'):
                if t.get('k') in ('int', 'enum', 'bool'):
                    return self.wrap(v, t)
                return v
            if n['ck'] == 'IntegralToFloating':
                if isinstance(v, int):
                    return float(v)
                raise Unknown('float')
            if n['ck'] == 'ArrayToPointerDecay' and isinstance(v, (list, Buf)):
                return Ptr(v)
            if n['ck'] == 'BitCast' and t.get('k') == 'ptr' and f.T[t['e']].get('w') == 8:
                return v
            if n['ck'] in ('ArrayToPointerDecay', 'FunctionToPointerDecay', 'ToVoid', 'DerivedToBase', 'UncheckedDerivedToBase', 'NullToPointer', 'BaseToDerived', 'Dynamic'):
                return v
            raise Unknown('cast ' + n['ck'])
        if k in ('DefArg', 'DefInit'):
            return self.ev(f, n['c'][0], e, th) if n.get('c') else None
        if k == 'Un':
            return self.unary(f, n, e, th, t)
        if k == 'Bin':
            op = n['op']
            if op == ',':
                self.ev(f, n['c'][0], e, th)
                return self.ev(f, n['c'][1], e, th)
            a = self.val(self.ev(f, n['c'][0], e, th))
            if op == '&&':
                return self.truth(a) and self.truth(self.val(self.ev(f, n['c'][1], e, th)))
            if op == '||':
                return self.truth(a) or self.truth(self.val(self.ev(f, n['c'][1], e, th)))
            b = self.val(self.ev(f, n['c'][1], e, th))
            if isinstance(a, (list, Buf)):
                a = Ptr(a)
            if isinstance(b, (list, Buf)):
                b = Ptr(b)
            if op in ('<', '>', '<=', '>=', '==', '!='):
                return self.cmp(op, a, b)
            return self.arith(op, a, b, t)
        if k == 'Assign':
            v = self.val(self.ev(f, n['c'][1], e, th))
            self.put(self.place(f, n['c'][0], e, th), self.wrap(v, f.ty(n['c'][0])))
            return v
        if k == 'CAssign':
            p = self.place(f, n['c'][0], e, th)
            v = self.val(self.ev(f, n['c'][1], e, th))
            ct = f.T[n['ct']] if n.get('ct', -1) >= 0 else t
            r = self.wrap(self.arith(n['op'][:-1], self.wrap(self.get(p), ct) if ct.get('k') == 'int' else self.get(p), v, ct), f.ty(n['c'][0]))
            self.put(p, r)
            return r
        if k == 'Cond':
            return self.ev(f, n['c'][1 if self.truth(self.val(self.ev(f, n['c'][0], e, th))) else 2], e, th)
        if k == 'Index':
            return self.get(self.place(f, n, e, th))
        if k == 'Member':
            o = self.val(self.ev(f, n['c'][0], e, th)) if n.get('c') and n['c'][0] else th
            if isinstance(o, Ptr):
                o = self.read(o)
            if isinstance(o, Rec) and n['n'] in o:
                return o[n['n']]
            raise Unknown('member ' + n['n'])
        if k == 'Throw':
            raise Thrown(n.get('tt'))
        if k == 'InitList':
            return self.aggregate(f, n, [self.val(self.ev(f, c, e, th)) for c in n['c']], t)
        if k == 'CXXStdInitializerListExpr':
            return self.val(self.ev(f, n['c'][0], e, th))
        if k == 'CXXScalarValueInitExpr':
            return 0
        if k == 'Lambda':
            return Lam(n['fns'][0], e, th)
        if k == 'FnRef':
            return Lam(n['fn'], None, None)
        if k == 'Ctor':
            return self.ctor(f, n, [self.val(self.ev(f, c, e, th)) for c in n['c']], t)
        if k in ('Call', 'MCall', 'OCall'):
            return self.callexpr(f, n, e, th, t)
        raise Unknown('expression ' + k)

    def aggregate(self, f, n, vals, t):
        if t.get('k') == 'arr':
            if t.get('n') and len(vals) < t['n'] and f.T[t['e']].get('k') in ('int', 'bool', 'enum'):
                vals = vals + [0] * (t['n'] - len(vals))
            return vals
        if t.get('r') == 'std::array':
            return vals[0] if len(vals) == 1 and isinstance(vals[0], list) else vals
        if t.get('r') == 'std::pair' and len(vals) == 2:
            return Rec(first=vals[0], second=vals[1])
        if t.get('k') == 'rec':
            r = self.p.records.get(t['s'])
            if r and len(r.get('fields', ())) >= len(vals):
                out = Rec()
                for i, fl in enumerate(r['fields']):
                    out[fl['n']] = vals[i] if i < len(vals) else None
                return out
        if len(vals) == 1:
            return vals[0]
        raise Unknown('initialiser')

    def ctor(self, f, n, a, t):
        r = t.get('r', '')
        if len(a) == 1 and (n.get('cm') or not r):
            return a[0]
        if r in ('std::basic_string', 'std::basic_string_view'):
            a = [x for x in a if not isinstance(x, Rec) or True]
            if not a or a[0] is None:
                return ''
            if isinstance(a[0], str):
                return a[0][:a[1]] if len(a) > 1 and isinstance(a[1], int) else a[0]
            raise Unknown('string')
        if r == 'std::pair':
            if len(a) == 2:
                return Rec(first=a[0], second=a[1])
            if len(a) == 1 and isinstance(a[0], Rec):
                return a[0]
        if r in ('std::map', 'std::unordered_map', 'std::multimap'):
            items = a[0] if a and isinstance(a[0], list) else []
            return Map([(x['first'], x['second']) for x in items], any('CaseInsensitive' in f.T[x].get('s', '') for x in t.get('ta', ()) if x >= 0), r == 'std::multimap')
        if r in ('std::vector', 'std::initializer_list', 'std::array'):
            if a and isinstance(a[0], list):
                return a[0]
            if not a:
                return []
        if not a and n.get('dflt') or not a:
            return Rec()
        if len(a) == 1:
            return a[0]
        c = self.p.fns.get(n.get('fn'))
        raise Unknown('construction of ' + t.get('s', '?'))

    def unary(self, f, n, e, th, t):
        op = n['op']
        if op in ('++', '--'):
            p = self.place(f, n['c'][0], e, th)
            o = self.get(p)
            v = self.wrap(self.arith('+' if op == '++' else '-', o, 1, t if t.get('k') in ('int', 'ptr') else {'w': 64, 'u': 1}), t)
            self.put(p, v)
            return o if n.get('post') else v
        if op == '&':
            i = strip(n['c'][0])
            p = self.place(f, i, e, th)
            return p
        v = self.val(self.ev(f, n['c'][0], e, th))
        if op == '*':
            if isinstance(v, (list, Buf)):
                v = Ptr(v)
            if isinstance(v, Ptr):
                return self.read(v)
            raise Unknown('dereference')
        if op == '!':
            return not self.truth(v)
        if op == '~' and isinstance(v, (int, bool)):
            return self.wrap(~int(v), t)
        if op == '-' and isinstance(v, (int, float)):
            return self.wrap(-v, t) if isinstance(v, int) else -v
        if op in ('+', '__extension__'):
            return v
        raise Unknown('unary ' + op)

    def glob(self, f, n):
        if n.get('q') == 'std::nullopt':
            return None
        if 'cv' in n and isinstance(n['cv'], int):
            return self.wrap(n['cv'], f.ty(n))
        g = self.p.globals.get(n.get('gid'))
        if g is None or not (g.get('const') or g.get('constexpr')) or not g.get('i'):
            raise Unknown('global ' + n.get('q', ''))
        key = ('g', n['gid'])
        if key not in self.statics:
            gf = GlobFn(g, self.p)
            self.statics[key] = Cell(self.init(gf, {'i': g['i'], 't': g.get('t', -1)}, {}, None))
        return self.statics[key].v

    def callexpr(self, f, n, e, th, t):
        q = n.get('q', '')
        short = q.split('::')[-1]
        if q in self.natives:
            return self.natives[q](self, f, n, e, th)
        args = [self.val(self.ev(f, c, e, th)) for c in n['c']]
        k = n['k']
        if k == 'MCall':
            obj = self.val(self.ev(f, n['obj'], e, th)) if n.get('obj') else th
            if isinstance(obj, Ptr) and n.get('arrow'):
                obj = self.read(obj)
            if q.startswith('std::') or q.startswith('CppUtilities::'):
                return self.stdm(f, n, short, obj, args, e, th)
        elif k == 'OCall':
            op = n['op']
            obj = args[0] if n.get('m') else None
            a = args
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return self.cmp(op, a[0], a[1])
            if op == '*' and len(a) == 1 and isinstance(a[0], Ptr):
                return self.read(a[0])
            if op == '->' and isinstance(a[0], Ptr):
                return a[0]
            if op == '[]':
                if isinstance(a[0], Map):
                    i = a[0].find(a[1])
                    if i is None:
                        raise Unknown('operator[] of an absent key')
                    return a[0].items[i]['second']
                return self.get(self.place(f, n, e, th))
            if op in ('++', '--') and isinstance(a[0], Ptr):
                p = self.place(f, n['c'][0], e, th)
                v = Ptr(a[0].o, self.step(a[0], 1 if op == '++' else -1))
                self.put(p, v)
                return a[0] if len(a) > 1 else v
            if op in ('|', '&', '^', '+', '-') and len(a) == 2 and all(isinstance(x, (int, Sym)) for x in a):
                return self.arith(op, a[0], a[1], t)
            if op in ('+', '-') and isinstance(a[0], Ptr) and isinstance(a[1], int):
                return self.arith(op, a[0], a[1], t)
            if op == '=':
                self.put(self.place(f, n['c'][0], e, th), a[1])
                return a[1]
            if op == '()' and isinstance(a[0], Lam):
                return self.lam(a[0], a[1:])
        if k == 'Call':
            r = self.intrinsic(f, n, q, short, args, e, th, t)
            if r is not NotImplemented:
                return r
        g = self.p.fns.get(n.get('fn'))
        if g is None or n.get('virt'):
            raise Unknown('call of ' + q)
        if g.body is None:
            raise Unknown('call of ' + q)
        # references
        for i, prm in enumerate(g.params):
            pt = g.T[prm['t']] if prm.get('t', -1) >= 0 else {}
            if i < len(n['c']) and pt.get('k') == 'ref' and not pt.get('ce') and strip(n['c'][i])['k'] == 'Var':
                args[i] = self.lv(f, n['c'][i], e, th) or args[i]
            elif i < len(args) and isinstance(args[i], (list, Buf)) and pt.get('k') == 'ptr':
                args[i] = Ptr(args[i])
        return self.call(g, args, obj if k == 'MCall' else None)

    def lam(self, l, args):
        g = self.p.fns.get(l.fid)
        if g is None:
            raise Unknown('lambda')
        return self.call(g, args, l.this, l.env)

    def step(self, p, d):
        i = p.i
        if isinstance(p.o, Map):
            n = len(p.o.items)
            return i + d if 0 <= i + d <= n else i
        return i + d

    def stdm(self, f, n, short, o, args, e, th):
        if isinstance(o, Cell):
            o = o.v
        if isinstance(o, str):
            if short in ('size', 'length'):
                return len(o)
            if short == 'empty':
                return not o
            if short in ('data', 'c_str', 'operator basic_string_view', 'operator basic_string'):
                return o
            if short in ('begin', 'cbegin'):
                return Ptr(o)
            if short in ('end', 'cend'):
                return Ptr(o, len(o))
            if short == 'compare' and len(args) == 1:
                return (o > args[0]) - (o < args[0])
            if short == 'substr' and all(isinstance(x, int) for x in args):
                return o[args[0]:(args[0] + args[1]) if len(args) > 1 else None]
        if isinstance(o, Map):
            if short == 'find':
                i = o.find(args[0])
                return Ptr(o, len(o.items) if i is None else i)
            if short in ('end', 'cend'):
                return Ptr(o, len(o.items))
            if short in ('begin', 'cbegin'):
                return Ptr(o, 0)
            if short in ('count', 'contains'):
                return int(o.find(args[0]) is not None)
            if short == 'at':
                i = o.find(args[0])
                if i is None:
                    raise Thrown('std::out_of_range')
                return o.items[i]['second']
            if short == 'size':
                return len(o.items)
            if short in ('emplace', 'insert', 'try_emplace') and len(args) == 2:
                o.add(args[0], args[1])
                return None
        if isinstance(o, list):
            if short in ('size',):
                return len(o)
            if short == 'empty':
                return not o
            if short in ('begin', 'cbegin', 'data'):
                return Ptr(o)
            if short in ('end', 'cend'):
                return Ptr(o, len(o))
            if short in ('at',) and isinstance(args[0], int):
                return self.read(Ptr(o, args[0]))
            if short in ('push_back', 'emplace_back') and len(args) == 1:
                o.append(args[0])
                return None
        g = self.p.fns.get(n.get('fn'))
        if g is not None and g.body is not None and not n.get('virt') and not n.get('q', '').startswith('std::'):
            return self.call(g, args, o)
        raise Unknown('call of ' + n.get('q', ''))

    def intrinsic(self, f, n, q, short, a, e, th, t):
        if q in ('CppUtilities::BE::getBytes', 'CppUtilities::LE::getBytes') and len(a) == 2:
            w = f.ty(n['c'][0]).get('w')
            p = a[1] if isinstance(a[1], Ptr) else Ptr(a[1])
            if not w:
                raise Unknown('getBytes')
            b = self.bits(a[0], w)
            m = w // 8
            for i in range(m):
                j = m - 1 - i if '::BE::' in q else i
                self.write(Ptr(p.o, p.i + i), self.mk(b[8 * j:8 * j + 8], 8, True))
            return None
        if q in ('std::min', 'std::max') and len(a) >= 2:
            c = self.cmp('<', a[1], a[0])
            return (a[1] if c else a[0]) if short == 'min' else (a[1] if self.cmp('<', a[0], a[1]) else a[0])
        if q in ('std::size',) and isinstance(a[0], (list, str)):
            return len(a[0])
        if q in ('std::begin', 'std::cbegin') and isinstance(a[0], (list, Map)):
            return Ptr(a[0])
        if q in ('std::end', 'std::cend'):
            if isinstance(a[0], list):
                return Ptr(a[0], len(a[0]))
            if isinstance(a[0], Map):
                return Ptr(a[0], len(a[0].items))
        if q == 'std::make_optional' and len(a) == 1:
            return a[0]
        if q in ('std::move', 'std::forward', 'std::as_const', 'std::addressof') and len(a) == 1:
            return a[0]
        if q in ('std::next', 'std::prev') and isinstance(a[0], Ptr):
            d = a[1] if len(a) > 1 and isinstance(a[1], int) else 1
            return Ptr(a[0].o, a[0].i + (d if short == 'next' else -d))
        if q == 'std::distance' and isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].o is a[1].o:
            return a[1].i - a[0].i
        if q in ('std::find_if', 'std::find', 'std::find_if_not', 'std::any_of', 'std::all_of', 'std::none_of') and isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].o is a[1].o:
            hit = None
            for i in range(a[0].i, a[1].i):
                v = self.read(Ptr(a[0].o, i))
                if q == 'std::find':
                    c = self.cmp('==', v, a[2])
                elif isinstance(a[2], Lam):
                    c = self.truth(self.lam(a[2], [v]))
                else:
                    raise Unknown('predicate')
                if c != (q in ('std::find_if_not', 'std::all_of')):
                    hit = i
                    break
            if short.startswith('find'):
                return Ptr(a[0].o, a[1].i if hit is None else hit)
            return {'any_of': hit is not None, 'all_of': hit is None, 'none_of': hit is None}[short]
        if short in ('lower_bound', 'upper_bound') and q.startswith('std::') and isinstance(a[0], Ptr) and isinstance(a[1], Ptr):
            for i in range(a[0].i, a[1].i):
                v = self.read(Ptr(a[0].o, i))
                if len(a) > 3:
                    c = self.truth(self.lam(a[3], [v, a[2]] if short == 'lower_bound' else [a[2], v]))
                    c = c if short == 'lower_bound' else not c
                else:
                    c = self.cmp('<' if short == 'lower_bound' else '<=', v, a[2])
                if not c:
                    return Ptr(a[0].o, i)
            return a[1]
        if short in ('__builtin_clzll', '__builtin_clzl', '__builtin_clz', 'countl_zero', 'bit_width', '__bit_width', '__countl_zero'):
            w = f.ty(n['c'][0]).get('w', 64)
            v = a[0]
            if isinstance(v, Sym):
                if not self.mono(v):
                    raise Unknown('bit width')
                l, h = v.at(self.lo).bit_length(), v.at(self.hi).bit_length()
                if l != h:
                    self.cmp('<', v, 1 << (h - 1))
                bl = h
            elif isinstance(v, int):
                bl = v.bit_length()
            else:
                raise Unknown(short)
            return bl if 'bit_width' in short else w - bl
        if short in ('memcpy', 'copy_n', 'memset', 'fill_n') and isinstance(a[0], Ptr) and isinstance(a[2], int):
            if short == 'memset' and isinstance(a[1], (int, Sym)):
                for i in range(a[2]):
                    self.write(Ptr(a[0].o, a[0].i + i), a[1])
                return a[0]
            if short == 'memcpy' and isinstance(a[1], Ptr):
                for i in range(a[2]):
                    self.write(Ptr(a[0].o, a[0].i + i), self.read(Ptr(a[1].o, a[1].i + i)))
                return a[0]
        return NotImplemented


class FieldPtr(Ptr):
    def __init__(self, rec, name):
        self.rec, self.name = rec, name
        self.o, self.i = rec, name


class GlobFn:
    """stands for the initialiser of a global"""

    def __init__(self, g, p):
        self.T, self.id, self.q, self.prog = g['T'], g['gid'], g.get('q', ''), p

    def ty(self, n):
        t = n.get('t', -1) if n else -1
        return self.T[t] if t is not None and t >= 0 else {}


def partition(run, lo, hi):
    """run(lo, hi) -> result or raises Split; exact partition [(lo, hi, result)]"""
    out, st, n = [], [(lo, hi)], 0
    while st:
        l, h = st.pop()
        n += 1
        if n > 4000:
            raise Unknown('too many parts')
        try:
            out.append((l, h, run(l, h)))
        except Split as s:
            if not l < s.at <= h:
                raise Unknown('split')
            st.append((s.at, h))
            st.append((l, s.at - 1))
    return out
