"""Path-sensitive exploration with a small constant domain: members of the current object and local variables carry either one
constant or a set of excluded constants; branches, switches and boolean helper functions are followed accordingly."""
from collections import namedtuple
from ts import Typestate
from access import lroot

V = namedtuple('V', 'env x ret')     # env: frozenset of (key, value); x: extra state of the analysis; ret: returned value


class NotIn(frozenset):
    """any value but these"""
    def __repr__(self):
        return 'not ' + str(set(self))


def getd(env, key):
    for k, v in env:
        if k == key:
            return v
    return None


def setd(env, key, val):
    e = {(k, v) for k, v in env if k != key}
    if val is not None:
        e.add((key, val))
    return frozenset(e)


def same_object(node):
    """call of a method on the current object"""
    if node['k'] != 'MCall':
        return False
    o = node.get('obj')
    while o is not None and (o['k'] == 'Cast' or o['k'] == 'Un' and o['op'] == '*') and o.get('c'):
        o = o['c'][0]
    return o is not None and o['k'] == 'This'


class ValState(Typestate):
    def __init__(self, sh, fields=None):
        super().__init__(sh.p, sh.exc, sh.cfgs)
        self.sh, self.acc, self.mod = sh, sh.acc, sh.mod
        self.fields = fields      # qualified names of the members tracked (None: all)
        self._loc = {}

    def track(self, key):
        return True

    # ---- evaluation
    def ev(self, fn, n, env, depth=0):
        while n is not None and n['k'] in ('Cast', 'DefArg', 'Opaque', 'DefInit') and n.get('c') and 'cv' not in n:
            n = n['c'][0]
        if n is None or depth > 12:
            return None
        k = n['k']
        if 'cv' in n:
            return n['cv']
        if k == 'Null0':
            return 0
        if k == 'Un' and n['op'] == '!' or k == 'OCall' and n['op'] == '!' and len(n['c']) == 1:
            v = self.truth(self.ev(fn, n['c'][0], env, depth + 1))
            return None if v is None else int(not v)
        if k in ('Bin', 'OCall') and len(n['c']) == 2 and n['op'] in ('==', '!='):
            a, b = self.ev(fn, n['c'][0], env, depth + 1), self.ev(fn, n['c'][1], env, depth + 1)
            if isinstance(a, NotIn):
                a, b = b, a
            if a is None or b is None or isinstance(a, NotIn):
                return None
            if isinstance(b, NotIn):
                return (0 if n['op'] == '==' else 1) if a in b else None
            return int((a == b) == (n['op'] == '=='))
        if k == 'Bin' and n['op'] in ('&&', '||'):
            a, b = self.truth(self.ev(fn, n['c'][0], env, depth + 1)), self.truth(self.ev(fn, n['c'][1], env, depth + 1))
            if n['op'] == '&&':
                return 0 if a is False or b is False else 1 if a and b else None
            return 1 if a or b else 0 if a is False and b is False else None
        if k == 'Cond':
            c = self.truth(self.ev(fn, n['c'][0], env, depth + 1))
            a, b = self.ev(fn, n['c'][1], env, depth + 1), self.ev(fn, n['c'][2], env, depth + 1)
            return a if c is True or (a == b) else b if c is False else None
        v = getd(env, '@%d' % id(n))
        if v is not None:
            return v
        key = self.key(fn, n)
        return getd(env, key) if key is not None else None

    def key(self, fn, n):
        """access path; the address of an object and what a plain pointer points to are no values of that object/pointer"""
        if n['k'] == 'Un' and (n['op'] == '&' or n['op'] == '*' and fn.ty(n).get('k') in ('bool', 'enum', 'int', 'ptr')):
            return None
        return self.acc.key(fn, n)

    @staticmethod
    def truth(v):
        if v is None:
            return None
        if isinstance(v, NotIn):
            return True if 0 in v else None
        return bool(v)

    # ---- effects of a node on the environment
    def locals_of(self, fn):
        r = self._loc.get(fn.id)
        if r is None:
            r = {'v%d' % x['id'] for x in fn.params if 'id' in x}
            for n in fn.nodes():
                if n['k'] == 'DeclStmt':
                    r |= {'v%d' % d['id'] for d in n['decls'] if 'id' in d}
            self._loc[fn.id] = r
        return r

    def kill(self, fn, env, targets, fields):
        names = {q.split('::')[-1] for q in fields}
        out = set()
        for k, v in env:
            if any(k == t or k.startswith((t + '.', t + '[')) for t in targets):
                continue
            if names and any(s in names for s in k.replace('[', '.').replace(']', '.').split('.')):
                continue
            out.add((k, v))
        return frozenset(out) if len(out) != len(env) else env

    def effect(self, fn, n, st):
        """default effect of a primitive step"""
        a = n.a
        env = st.env
        if n.k == 'd':
            if 'id' not in a:
                return st
            v = self.ev(fn, a['i'], env) if a.get('i') else None
            return st._replace(env=setd(self.kill(fn, env, ('v%d' % a['id'],), ()), 'v%d' % a['id'], v))
        if n.k == 'r':
            c = a.get('c') or [None]
            return st._replace(ret=self.ev(fn, c[0], env) if c[0] else None)
        if n.k != 'e':
            return st
        k = a['k']
        if k == 'Assign' or k == 'OCall' and a['op'] == '=' and len(a['c']) == 2:
            key = self.key(fn, a['c'][0])
            v = self.ev(fn, a['c'][1], env)
            if key is None:
                r = lroot(a['c'][0])
                return st._replace(env=self.kill(fn, env, (), {r[1]} if r[0] == 'f' else ()))
            env = self.kill(fn, env, (key,), {lroot(a['c'][0])[1]} if lroot(a['c'][0])[0] == 'f' and not key.startswith('this.') else ())
            return st._replace(env=setd(env, key, v))
        tg, fs = [], set()
        lv = []
        if k == 'CAssign' or (k == 'Un' and a['op'] in ('++', '--')):
            lv.append(a['c'][0])
        elif k in ('Call', 'MCall', 'OCall', 'Ctor', 'Lambda'):
            if k == 'OCall' and a.get('m') and not a.get('mc') and a['op'] not in ('->', '*'):
                lv.append(a['c'][0])
            if k == 'MCall' and not a.get('mc') and a.get('obj') is not None and not a.get('arrow'):
                lv.append(a['obj'])
            lv += self.mod._refargs(a, fn)
            ts = a['fns'] if k == 'Lambda' else (self.p.targets(a) if 'fn' in a else [])
            for t in ts:
                fs |= self.mod.sum.get(t, set())
        for t in lv:
            key = self.acc.key(fn, t)
            r = lroot(t)
            if key is not None and key != 'this':
                tg.append(key)
            if r[0] == 'v':
                tg.append('v%d' % r[1])
            elif r[0] == 'f':
                fs.add(r[1])
        if tg or fs:
            env = self.kill(fn, env, tg, fs)
        return st._replace(env=env)

    # ---- to be overridden: None = default treatment
    def step(self, fn, node, st):
        return None

    def descend(self, fid):
        return False

    def relevant(self, fid):
        return fid in self.p.fns and self.descend(fid)

    def event(self, fn, n, st):
        s = self.step(fn, n, st)
        if s is not None:
            return s
        if n.k == 'e' and n.a['k'] in ('Call', 'MCall', 'OCall', 'Ctor') and 'fn' in n.a:
            if any(self.relevant(t) and t in self.p.fns and (self.p.fns[t].body or self.p.fns[t].inits) for t in self.p.targets(n.a)):
                return None
        e = self.effect(fn, n, st)
        return (e,)

    def event_x(self, fn, n, st, t):
        r = self.event(fn, n, st)
        return (st,) if r is None else r

    def closure(self, fn, a):
        """a closure is passed: the callee may get back to the caller's variables and object"""
        cl = self.p.closures
        return cl and any(x is not None and x.get('t', -1) >= 0 and fn.T[x['t']].get('s', '').replace('const ', '', 1) in cl for x in a.get('c', []))

    def refs(self, fn, a, f):
        """(parameter key, key of the argument) of variables passed by reference"""
        args = a.get('c', [])
        if a['k'] == 'OCall' and a.get('m'):
            args = args[1:]
        for p, x in zip(f.params, args):
            t = f.T[p['t']] if p.get('t', -1) >= 0 else {}
            if x is not None and 'id' in p and t.get('k') == 'ref' and not t.get('s', '').startswith('const '):
                k = self.key(fn, x)
                if k is not None and (k.startswith('this.') or k[0] == 'v'):
                    yield 'v%d' % p['id'], k

    def enter(self, fn, node, target, st):
        f = self.p.fns[target]
        a = node.a
        env = set()
        cl = 'lambda' in f.d or self.closure(fn, a)
        if same_object(a) or cl:
            env |= {(k, v) for k, v in st.env if k.startswith('this.')}
        if cl:
            env |= {(k, v) for k, v in st.env if k.startswith('v')}
        args = a.get('c', [])
        if a['k'] == 'OCall' and a.get('m'):
            args = args[1:]
        for p, x in zip(f.params, args):
            if x is None or 'id' not in p:
                continue
            v = self.ev(fn, x, st.env)
            if v is not None:
                env.add(('v%d' % p['id'], v))
            key = self.acc.key(fn, x)
            if key is not None:
                for k, v in st.env:
                    if k.startswith((key + '.', key + '[')):
                        env.add(('v%d%s' % (p['id'], k[len(key):]), v))
        return V(frozenset(env), st.x, None)

    def leave(self, fn, node, target, before, st, exc=None):
        f = self.p.fns[target]
        a = node.a
        s2 = self.effect(fn, node, before)
        env = set(s2.env)
        cl = 'lambda' in f.d or self.closure(fn, a)
        if same_object(a) or cl:
            env = {(k, v) for k, v in env if not k.startswith('this.')} | {(k, v) for k, v in st.env if k.startswith('this.')}
        if cl:
            loc = self.locals_of(f)
            env = {(k, v) for k, v in env if not k.startswith('v')} | {(k, v) for k, v in st.env if k.startswith('v') and k not in loc}
        for pk, k in self.refs(fn, a, f):
            v0, vp = getd(before.env, k), getd(st.env, pk)
            vk = getd(env, k) if same_object(a) or cl else v0
            v = vk if vp == v0 and vp is not None else vp if vk == v0 else None
            env = set(setd(env, k, v))
        if st.ret is not None and not exc:
            env.add(('@%d' % id(a), st.ret))
        return V(frozenset(env), st.x, None)

    # ---- branches
    def refine(self, fn, n, val, env):
        """environment under the assumption that n is val, or None if impossible"""
        while n is not None and n['k'] in ('Cast', 'DefArg', 'Opaque') and n.get('c') and 'cv' not in n:
            n = n['c'][0]
        if n is None:
            return env
        v = self.truth(self.ev(fn, n, env))
        if v is not None:
            return env if v == val else None
        k = n['k']
        if (k == 'Un' or k == 'OCall' and len(n['c']) == 1) and n['op'] == '!':
            return self.refine(fn, n['c'][0], not val, env)
        if k == 'Bin' and n['op'] in ('&&', '||') and (n['op'] == '&&') == val:
            e = self.refine(fn, n['c'][0], val, env)
            return None if e is None else self.refine(fn, n['c'][1], val, e)
        if k in ('Bin', 'OCall') and len(n['c']) == 2 and n['op'] in ('==', '!='):
            eq = (n['op'] == '==') == val
            for x, y in ((n['c'][0], n['c'][1]), (n['c'][1], n['c'][0])):
                c = self.ev(fn, y, env)
                if c is not None and not isinstance(c, NotIn):
                    return self.assume(fn, x, c, eq, env)
            return env
        return self.assume(fn, n, 0, not val, env)

    def assume(self, fn, n, c, eq, env):
        while n is not None and n['k'] in ('Cast', 'DefArg', 'Opaque') and n.get('c') and 'cv' not in n:
            n = n['c'][0]
        key = self.key(fn, n) if n is not None else None
        if key is None or not self.keyok(key):
            return env
        old = getd(env, key)
        if eq:
            if isinstance(old, NotIn):
                if c in old:
                    return None
            elif old is not None:
                return env if old == c else None
            return setd(env, key, c)
        if isinstance(old, NotIn):
            return setd(env, key, NotIn(old | {c}))
        if old is not None:
            return None if old == c else env
        return setd(env, key, NotIn([c]))

    def keyok(self, key):
        """keys worth remembering on branches"""
        return True

    def edge(self, fn, n, lab, st):
        if n.k == 'b' and lab in (True, False):
            e = self.refine(fn, n.a, lab, st.env)
            return None if e is None else st._replace(env=e)
        if n.k == 's':
            v = self.ev(fn, n.a, st.env)
            if isinstance(lab, tuple) and lab[0] == 'case':
                lo, hi = lab[1], lab[2]
                if lo is None:
                    return st
                if v is not None and not isinstance(v, NotIn):
                    return st if lo <= v <= hi else None
                if lo == hi:
                    e = self.assume(fn, n.a, lo, True, st.env)
                    return None if e is None else st._replace(env=e)
                return st
            if lab == 'default':
                cases = [l for l, _ in n.succ if isinstance(l, tuple) and l[0] == 'case' and l[1] is not None]
                if v is not None and not isinstance(v, NotIn):
                    return None if any(lo <= v <= hi for _, lo, hi in cases) else st
                e = st.env
                for _, lo, hi in cases:
                    if lo == hi:
                        e = self.assume(fn, n.a, lo, False, e)
                        if e is None:
                            return None
                return st._replace(env=e)
        return st
