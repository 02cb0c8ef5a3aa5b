"""Canonical access paths (getters inlined, smart pointers transparent) and field modification summaries."""
from facts import nodes

KEEPS = ('bind', 'make_unique', 'make_shared', 'make_pair', 'make_tuple', 'emplace', 'emplace_back', 'emplace_front', 'push_back', 'insert', 'try_emplace',
         'insert_or_assign', 'ref', 'cref', 'forward_as_tuple', 'pair', 'tuple', 'function', 'argsToString', 'forward', 'move', 'min', 'max')
SMART_GET = ('get', 'operator->', 'operator*')


def is_smart(q):
    return q.startswith(('std::unique_ptr<', 'std::shared_ptr<', 'std::optional<', 'std::__shared_ptr'))


class Access:
    def __init__(self, prog):
        self.p = prog
        self.getter = {}

    def trivial(self, fid, depth=0):
        """expression returned by a trivial getter (single return of a member path), or None"""
        r = self.getter.get(fid, 0)
        if r != 0:
            return r
        self.getter[fid] = None
        f = self.p.fns.get(fid)
        if f and f.body and not f.inits and f.rec and f.d.get('role') not in ('ctor', 'dtor'):
            b = f.body
            while b and b['k'] == 'Compound' and len([x for x in b['c'] if x['k'] != 'Null']) == 1:
                b = [x for x in b['c'] if x['k'] != 'Null'][0]
            if b and b['k'] == 'Return' and b.get('c') and b['c'][0]:
                e = b['c'][0]
                if self.simple(f, e):
                    self.getter[fid] = (f, e)
        return self.getter[fid]

    def predicate(self, fid):
        """(function, expression) if the function just returns a condition on the members of its object"""
        r = self.getter.get(('p', fid), 0)
        if r != 0:
            return r
        r = None
        f = self.p.fns.get(fid)
        if f and f.body and not f.inits and f.rec and not f.params and f.d.get('role') not in ('ctor', 'dtor'):
            b = f.body
            while b and b['k'] == 'Compound' and len([x for x in b['c'] if x['k'] != 'Null']) == 1:
                b = [x for x in b['c'] if x['k'] != 'Null'][0]
            if b and b['k'] == 'Return' and b.get('c') and b['c'][0]:
                e = b['c'][0]
                x = e
                while x['k'] in ('Cast',) and x.get('c') and 'cv' not in x:
                    x = x['c'][0]
                if x['k'] in ('Bin', 'OCall') and x['op'] in ('==', '!=', '<', '>', '<=', '>=', '&&', '||') or x['k'] in ('Un', 'OCall') and x['op'] == '!':
                    r = (f, e)
        self.getter[('p', fid)] = r
        return r

    def simple(self, f, e):
        """member path without side effects"""
        k = e['k']
        if k == 'This':
            return True
        if k == 'Member':
            return self.simple(f, e['c'][0])
        if k == 'Un' and e['op'] in ('*', '&'):
            return self.simple(f, e['c'][0])
        if k == 'Cast':
            return e.get('ck') in ('NoOp', 'BaseToDerived', 'UncheckedDerivedToBase', 'LValueToRValue', 'IntegralCast') and self.simple(f, e['c'][0])
        if k == 'MCall' and 'q' in e and not e.get('c'):
            n = e['q'].split('::')[-1]
            if is_smart(e['q']) and n in ('get',):
                return self.simple(f, e['obj'])
            if e.get('virt') and self.p.all_overriders(e['fn']):
                return False
            return e['obj'] is not None and self.simple(f, e['obj']) and bool(self.trivial(e['fn']))
        if k == 'OCall' and len(e['c']) == 1 and e['op'] in ('->', '*') and is_smart(e.get('q', '')):
            return self.simple(f, e['c'][0])
        if k == 'Ctor' and len(e.get('c', [])) == 1 and e.get('cm'):
            return self.simple(f, e['c'][0])
        return False

    def key(self, fn, n, env=None, depth=0):
        """canonical string of an expression; None if it is not expressible"""
        if n is None or depth > 12:
            return None
        k = n['k']
        if 'cv' in n and k not in ('Var', 'Member'):
            return '#%s' % n['cv']
        if k == 'Var':
            if env is not None and n['v'] in env:
                return env[n['v']]
            return 'v%s' % n['v']
        if k == 'This':
            return env.get('this', 'this') if env is not None else 'this'
        if k in ('Global', 'Ref'):
            return 'g:' + n.get('q', '?')
        if k == 'EnumC':
            return '#%s' % n.get('cv')
        if k == 'Null0':
            return '#null'
        if k == 'Member':
            b = self.key(fn, n['c'][0], env, depth + 1)
            return None if b is None else b + '.' + n['n']
        if k == 'Cast':
            return self.key(fn, n['c'][0], env, depth + 1)
        if k in ('DefArg', 'DefInit', 'Opaque'):
            return self.key(fn, n['c'][0], env, depth + 1) if n.get('c') else None
        if k == 'Un':
            if n['op'] in ('*', '&'):
                return self.key(fn, n['c'][0], env, depth + 1)
            if n['op'] in ('++', '--'):
                return None
            b = self.key(fn, n['c'][0], env, depth + 1)
            return None if b is None else n['op'] + b
        if k == 'Assign' or k == 'OCall' and n['op'] == '=':
            return self.key(fn, n['c'][0], env, depth + 1)
        if k == 'Bin':
            a, b = self.key(fn, n['c'][0], env, depth + 1), self.key(fn, n['c'][1], env, depth + 1)
            if a is None or b is None:
                return None
            return '(%s%s%s)' % (a, n['op'], b)
        if k == 'Ctor':
            if len([x for x in n.get('c', []) if x and x['k'] != 'DefArg']) == 1:
                return self.key(fn, n['c'][0], env, depth + 1)
            return None
        if k == 'Index':
            a, b = self.key(fn, n['c'][0], env, depth + 1), self.key(fn, n['c'][1], env, depth + 1)
            return None if a is None or b is None else '%s[%s]' % (a, b)
        if k == 'OCall':
            if n['op'] in ('->', '*') and len(n['c']) == 1:
                return self.key(fn, n['c'][0], env, depth + 1)
            ks = [self.key(fn, c, env, depth + 1) for c in n['c']]
            if any(x is None for x in ks):
                return None
            if n['op'] == '[]':
                return '%s[%s]' % (ks[0], ks[1])
            if n['op'] in ('==', '!=', '<', '>', '<=', '>=', '-', '+'):
                return '(%s%s%s)' % (ks[0], n['op'], ks[1]) if len(ks) == 2 else n['op'] + ks[0]
            if n['op'] == '!':
                return '!' + ks[0]
            return None
        if k == 'MCall' and 'q' in n:
            o = self.key(fn, n.get('obj'), env, depth + 1)
            if o is None:
                return None
            m = n['q'].split('::')[-1]
            if is_smart(n['q']) and m in ('get', 'operator bool', 'has_value', 'value') and not n['c']:
                return o
            if m in ('operator bool',):
                return o + '.bool'
            g = None
            if not n['c'] and not (n.get('virt') and self.p.all_overriders(n['fn'])):
                g = self.trivial(n['fn'])
            if g:
                return self.key(g[0], g[1], {'this': o}, depth + 1)
            ks = [self.key(fn, c, env, depth + 1) for c in n['c']]
            if any(x is None for x in ks):
                return None
            return '%s.%s(%s)' % (o, m, ','.join(ks))
        if k == 'Call' and 'q' in n:
            ks = [self.key(fn, c, env, depth + 1) for c in n['c']]
            if any(x is None for x in ks):
                return None
            if n['q'] in ('std::move', 'std::forward', 'std::as_const') and len(ks) == 1:
                return ks[0]
            return '%s(%s)' % (n['q'], ','.join(ks))
        return None


def lroot(n):
    """(kind, id) of the innermost object designated by an lvalue path: ('v', var) / ('f', field q) / ('this',) ..."""
    while n is not None:
        k = n['k']
        if k == 'Var':
            return ('v', n['v'])
        if k == 'Member':
            return ('f', n['q'])
        if k == 'Un' and n['op'] == '*' or k == 'OCall' and n['op'] in ('->', '*') and len(n['c']) == 1:
            return ('deref',)
        if k in ('Cast', 'Index', 'DefArg', 'Opaque') or (k == 'Un' and n['op'] in ('&', '++', '--')):
            n = n['c'][0] if n.get('c') else None
            continue
        if k == 'OCall' and n['op'] in ('[]', '='):
            n = n['c'][0]
            continue
        if k == 'MCall' and n.get('q', '').split('::')[-1] in ('get', 'back', 'front', 'at', 'value', 'data', 'begin', 'end', 'find'):
            n = n['obj']
            continue
        if k == 'This':
            return ('this',)
        if k in ('Global', 'Ref'):
            return ('g', n.get('q'))
        return ('?',)
    return ('?',)


class Mod:
    """fields (qualified names) a function may modify, transitively; '*' if unknown"""

    def __init__(self, prog, access):
        self.p, self.a = prog, access
        self.direct = {}
        self.sum = {}
        for f in prog.fns.values():
            self.direct[f.id] = self._direct(f)
        callers = {}
        callees = {}
        for f in prog.fns.values():
            cs = set()
            for n in f.nodes():
                if n['k'] in ('Call', 'MCall', 'OCall', 'Ctor') and 'fn' in n:
                    cs.update(prog.targets(n))
                elif n['k'] == 'Lambda':
                    cs.update(n['fns'])
            callees[f.id] = cs
            for c in cs:
                callers.setdefault(c, set()).add(f.id)
        self.sum = {k: set(v) for k, v in self.direct.items()}
        work = list(self.sum)
        inq = set(work)
        while work:
            x = work.pop()
            inq.discard(x)
            s = self.sum[x]
            n0 = len(s)
            for c in callees[x]:
                s |= self.sum.get(c, set())
            if len(s) != n0:
                for c in callers.get(x, ()):
                    if c not in inq:
                        inq.add(c)
                        work.append(c)

    def _path_fields(self, n):
        """all fields on an lvalue path which change when it is written: the innermost only"""
        return lroot(n)

    def _direct(self, f):
        out = set()
        for n in f.nodes():
            k = n['k']
            tgt = []
            if k in ('Assign', 'CAssign') or (k == 'Un' and n['op'] in ('++', '--')):
                tgt.append(n['c'][0])
            elif k == 'OCall':
                if n.get('m') and not n.get('mc'):
                    tgt.append(n['c'][0])
                tgt += self._refargs(n, f)
            elif k == 'MCall':
                if not n.get('mc') and n.get('obj') is not None and not n.get('arrow'):
                    tgt.append(n['obj'])
                tgt += self._refargs(n, f)
            elif k in ('Call', 'Ctor'):
                tgt += self._refargs(n, f)
            for t in tgt:
                r = lroot(t)
                if r[0] == 'f':
                    out.add(r[1])
        return out

    def _refargs(self, n, f):
        """arguments which may be modified by the callee (non-const references, addresses)"""
        out = []
        mu = n.get('mu')
        if not mu:
            return out
        args = n.get('c', [])
        if n['k'] == 'OCall' and n.get('m'):
            args = args[1:]
        keeps = n.get('q', '').startswith(('std::', 'CppUtilities::argsToString')) and n['q'].split('::')[-1].split('<')[0] in KEEPS
        for i, a in enumerate(args):
            if a is not None and i < len(mu) and mu[i]:
                if keeps and f.ty(a).get('k') in ('ptr', 'int', 'bool', 'enum', 'float'):
                    continue      # forwarding reference to a scalar: copied, not modified
                if mu[i] == 2:
                    while a['k'] == 'Cast' and a.get('c'):
                        a = a['c'][0]
                    if a['k'] == 'Un' and a['op'] == '&':
                        out.append(a)
                    elif fn_is_array(f, a):
                        out.append(a)
                else:
                    out.append(a)
        return out


def fn_is_array(f, a):
    return f.ty(a).get('k') == 'arr'
