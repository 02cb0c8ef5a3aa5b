"""Typestate of the file being rewritten: in place -> moved to the backup path -> restored, tracked on the level of the
filesystem calls through all functions. Paths are identified by the variables they are derived from."""
from collections import namedtuple
from ts import Typestate
from facts import nodes

# s: 'I' in place / 'M' moved away (o, b: labels) / 'R' restored / 'F' restoring failed (and is reported)
# pend: (what, src, dst, ec variable label) outcome of the last filesystem operation not yet tested
# env: parameter -> labels; known: ('E', labels, bool) existence facts; ret: boolean returned by the last callee
S = namedtuple('S', 's o b pend env known ret')
INIT = S('I', None, None, None, frozenset(), frozenset(), None)
FS = 'std::filesystem::'
MOVE = {FS + 'rename': 'rename', FS + 'copy_file': 'copy', FS + 'copy': 'copy'}
REMOVE = {FS + 'remove', FS + 'remove_all'}
NULLOP = {FS + 'rename', FS + 'copy_file', FS + 'copy', FS + 'remove', FS + 'remove_all', FS + 'resize_file', FS + 'canonical'}


def strip(n):
    while n is not None and n['k'] in ('Cast', 'DefArg', 'Opaque', 'DefInit') and n.get('c'):
        n = n['c'][0]
    return n


class Labels:
    """variables and members an expression is derived from, looking through never modified local variables"""

    def __init__(self, prog, acc, mod):
        self.p, self.acc, self.mod = prog, acc, mod
        self.cache = {}

    def info(self, fn):
        r = self.cache.get(fn.id)
        if r is None:
            decl, modv = {}, set()
            fns = [fn]
            for n in fn.nodes():
                if n['k'] == 'Lambda':
                    fns += [self.p.fns[x] for x in n['fns'] if x in self.p.fns]
            for f in fns:
                for n in f.nodes():
                    k = n['k']
                    if k == 'DeclStmt':
                        for d in n['decls']:
                            if 'id' in d:
                                decl[d['id']] = d.get('i')
                    for v in self.modified(f, n):
                        modv.add(v)
            r = self.cache[fn.id] = (decl, modv)
        return r

    def modified(self, fn, n):
        k = n['k']
        tg = []
        if k in ('Assign', 'CAssign') or (k == 'Un' and n['op'] in ('++', '--')):
            tg.append(n['c'][0])
        elif k == 'OCall':
            if n.get('m') and not n.get('mc') and n['op'] not in ('[]', '()', '->', '*'):
                tg.append(n['c'][0])
            tg += self.mod._refargs(n, fn)
        elif k == 'MCall':
            if not n.get('mc') and n.get('obj') is not None:
                tg.append(n['obj'])
            tg += self.mod._refargs(n, fn)
        elif k in ('Call', 'Ctor'):
            tg += self.mod._refargs(n, fn)
        out = []
        for t in tg:
            t = strip(t)
            if t is not None and t['k'] == 'Un' and t['op'] == '&':
                t = strip(t['c'][0])
            if t is not None and t['k'] == 'Var':
                out.append(t['v'])
        return out

    def of(self, fn, n, env, depth=0):
        if n is None or depth > 20:
            return frozenset()
        k = n['k']
        if k == 'Var':
            for v, l in env:
                if v == n['v']:
                    return l
            decl, modv = self.info(fn)
            if n['v'] in decl and n['v'] not in modv and decl[n['v']] is not None:
                return self.of(fn, decl[n['v']], env, depth + 1)
            return frozenset(['v%d' % n['v']])
        if k == 'Member' or k == 'MCall' and not n.get('c'):
            b = n['c'][0] if k == 'Member' else n.get('obj')
            if k == 'Member' or n.get('q', '').startswith('TagParser::'):
                key = self.acc.key(fn, n)
                if key is not None:
                    return frozenset([key])
            return self.of(fn, b, env, depth + 1)
        r = frozenset()
        for x in list(n.get('c', [])) + ([n['obj']] if n.get('obj') else []):
            if x is not None and x['k'] not in ('EnumC', 'FnRef', 'DefArg'):
                r |= self.of(fn, x, env, depth + 1)
        return r


class BackupState(Typestate):
    def __init__(self, sh):
        super().__init__(sh.p, sh.exc, sh.cfgs)
        self.sh = sh
        self.lab = Labels(sh.p, sh.acc, sh.mod)
        self.rel = sh.may_reach(lambda i, q: q in NULLOP and q != FS + 'resize_file')
        self.restorers = {f.id for f in sh.p.q('BackupHelper::restoreOriginalFileFromBackupFile')}
        self.ops = {}     # (fn id, line) -> fs operations seen
        self.issues = {}  # (rule, fn, line, detail) -> why

    def relevant(self, fid):
        return fid in self.rel

    def issue(self, rule, fn, n, detail, why):
        self.issues.setdefault((rule, fn.id, n['l'], detail), (fn, n, why))

    # ---- frames
    def enter(self, fn, node, target, st):
        f = self.p.fns[target]
        a = node.a
        args = a.get('c', [])
        if a['k'] == 'OCall' and a.get('m'):
            args = args[1:]
        env = []
        if 'lambda' in f.d:
            env += list(st.env)
        for p, x in zip(f.params, args):
            l = self.lab.of(fn, x, st.env)
            if l:
                env.append((p['id'], l))
        return st._replace(env=frozenset(env), ret=None)

    def leave(self, fn, node, target, before, st, exc=None):
        st = st._replace(env=before.env)
        if exc and target in self.restorers and st.s == 'M' and before.s == 'M':
            a = [self.lab.of(fn, x, before.env) for x in node.a.get('c', [])[:2]]
            if a == [st.o, st.b]:
                st = st._replace(s='F', pend=None)  # restoring has been attempted; that it failed is reported
        return st

    # ---- error codes
    def ecvar(self, fn, n, env):
        """label of the error code a condition tests and the outcome meaning 'failed'"""
        n = strip(n)
        if n is None:
            return None
        if n['k'] == 'MCall' and n.get('q', '') in ('std::error_code::operator bool', 'std::error_code::value'):
            return self.lab_ec(fn, n['obj'], env), True
        if n['k'] in ('Bin', 'OCall') and n['op'] in ('==', '!=') and len(n['c']) == 2:
            a, b = strip(n['c'][0]), strip(n['c'][1])
            if fn.ty(a).get('s') == 'std::error_code' or (a['k'] == 'MCall' and a.get('q') == 'std::error_code::value'):
                x = a['obj'] if a['k'] == 'MCall' and a.get('q') == 'std::error_code::value' else a
                if not self.success(b):
                    return None
                return self.lab_ec(fn, x, env), n['op'] == '!='
        return None

    @staticmethod
    def success(n):
        """the value of an error code meaning success"""
        while n is not None and n['k'] in ('Cast', 'Ctor', 'Call') and 'cv' not in n and len([c for c in n.get('c', []) if c and c['k'] != 'DefArg']) == 1:
            n = strip([c for c in n['c'] if c and c['k'] != 'DefArg'][0])
        return n is not None and (n.get('cv') == 0 or n['k'] in ('Ctor', 'ZeroInit') and not n.get('c'))

    def specific(self, fn, n, env):
        """label of an error code compared with a certain error and whether the condition means equality"""
        n = strip(n)
        if n is None or n['k'] not in ('Bin', 'OCall') or n.get('op') not in ('==', '!=') or len(n['c']) != 2:
            return None
        for a, b in (n['c'], n['c'][::-1]):
            a, b = strip(a), strip(b)
            x = a['obj'] if a is not None and a['k'] == 'MCall' and a.get('q') == 'std::error_code::value' else a
            if x is not None and fn.ty(x).get('s', '').replace('const ', '') == 'std::error_code' and not self.success(b):
                return self.lab_ec(fn, x, env), n['op'] == '=='
        return None

    def lab_ec(self, fn, n, env):
        n = strip(n)
        if n is not None and n['k'] == 'Var':
            for v, l in env:
                if v == n['v']:
                    return l
            return frozenset(['v%d' % n['v']])
        if n is not None and n['k'] in ('Call', 'MCall'):
            return frozenset(['@ret'])
        return self.lab.of(fn, n, env)

    def settle(self, st, failed):
        """the outcome of the pending operation is known"""
        what, src, dst, ec = st.pend
        st = st._replace(pend=None, known=frozenset({k for k in st.known if k[1] != ec} | {('EC', ec, failed)}))
        if failed:
            return st
        return self.done(st, what, src, dst)

    def done(self, st, what, src, dst):
        if what in ('rename', 'copy'):
            if st.s == 'M' and src == st.b and dst == st.o:
                st = st._replace(s='R')
            elif st.s in ('I', 'R', 'F'):
                st = st._replace(s='M', o=src, b=dst)
            else:
                st = st._replace(s='M', o=frozenset(['?']), b=frozenset(['?']))
            known = {k for k in st.known if k[1] != src and k[1] != dst}
            known.add(('E', dst, True))
            return st._replace(known=frozenset(known))
        return st

    # ---- events
    @staticmethod
    def isret(st):
        r = frozenset(['@ret'])
        return st.pend and st.pend[3] == r or any(k[0] == 'EC' and k[1] == r for k in st.known)

    @staticmethod
    def returned(st, l):
        """the error code returned by the last callee is stored in l"""
        r = frozenset(['@ret'])
        if st.pend and st.pend[3] == r:
            st = st._replace(pend=st.pend[:3] + (l,))
        return st._replace(known=frozenset({k for k in st.known if k[1] not in (l, r)} | {('EC', l, k[2]) for k in st.known if k[0] == 'EC' and k[1] == r}))

    def event(self, fn, n, st):
        a = n.a
        if n.k == 'r':
            e = strip(a['c'][0]) if a.get('c') else None
            neg = False
            while e is not None and e['k'] == 'Un' and e['op'] == '!':
                e, neg = strip(e['c'][0]), not neg
            if e is not None and fn.ty(e).get('k') == 'bool':
                if 'cv' in e:
                    return (st._replace(ret=bool(e['cv']) != neg),)
                t = self.ecvar(fn, e, st.env)
                if t and st.pend and t[0] == st.pend[3]:
                    return (self.settle(st, True)._replace(ret=t[1] != neg), self.settle(st, False)._replace(ret=t[1] == neg))
            if e is not None and st.pend and fn.ty(e).get('s') == 'std::error_code' and self.lab_ec(fn, e, st.env) == st.pend[3]:
                return (st._replace(pend=st.pend[:3] + (frozenset(['@ret']),)),)
            if e is not None and fn.ty(e).get('s') == 'std::error_code':
                # the outcome is known to the callee
                l, r = self.lab_ec(fn, e, st.env), frozenset(['@ret'])
                return (st._replace(known=frozenset({k for k in st.known if k[1] != r} | {('EC', r, k[2]) for k in st.known if k[0] == 'EC' and k[1] == l})),)
            return None
        if n.k == 'd':
            if self.isret(st) and a.get('i') and fn.T[a['t']].get('s', '').replace('const ', '') == 'std::error_code':
                i = strip(a['i'])
                while i is not None and i['k'] == 'Ctor' and len(i.get('c', [])) == 1:
                    i = strip(i['c'][0])
                if i is not None and i['k'] in ('Call', 'MCall', 'OCall'):
                    return (self.returned(st, frozenset(['v%d' % a['id']])),)
            return None
        if n.k != 'e':
            return None
        q = a.get('q', '')
        if self.isret(st) and a['k'] in ('OCall', 'Assign') and a.get('op', '=') == '=' and fn.ty(a['c'][0]).get('s') == 'std::error_code':
            i = strip(a['c'][1])
            while i is not None and i['k'] == 'Ctor' and len(i.get('c', [])) == 1:
                i = strip(i['c'][0])
            if i is not None and i['k'] in ('Call', 'MCall', 'OCall'):
                return (self.returned(st, self.lab_ec(fn, a['c'][0], st.env)),)
        if a['k'] == 'Call' and q in NULLOP:
            args = [x for x in a['c'] if x]
            ecs = [x for x in args if fn.ty(x).get('s') == 'std::error_code']
            ec = self.lab_ec(fn, ecs[-1], st.env) if ecs else None
            self.ops.setdefault((fn.id, a['l'], q), (fn, a))
            if st.pend:
                if ec == st.pend[3]:
                    self.issue('error-code', fn, a, 'result of %s not tested before %s' % (st.pend[0], q[len(FS):]),
                               'a failing operation goes unnoticed')
                both = [self.settle(st, True), self.settle(st, False)]
            else:
                both = [st]
            out = []
            for s in both:
                if q in MOVE:
                    src, dst = self.lab.of(fn, args[0], s.env), self.lab.of(fn, args[1], s.env)
                    over = q != FS + 'copy_file' or any(x['k'] != 'DefArg' and 'copy_options' in fn.ty(x).get('s', '') and x.get('cv', 1) != 0 for x in args[2:])
                    if over and ('E', dst, False) not in s.known and not (s.s == 'M' and dst == s.o):
                        self.issue('clobber', fn, a, '%s(): target has not been tested to be unused' % q[len(FS):], 'an existing file may be overwritten')
                    what = MOVE[q]
                elif q in REMOVE:
                    src, dst, what = self.lab.of(fn, args[0], s.env), None, 'remove'
                    others = [k for k in s.known if k[0] == 'E' and k[2] and k[1] != src]
                    if not others:
                        self.issue('remove', fn, a, '%s() without the replacement known to exist' % q[len(FS):],
                                   'the only copy of the file may be removed')
                else:
                    src, dst, what = self.lab.of(fn, args[0], s.env), None, q[len(FS):]
                if ec is not None:
                    s = s._replace(known=frozenset(k for k in s.known if k[1] != ec))
                    out.append(s._replace(pend=(what, src, dst, ec)))
                else:
                    out.append(self.done(s, what, src, dst))
            return tuple(set(out))
        if a['k'] == 'Call' and q.startswith(FS):
            ecs = [self.lab_ec(fn, x, st.env) for x in a['c'] if x and fn.ty(x).get('s') == 'std::error_code']
            if ecs and st.pend and st.pend[3] in ecs:
                self.issue('error-code', fn, a, 'result of %s not tested before %s' % (st.pend[0], q[len(FS):]), 'a failing operation goes unnoticed')
            return (st._replace(known=frozenset(k for k in st.known if k[1] not in ecs)),) if ecs else (st,)
        if st.s == 'I' and a['k'] == 'Call' and a.get('fn') in self.restorers:
            return (st,)  # there is no backup to restore; the function refuses (see its own obligations)
        # modification of a path variable
        if a['k'] in ('Assign', 'CAssign', 'OCall', 'MCall', 'Call', 'Ctor'):
            if any(t in self.rel for t in (self.p.targets(a) if 'fn' in a else ())):
                return None
            labs = [self.lab_ec(fn, {'k': 'Var', 'v': v}, st.env) for v in self.lab.modified(fn, a)]
            labs = [l for l in labs if l]
            if not labs:
                return None
            m = frozenset().union(*labs)
            new = st
            if st.known:
                new = new._replace(known=frozenset(k for k in st.known if not (k[1] & m)))
            if st.s == 'M' and ((st.o & m) or (st.b & m)):
                new = new._replace(o=frozenset(['?']), b=frozenset(['?']))
            if st.pend and st.pend[3] & m:
                self.issue('error-code', fn, a, 'error code of %s overwritten before it was tested' % st.pend[0], '')
            if new != st:
                return (new,)
        return None

    def event_x(self, fn, n, st, t):
        a = n.a
        if n.k == 'e' and a.get('q', '') in NULLOP:
            return (st,)
        r = self.event(fn, n, st)
        return r if r is not None else (st,)

    def resolve(self, fn, n):
        """looks through boolean variables which are never modified; -> (expression, negated)"""
        neg = False
        for _ in range(8):
            n = strip(n)
            if n is None:
                return None, neg
            if (n['k'] == 'Un' or n['k'] == 'OCall' and len(n['c']) == 1) and n['op'] == '!':
                n, neg = n['c'][0], not neg
                continue
            if n['k'] == 'Var':
                decl, modv = self.lab.info(fn)
                if decl.get(n['v']) is not None and n['v'] not in modv:
                    n = decl[n['v']]
                    continue
            break
        return n, neg

    def edge(self, fn, n, lab, st):
        if n.k != 'b' or lab not in (True, False):
            return st
        c, neg = self.resolve(fn, n.a)
        if c is None:
            return st
        val = lab != neg
        if st.ret is not None:
            if c['k'] in ('Call', 'MCall', 'OCall') and any(t in self.rel for t in (self.p.targets(c) if 'fn' in c else ())):
                if st.ret != val:
                    return None
            st = st._replace(ret=None)
        if st.pend:
            t = self.ecvar(fn, c, st.env)
            if t and t[0] == st.pend[3]:
                return self.settle(st, val == t[1])
            t = self.specific(fn, c, st.env)
            if t and t[0] == st.pend[3] and val == t[1]:
                return self.settle(st, True)
        else:
            t = self.ecvar(fn, c, st.env)
            if t and ('EC', t[0], val != t[1]) in st.known:
                return None
        if c['k'] == 'Call' and c.get('q', '') == FS + 'exists':
            l = self.lab.of(fn, c['c'][0], st.env)
            return st._replace(known=frozenset({k for k in st.known if k[1] != l} | {('E', l, val)}))
        if c['k'] == 'MCall' and c.get('q', '').split('::')[-1] == 'empty' and st.s == 'M':
            l = self.lab.of(fn, c['obj'], st.env)
            if l == st.b and val:
                return None
        return st
