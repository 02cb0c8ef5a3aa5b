"""Interprocedural exception-flow analysis: for every function the set of exception classes which may leave it.

A function's set is the union over its throw expressions and call sites, filtered by the handlers of the enclosing
try blocks. Virtual calls take the union over all overriders. Functions without a body are covered by the table below
(resource exhaustion - bad_alloc/length_error - is outside of the analysis)."""
import re
from facts import nodes

IOS = 'std::ios_base::failure'
CONV = 'CppUtilities::ConversionException'
OOR = 'std::out_of_range'
RE = '@current'  # the exception being handled by the caller ("throw;" outside of a lexical handler)

EXT = [
    (r'^std::basic_(i|o|io)stream<.*>::(read|readsome|get|getline|peek|ignore|unget|putback|seekg|tellg|sync|flush|operator<<|operator>>|put|seekp|tellp|write)$', IOS),
    (r'^std::basic_(i|o|)fstream<.*>::(open|close)$', IOS),
    (r'^std::basic_ios<.*>::(exceptions|clear|setstate)$', IOS),
    (r'^CppUtilities::NativeFileStream::(open|openFromFileDescriptor|NativeFileStream)$', IOS),
    (r'^CppUtilities::(BinaryReader|BinaryWriter)::(read|write)\w*$', IOS),
    (r'^CppUtilities::BitReader::\w+$', IOS),
    (r'^CppUtilities::(convert\w*|decodeBase64|stringToNumber|bufferToNumber)$', CONV),
    (r'^CppUtilities::(DateTime|DateTimeExpression|TimeSpan|Period)::from\w*$', CONV),
    (r'^CppUtilities::(readFile|openFile)\w*$', IOS),
    (r'^std::(__cxx11::)?(basic_string|basic_string_view|vector|array|deque|map|multimap|unordered_map|bitset)<.*>::at$', OOR),
    (r'^std::(basic_string|basic_string_view)<.*>::(substr|copy)$', OOR),
    (r'^std::sto(i|l|ul|ll|ull|f|d|ld)$', OOR),
    (r'^std::sto(i|l|ul|ll|ull|f|d|ld)$', 'std::invalid_argument'),
    (r'^std::optional<.*>::value$', 'std::bad_optional_access'),
    (r'^std::get$', 'std::bad_variant_access'),
    (r'^std::any_cast$', 'std::bad_any_cast'),
]
EXT = [(re.compile(a), b) for a, b in EXT]
_extc = {}


def ext_throws(q):
    r = _extc.get(q)
    if r is None:
        r = {b for a, b in EXT if a.match(q)}
        if q == 'std::get':
            r = set()
        _extc[q] = r
    return r


FSERR = 'std::filesystem::filesystem_error'


def call_ext(fn, n):
    q = n.get('q', '')
    if n.get('nx'):
        return set()
    r = set(ext_throws(q))
    if q.startswith('std::filesystem::') and not q.startswith('std::filesystem::path') and not q.startswith('std::filesystem::operator'):
        args = n.get('c', [])
        if not any(fn.ty(a).get('s') == 'std::error_code' for a in args if a):
            r.add(FSERR)
    # string(view)::substr/copy with constant position 0 (or default) never throws
    if q.endswith('::substr'):
        a = n.get('c', [])
        if not a or a[0].get('cv') == 0 or (a[0].get('k') == 'DefArg'):
            r.discard(OOR)
    # clear() / exceptions(goodbit) do not set an error state
    if q.startswith('std::basic_ios<') and q.endswith(('::clear', '::exceptions')):
        a = n.get('c', [])
        if a and a[0] and (a[0].get('k') == 'DefArg' or a[0].get('cv') == 0):
            r.discard(IOS)
    if q.endswith('::copy'):
        a = n.get('c', [])
        if len(a) >= 3 and (a[2].get('k') == 'DefArg' or a[2].get('cv') == 0):
            r.discard(OOR)
    return r


def ends(n):
    """statement definitely leaves the function"""
    if not n:
        return False
    if n['k'] in ('Return', 'Throw'):
        return True
    if n['k'] == 'Compound' and n.get('c'):
        return ends(n['c'][-1])
    return False


class ExcFlow:
    def __init__(self, prog, site_filter=None):
        """site_filter(fn, node, types) may remove types proven impossible at a site"""
        self.p = prog
        self.site_filter = site_filter
        self.csum = {}   # (function id, constant arguments) -> {exception: witness}
        self.callers = {}
        self.ctxp = {}
        # functions whose address is taken (called through pointers/binders)
        self.taken = set()
        self.calls_in = {}
        for f in prog.fns.values():
            for n in f.nodes():
                k = n['k']
                if k == 'FnRef' and n['fn'] in prog.fns:
                    self.taken.add(n['fn'])
        self.run()
        self.sum = {fid: self.csum[(fid, ())] for fid in prog.fns}

    def ctx_params(self, f):
        """parameters (enum/bool, never modified) whose constant value decides an if of the function"""
        r = self.ctxp.get(f.id)
        if r is None:
            cand = {p['id']: i for i, p in enumerate(f.params) if f.T[p['t']].get('k') in ('enum', 'bool')}
            r = []
            if cand and f.body:
                tested = set()
                for n in nodes(f.body):
                    k = n['k']
                    if k == 'If' and n.get('cond'):
                        tested |= {x['v'] for x in nodes(n['cond']) if x['k'] == 'Var'}
                    elif k in ('Call', 'MCall', 'OCall', 'Ctor'):
                        tested |= {x['v'] for x in n.get('c', []) if x and x['k'] == 'Var'}
                    elif k in ('Assign', 'CAssign') or (k == 'Un' and n['op'] in ('++', '--', '&')):
                        c = n['c'][0]
                        if c and c['k'] == 'Var':
                            cand.pop(c['v'], None)
                r = sorted((i, v) for v, i in cand.items() if v in tested)
            self.ctxp[f.id] = r
        return r

    def key_for(self, tf, n):
        ps = self.ctx_params(tf)
        if not ps:
            return (tf.id, ())
        args = n.get('c', [])
        if n['k'] == 'OCall' and n.get('m'):
            args = args[1:]
        env = []
        for i, v in ps:
            if i < len(args) and args[i]:
                a = args[i]
                if a['k'] == 'DefArg':
                    a = a['c'][0]
                if a and 'cv' in a:
                    env.append((v, a['cv']))
                elif a and a['k'] == 'Var' and a['v'] in self.env:
                    env.append((v, self.env[a['v']]))
        return (tf.id, tuple(env))

    def run(self):
        self.work = []
        self.inq = set()
        self.env = {}
        for fid in self.p.fns:
            self.need((fid, ()))
        while self.work:
            key = self.work.pop()
            self.inq.discard(key)
            f = self.p.fns[key[0]]
            self.cur_key = key
            self.env = dict(key[1])
            new = self.function(f)
            old = self.csum[key]
            if set(new) - set(old):
                for t, w in new.items():
                    old.setdefault(t, w)
                for c in self.callers.get(key, ()):
                    if c not in self.inq:
                        self.inq.add(c)
                        self.work.append(c)

    def need(self, key):
        if key not in self.csum:
            self.csum[key] = {}
            self.inq.add(key)
            self.work.append(key)
        return self.csum[key]

    def use(self, key):
        r = self.need(key)
        self.callers.setdefault(key, set()).add(self.cur_key)
        return r

    def const(self, n):
        """truth value of a condition under the constant parameters, or None"""
        if n is None:
            return None
        if 'cv' in n:
            return n['cv']
        k = n['k']
        if k == 'Var':
            return self.env.get(n['v'])
        if k == 'Cast':
            return self.const(n['c'][0])
        if k == 'Un' and n['op'] == '!':
            v = self.const(n['c'][0])
            return None if v is None else int(not v)
        if k == 'Bin':
            a, b = self.const(n['c'][0]), self.const(n['c'][1])
            op = n['op']
            if op == '&&':
                if a == 0 or b == 0:
                    return 0
                return 1 if a and b else None
            if op == '||':
                if a or b:
                    return 1
                return 0 if a == 0 and b == 0 else None
            if a is None or b is None:
                return None
            if op == '==':
                return int(a == b)
            if op == '!=':
                return int(a != b)
        return None

    def function(self, f):
        out = {}
        for i in f.inits:
            if i.get('e'):
                self._merge(out, self.expr(f, i['e'], None))
        # function-try-blocks are not used here
        if f.body:
            self._merge(out, self.stmt(f, f.body, None))
        return out

    @staticmethod
    def _merge(a, b):
        for t, w in b.items():
            a.setdefault(t, w)

    def catches(self, handler_type, t):
        if handler_type is None:
            return True
        if t == RE:
            return False
        return self.p.isa(t, handler_type)

    def handler_type(self, f, h):
        return f.T[h['t']]['s'] if 't' in h else None

    def split(self, f, t, body_exc):
        """-> list of caught dicts per handler, dict of uncaught"""
        left = dict(body_exc)
        caught = []
        for h in t['handlers']:
            ht = self.handler_type(f, h)
            c = {x: w for x, w in left.items() if self.catches(ht, x)}
            for x in c:
                del left[x]
            if RE in left:
                c.setdefault(RE, left[RE])  # might be of that type
            caught.append(c)
        return caught, left

    def stmt(self, f, n, cur):
        """cur: exceptions which the lexically enclosing handler has caught (None outside of handlers)"""
        if n is None:
            return {}
        k = n['k']
        if k == 'Try':
            be = self.stmt(f, n['body'], cur)
            caught, left = self.split(f, n, be)
            for h, c in zip(n['handlers'], caught):
                if c:  # nothing to handle: the handler is never entered
                    self._merge(left, self.stmt(f, h['body'], c))
            return left
        out = {}
        if k in ('Call', 'MCall', 'OCall', 'Ctor', 'Throw', 'Lambda'):
            return self.expr(f, n, cur)
        if k == 'Compound' and self.env:
            for x in n.get('c', []):
                self._merge(out, self.stmt(f, x, cur))
                if x and x['k'] == 'If':
                    v = self.const(x.get('cond'))
                    if v is not None and ends(x['then'] if v else x['else']):
                        break
            return out
        if k == 'If' and self.env:
            v = self.const(n.get('cond'))
            if v is not None:
                n = dict(n)
                n['else' if v else 'then'] = None
        for key, v in n.items():
            if type(v) is dict:
                if 'k' in v:
                    self._merge(out, self.stmt(f, v, cur))
                elif 'i' in v:
                    self._merge(out, self.stmt(f, v['i'], cur))
            elif type(v) is list:
                for x in v:
                    if type(x) is dict:
                        if 'k' in x:
                            self._merge(out, self.stmt(f, x, cur))
                        elif 'i' in x:
                            self._merge(out, self.stmt(f, x['i'], cur))
        return out

    def callee_exc(self, f, n, cur):
        """exceptions of the call itself (without its arguments)"""
        out = {}
        k = n['k']
        if k == 'Lambda':
            for l in n['fns']:
                # a closure throws where it is called; one which is never seen to be called where it is created
                if l in self.p.fns and l not in self.p.invoked:
                    for t in self.use((l, ())):
                        out.setdefault(t, (f.id, n['l'], l))
        elif 'fn' in n:
            q = n.get('q', '')
            for tgt in self.p.targets(n):
                tf = self.p.fns.get(tgt)
                if tf is not None and (tf.body is not None or tf.inits or tf.d.get('dflt')):
                    if tf.d.get('nx'):
                        continue
                    for t in self.use(self.key_for(tf, n)):
                        out.setdefault(t, (f.id, n['l'], tgt))
                else:
                    for t in call_ext(f, n):
                        out.setdefault(t, (f.id, n['l'], q))
            for l in self.p.handed(f, n):
                if l in self.p.fns:
                    for t in self.use((l, ())):
                        out.setdefault(t, (f.id, n['l'], l))
            if q.startswith('std::_Bind'):
                self.indirect(f, n, out)
        elif 'callee' in n:
            self.indirect(f, n, out)
        if RE in out and cur is not None:
            w = out.pop(RE)
            for t in cur:
                out.setdefault(t, w)
        if self.site_filter and out:
            self.site_filter(f, n, out)
        return out

    def indirect(self, f, n, out):
        m = re.search(r'\((\w+(?:::\w+)*)::\*', n.get('q', ''))
        c = n.get('callee')
        while c and c['k'] in ('Cast', 'Paren') and c.get('c'):
            c = c['c'][0]
        if not m and c and c['k'] == 'Bin' and c.get('op') in ('->*', '.*'):
            m = re.search(r'\((\w+(?:::\w+)*)::\*', f.ty(c['c'][1]).get('s', ''))
        for tgt in self.taken:
            if m and self.p.fns[tgt].rec != m.group(1):
                continue
            for g in [tgt] + (sorted(self.p.all_overriders(tgt)) if m else []):
                for t in self.use((g, ())):
                    out.setdefault(t, (f.id, n['l'], g))

    def expr(self, f, n, cur):
        if n is None:
            return {}
        k = n['k']
        out = {}
        if k == 'Throw':
            for c in n.get('c', []):
                if c:
                    self._merge(out, self.stmt(f, c, cur))
            if 'tt' in n and n['c'] and n['c'][0]:
                t = f.T[n['tt']]['s']
                out.setdefault(t, (f.id, n['l'], None))
            else:
                if cur is None:
                    out.setdefault(RE, (f.id, n['l'], None))
                else:
                    for t, w in cur.items():
                        out.setdefault(t, w)
            return out
        for key in ('obj', 'callee'):
            if n.get(key):
                self._merge(out, self.stmt(f, n[key], cur))
        for c in n.get('c', []):
            if c:
                self._merge(out, self.stmt(f, c, cur))
        if k in ('Call', 'MCall', 'OCall', 'Ctor', 'Lambda'):
            self._merge(out, self.callee_exc(f, n, cur))
        return out

    def trace(self, fid, t, limit=12):
        """call chain from function fid to the origin of exception t"""
        out = []
        seen = set()
        while fid in self.sum and (fid, t) not in seen and len(out) < limit:
            seen.add((fid, t))
            f = self.p.fns[fid]
            w = self.sum[fid].get(t)
            if not w:
                break
            wf, line, nxt = w
            g = self.p.fns.get(wf, f)
            out.append('%s (%s:%s)' % (g.q, g.rel, line))
            if nxt is None:
                break
            if nxt not in self.p.fns:
                out.append(str(nxt))
                break
            fid = nxt
        return out
