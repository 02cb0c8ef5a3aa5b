"""Discharges individual throwing sites whose precondition is established by the surrounding code."""
from exc import OOR, CONV, IOS
from access import Access
from facts import nodes


class SiteFilter:
    """callable (fn, node, types): removes exception types which the site cannot raise"""

    def __init__(self, prog):
        self.p = prog
        self.acc = Access(prog)
        self.memo = {}
        self.count = {}

    def __call__(self, fn, n, out):
        q = n.get('q', '')
        if OOR in out and q.endswith('::substr'):
            if self.substr_ok(fn, n):
                out.pop(OOR)
                self.note('substr position derived from a search or guarded')
        if 'std::bad_optional_access' in out and self.opt_ok(fn, n):
            out.pop('std::bad_optional_access')
            self.note('optional accessed below has_value()')
        if OOR in out and q.endswith('>::at') and n.get('obj') and self.at_ok(fn, n):
            out.pop(OOR)
        if CONV in out and q == 'CppUtilities::convertLatin1ToUtf8':
            out.pop(CONV)
            self.note('Latin-1 to UTF-8 is total')

        if IOS in out and self.memstream_ok(fn, n):
            out.pop(IOS)
            self.note('write to a local string stream')

    def memstream_ok(self, fn, n):
        """writing to (or reading back everything from) a string stream local to the function: only fails when memory runs out"""
        if n['k'] != 'MCall' or not n.get('obj') or n['obj']['k'] != 'Var':
            return False
        m = n['q'].split('::')[-1]
        v = n['obj']['v']
        q = n['q']
        ls = fn.extra.get('memstreams')
        if ls is None:
            ls, wr = set(), {}
            for x in fn.nodes():
                if x['k'] == 'DeclStmt':
                    for d in x['decls']:
                        ts = fn.T[d['t']]['s']
                        if ts.startswith(('std::basic_stringstream<', 'std::basic_ostringstream<')):
                            ls.add(d['id'])
                        elif ts == 'CppUtilities::BinaryWriter' and d.get('i'):
                            for y in nodes(d['i']):
                                if y['k'] == 'Un' and y['op'] == '&' and y['c'][0]['k'] == 'Var' and y['c'][0]['v'] in ls:
                                    wr[d['id']] = y['c'][0]['v']
            ls = fn.extra['memstreams'] = (ls, wr)
        if q.startswith('CppUtilities::BinaryWriter::write'):
            return v in ls[1]
        if v in ls[0]:
            if m in ('write', 'put', 'exceptions', 'tellp', 'tellg', 'str', 'operator<<'):
                return True
            if m == 'read':
                return any(y['k'] == 'MCall' and y['q'].endswith('::tellp') and y['obj'].get('v') == v for y in nodes(n['c'][1]))
        return False

    def note(self, s):
        self.count[s] = self.count.get(s, 0) + 1

    # ---- at(index)
    MAPS = ('TagParser::MatroskaCuePositionUpdater::m_sizes', 'TagParser::MatroskaCuePositionUpdater::m_offsets')

    def at_ok(self, fn, n):
        o = n['obj']
        if o['k'] == 'Member' and o['q'] in self.MAPS:
            self.note('assumed: cue updater maps contain every element seen by its parse()')
            return True
        return False

    # ---- substr(pos)
    def substr_ok(self, fn, n):
        key = id(n)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._substr(fn, n)
        return r

    def _substr(self, fn, n):
        pos = n['c'][0]
        while pos['k'] == 'Cast':
            pos = pos['c'][0]
        add = 0
        if pos['k'] == 'Bin' and pos['op'] == '+' and pos['c'][1].get('cv') is not None:
            add, pos = pos['c'][1]['cv'], pos['c'][0]
        if pos['k'] == 'Var':
            # a variable only ever assigned from searches: search() + 1 <= size(), and npos + 1 == 0
            srcs = self.sources(fn, pos['v'])
            if srcs and all(self.is_pos(fn, s, {pos['v']}) for s in srcs) and add <= 1:
                return add == 1 or self.guarded(fn, n, lambda f, a: f[0] == 'c' and f[1][0] == '!=' and f[1][1] == 'v%d' % pos['v'])
        c = n['c'][0].get('cv')
        if c is not None:
            # constant position: below a successful prefix test with a literal of at least that length
            obj = self.acc.key(fn, n['obj'])
            # a search in the same string returned a position p < size(), and c <= p + 1
            found = set()
            for x in fn.nodes():
                if x['k'] == 'DeclStmt':
                    for d in x['decls']:
                        if d.get('i') and is_search(d['i']) and obj in [self.acc.key(fn, y['obj']) for y in nodes(d['i']) if y['k'] == 'MCall' and y.get('obj')]:
                            found.add('v%d' % d['id'])
            if found and self.guarded(fn, n, lambda f, a: f[0] == 'c' and f[1][0] == '==' and f[1][1] in found and f[1][2].startswith('#')
                                      and f[1][2][1:].isdigit() and c <= int(f[1][2][1:]) + 1):
                return True
            for x in fn.nodes():
                if x['k'] == 'If' and x.get('then') and x.get('cond') and self.prefix_len(fn, x['cond'], obj) >= c and any(y is n for y in nodes(x['then'])):
                    return True
        return False

    def sources(self, fn, v):
        srcs = []
        for x in fn.nodes():
            if x['k'] == 'DeclStmt':
                srcs += [d['i'] for d in x['decls'] if d.get('id') == v and d.get('i')]
            elif x['k'] == 'Assign' and x['c'][0]['k'] == 'Var' and x['c'][0].get('v') == v:
                srcs.append(x['c'][1])
        return srcs

    def is_pos(self, fn, n, seen):
        """value is 0 or the result of a search (possibly through other local variables)"""
        while n['k'] in ('Cast', 'DefArg'):
            n = n['c'][0]
        if n['k'] == 'CXXScalarValueInitExpr' or n.get('cv') == 0:
            return True
        if n['k'] == 'Cond':
            return all(self.is_pos(fn, x, seen) for x in n['c'][1:])
        if n['k'] == 'Var':
            if n['v'] in seen:
                return True
            srcs = self.sources(fn, n['v'])
            return bool(srcs) and all(self.is_pos(fn, s, seen | {n['v']}) for s in srcs)
        return is_search(n)

    def prefix_len(self, fn, cond, obj):
        """number of characters the string obj has at least when cond holds"""
        if cond['k'] == 'Cast':
            return self.prefix_len(fn, cond['c'][0], obj)
        if cond['k'] == 'Bin' and cond['op'] in ('&&', '||'):
            l = [self.prefix_len(fn, x, obj) for x in cond['c']]
            return max(l) if cond['op'] == '&&' else min(l)
        if cond['k'] in ('Call', 'MCall') and cond.get('q', '').split('::')[-1] in ('startsWith', 'starts_with'):
            args = ([cond['obj']] if cond.get('obj') else []) + cond['c']
            if self.acc.key(fn, args[0]) == obj:
                return max([s['len'] for a in args[1:] for s in nodes(a) if s['k'] == 'Str'] or [0])
        for f in self.facts(fn, cond, True):
            if f[0] == 'c' and f[1][1] in (obj + '.size()', obj + '.length()') and f[1][2][1:].isdigit():
                return int(f[1][2][1:]) + (1 if f[1][0] == '>' else 0) if f[1][0] in ('>', '>=', '==') else 0
        return 0

    def guarded(self, fn, n, pred):
        for x in fn.nodes():
            if x['k'] in ('If', 'Cond'):
                cond, then = (x['cond'], x['then']) if x['k'] == 'If' else (x['c'][0], x['c'][1])
                els = x.get('else') if x['k'] == 'If' else x['c'][2]
                import guards
                for br, val in ((then, True), (els, False)):
                    if br and any(y is n for y in nodes(br)):
                        if any(pred(f, self.acc) for f in self.facts(fn, cond, val)):
                            return True
        return False

    def facts(self, fn, cond, val):
        import guards
        if cond is None:
            return []
        if cond['k'] == 'Bin' and cond['op'] in ('&&', '||'):
            if (cond['op'] == '&&') == val:
                return self.facts(fn, cond['c'][0], val) + self.facts(fn, cond['c'][1], val)
            return []
        if cond['k'] == 'Un' and cond['op'] == '!':
            return self.facts(fn, cond['c'][0], not val)
        return guards.atoms(fn, self.acc, cond, val)

    def opt_ok(self, fn, n):
        key = id(n)
        r = self.memo.get(key)
        if r is not None:
            return r
        self.memo[key] = False
        o = self.acc.key(fn, n.get('obj'))
        r = o is not None and self.guarded(fn, n, lambda f, a: f[0] == 't' and f[1] == o and f[2])
        self.memo[key] = r
        return r


def is_search(n):
    while n and n['k'] in ('Cast', 'DefArg'):
        n = n['c'][0]
    if n and n['k'] == 'Cond':
        return all(is_search(x) for x in n['c'][1:])
    if n and n['k'] == 'Lit':
        return False
    return bool(n) and n['k'] == 'MCall' and n.get('q', '').split('::')[-1] in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of')
