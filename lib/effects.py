"""Primitive file effects: writes to file streams, openings for writing and modifying filesystem calls."""
from facts import nodes
from backup import Labels, strip, NULLOP, FS
from streams import StreamLabels, is_write

CLIB = {'rename', 'remove', 'unlink', 'truncate', 'ftruncate', 'std::rename', 'std::remove', 'symlink', 'link', 'rmdir', 'mkdir', 'system', 'fopen',
        'std::fopen', 'open', 'creat', FS + 'create_hard_link', FS + 'create_symlink', FS + 'create_directory', FS + 'create_directories', FS + 'permissions'}
IN, OUT, TRUNC, APP = 8, 16, 32, 1


def openmode(fn, n):
    """(path expression, possible open modes (None: unknown)) of a stream open call/constructor, or None"""
    q = n.get('q', '')
    c = None
    if n['k'] == 'MCall' and q.split('::')[-1] == 'open' and ('NativeFileStream' in q or 'fstream<' in q or 'filebuf' in q):
        c = n['c']
    elif n['k'] == 'Ctor' and fn.ty(n).get('s', '').startswith(('std::basic_ofstream', 'std::basic_fstream', 'std::basic_ifstream', 'CppUtilities::NativeFileStream')) \
            and len([x for x in n.get('c', []) if x]) >= 1 and 'char' in (fn.ty(strip(n['c'][0])).get('s', '') + fn.T[fn.ty(strip(n['c'][0])).get('p', -1)].get('s', '') if strip(n['c'][0]) else ''):
        c = n['c']
    if not c:
        return None
    m = modes(fn, c[1] if len(c) > 1 else None)
    if 'ofstream' in q and m is not None:
        m = {x | OUT for x in m}
    return c[0], m


def modes(fn, n):
    if n is None:
        return {IN | OUT}
    if 'cv' in n:
        return {n['cv']}
    n = strip(n) if 'cv' not in n else n
    if n is None:
        return None
    if 'cv' in n:
        return {n['cv']}
    if n['k'] == 'Cond':
        a, b = modes(fn, n['c'][1]), modes(fn, n['c'][2])
        return None if a is None or b is None else a | b
    if n['k'] in ('Bin', 'OCall', 'Call') and (n.get('op') == '|' or n.get('q') == 'std::operator|') and len(n['c']) == 2:
        a, b = modes(fn, n['c'][0]), modes(fn, n['c'][1])
        return None if a is None or b is None else {x | y for x in a for y in b}
    if n['k'] == 'Var':
        # union of everything assigned
        out = set()
        found = False
        for x in fn.nodes():
            if x['k'] == 'DeclStmt':
                for d in x['decls']:
                    if d.get('id') == n['v']:
                        found = True
                        if d.get('i'):
                            m = modes(fn, d['i'])
                            if m is None:
                                return None
                            out |= m
            elif x['k'] in ('Assign', 'CAssign') and strip(x['c'][0]) is not None and strip(x['c'][0]).get('v') == n['v']:
                m = modes(fn, x['c'][1])
                if m is None:
                    return None
                out |= m if x['k'] == 'Assign' else {a | b for a in (out or {0}) for b in m} | out
            elif x['k'] == 'OCall' and x['op'] in ('=', '|=') and strip(x['c'][0]) is not None and strip(x['c'][0]).get('v') == n['v']:
                m = modes(fn, x['c'][1])
                if m is None:
                    return None
                out |= m if x['op'] == '=' else {a | b for a in (out or {0}) for b in m} | out
        return out if found else None
    if n['k'] == 'Global' or n['k'] == 'Ref' or n['k'] == 'Member':
        nm = n.get('q', n.get('n', '')).split('::')[-1]
        d = {'in': IN, 'out': OUT, 'trunc': TRUNC, 'app': APP, 'binary': 4, 'ate': 2}
        return {d[nm]} if nm in d else None
    return None


class Effects:
    def __init__(self, sh):
        self.sh, self.p = sh, sh.p
        self.lab = Labels(sh.p, sh.acc, sh.mod)
        self.sl = StreamLabels(sh.p, self.lab)
        self.prim = {}
        for f in sh.p.repo_fns():
            l = [(n, w) for n in f.nodes() for w in [self.classify(f, n)] if w]
            if l:
                self.prim[f.id] = l
        hard = {i for i, l in self.prim.items() if any(w != 'rw' for _, w in l)}
        self.may = sh.may_reach(lambda i, q: i in hard)

    def classify(self, f, n):
        """'write' / 'open' (truncating) / 'rw' (opening for writing without truncating) / 'fs', or None"""
        w = is_write(n)
        if w is not None:
            return 'write' if self.sl.of(f, w, ()) != 'S' else None
        q = n.get('q', '')
        if n['k'] == 'Call' and (q in NULLOP and q != FS + 'canonical' or q in CLIB):
            return 'fs'
        o = openmode(f, n)
        if o:
            if o[1] is None or any(m & (APP | TRUNC) or m & OUT and not m & IN for m in o[1]):
                return 'open'
            return 'rw' if any(m & OUT for m in o[1]) else None
        return None
