"""Common part of all checks: obligations, violations, known findings, evidence."""
import os, sys, json, time, importlib, traceback
import facts
from facts import AnalysisBroken

VERIF = facts.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')


class Shared:
    """analyses shared by several checks (built on demand)"""

    def __init__(self, prog):
        self.p = prog
        self._exc = None
        self._cfgs = None
        self._reach = {}

    @property
    def exc(self):
        if self._exc is None:
            import exc, siteproof
            self._exc = exc.ExcFlow(self.p, siteproof.SiteFilter(self.p))
        return self._exc

    @property
    def cfgs(self):
        if self._cfgs is None:
            import ts
            self._cfgs = ts.Cfgs(self.p, self.exc)
        return self._cfgs

    @property
    def acc(self):
        if not hasattr(self, '_acc'):
            import access
            self._acc = access.Access(self.p)
        return self._acc

    @property
    def mod(self):
        if not hasattr(self, '_mod'):
            import access
            self._mod = access.Mod(self.p, self.acc)
        return self._mod

    @property
    def effects(self):
        if not hasattr(self, '_eff'):
            import effects
            self._eff = effects.Effects(self)
        return self._eff

    # ---- call graph
    def calls(self, f):
        """(node, target ids) of all calls in f"""
        r = f.extra.get('calls')
        if r is None:
            r = []
            for n in f.nodes():
                if n['k'] in ('Call', 'MCall', 'OCall', 'Ctor') and 'fn' in n:
                    r.append((n, self.p.targets(n)))
                elif n['k'] == 'Lambda':
                    r.append((n, [x for x in n['fns']]))
                elif n['k'] == 'FnRef':
                    r.append((n, [n['fn']]))
            f.extra['calls'] = r
        return r

    def callees(self, fid):
        r = self._reach.get(fid)
        if r is None:
            f = self.p.fns.get(fid)
            r = set()
            if f:
                for n, ts in self.calls(f):
                    r.update(ts)
            self._reach[fid] = r
        return r

    def reach(self, roots):
        seen = set()
        st = [r if isinstance(r, str) else r.id for r in roots]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(self.callees(x) - seen)
        return seen

    def may_reach(self, pred):
        """ids of functions from which a call of a function satisfying pred(id, qualified name) can happen"""
        rev = {}
        base = set()
        for f in self.p.fns.values():
            for n, ts in self.calls(f):
                for t in ts:
                    rev.setdefault(t, set()).add(f.id)
                if 'fn' in n and pred(n['fn'], n.get('q', '')):
                    base.add(f.id)
        for f in self.p.fns.values():
            if pred(f.id, f.q):
                base.add(f.id)
        st = list(base)
        while st:
            x = st.pop()
            for y in rev.get(x, ()):
                if y not in base:
                    base.add(y)
                    st.append(y)
        return base

    def chain(self, roots, target):
        """shortest call chain (function objects) from one of roots to target"""
        par = {}
        q = []
        for r in roots:
            r = r if isinstance(r, str) else r.id
            par[r] = None
            q.append(r)
        for x in q:
            if x == target:
                out = []
                while x is not None:
                    if x in self.p.fns:
                        out.append(self.p.fns[x].q)
                    x = par[x]
                return out[::-1]
            for y in self.callees(x):
                if y not in par:
                    par[y] = x
                    q.append(y)
        return []


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obl = {}        # rule -> count
        self.good = {}
        self.samples = []
        self.viol = []
        self.broken = []
        self.minimum = {}
        self.cov = {}
        self.assume = []
        self.fnset = set()

    def use(self, prog, shared):
        self.p, self.sh = prog, shared

    def ok(self, rule, fn=None, node=None, detail=''):
        self.obl[rule] = self.obl.get(rule, 0) + 1
        self.good[rule] = self.good.get(rule, 0) + 1
        if fn is not None and hasattr(fn, 'id'):
            self.fnset.add(fn.id)
        if sum(1 for s in self.samples if s.startswith(rule)) < 4:
            self.samples.append('%s: %s%s' % (rule, (fn.where(node) + ' ' + fn.q + ' ') if hasattr(fn, 'where') else (str(fn) + ' ' if fn else ''), detail))

    def bad(self, rule, fn, node, detail, why='', path=()):
        """detail identifies the construct (stable across line shifts), why explains"""
        self.obl[rule] = self.obl.get(rule, 0) + 1
        if hasattr(fn, 'id'):
            self.fnset.add(fn.id)
        v = {'rule': rule, 'function': fn.q if hasattr(fn, 'q') else str(fn), 'detail': detail, 'why': why,
             'where': fn.where(node) if hasattr(fn, 'where') else '', 'path': [str(x) for x in path]}
        key = (rule, v['function'], detail)
        if any((w['rule'], w['function'], w['detail']) == key for w in self.viol):
            return
        self.viol.append(v)

    def check(self, cond, rule, fn, node, detail, why='', path=()):
        if cond:
            self.ok(rule, fn, node, detail)
        else:
            self.bad(rule, fn, node, detail, why, path)
        return cond

    def need(self, rule, n):
        """the rule must have had at least n obligations (otherwise the analysis lost its anchor)"""
        self.minimum[rule] = n

    def lost(self, what):
        raise AnalysisBroken(what)


def load_known(pid):
    out, fixed = [], []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            if line.startswith('fixed:'):
                fixed.append(line)
                continue
            e = json.loads(line)
            if e['property'] == pid:
                out.append(e)
    return out


def run_check(pid, tier=None, quiet=False, out_dir=None):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    out_dir = out_dir or os.path.join(VERIF, 'evidence')
    os.makedirs(out_dir, exist_ok=True)
    ev = os.path.join(out_dir, pid + '.json')
    rep = os.path.join(out_dir, pid + '.violations.txt')
    for x in (ev, rep):
        if os.path.exists(x):
            os.unlink(x)
    ctx = Ctx(pid, tier)
    mod = None
    try:
        prog = facts.load()
        sh = getattr(prog, 'shared', None) or Shared(prog)
        prog.shared = sh
        ctx.use(prog, sh)
        mod = importlib.import_module('rules.' + pid.lower())
        mod.run(ctx)
        for rule, n in ctx.minimum.items():
            if ctx.obl.get(rule, 0) < n:
                raise AnalysisBroken('rule %s matched %d construct(s), expected at least %d: the code moved away from the rule' % (rule, ctx.obl.get(rule, 0), n))
    except AnalysisBroken as e:
        if not ctx.viol:
            print('ANALYSIS-ERROR property=%s %s' % (pid, e))
            return 2
        ctx.cov['analysis_incomplete'] = str(e)
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s internal error' % pid)
        return 2
    known = load_known(pid)
    new, listed = [], []
    for v in ctx.viol:
        k = next((e for e in known if e['rule'] == v['rule'] and e['function'] == v['function'] and e['detail'] == v['detail']), None)
        (listed if k else new).append((v, k))
    for v, k in listed:
        print('KNOWN-FINDING: property=%s %s (%s in %s)' % (pid, k['what'], v['where'], v['function']))
    level = getattr(mod, 'LEVEL', 'other')
    total = sum(ctx.obl.values())
    cov = {
        'explanation': (mod.EXPLAIN if hasattr(mod, 'EXPLAIN') else mod.__doc__ or pid).strip(),
        'obligations': total,
        'discharged': sum(ctx.good.values()),
        'rules': {r: {'obligations': ctx.obl[r], 'discharged': ctx.good.get(r, 0)} for r in sorted(ctx.obl)},
        'functions_with_obligations': len(ctx.fnset),
        'functions_in_program': len(ctx.p.fns) if hasattr(ctx, 'p') else 0,
        'functions_in_repository': len(ctx.p.repo_fns()),
        'source_files': ctx.p.nsrc,
        'known_findings': len(listed),
        'samples': ctx.samples[:40],
    }
    if level == 'proof':
        cov['checker_cmd'] = 'python3 /verif/bin/check.py ' + pid
        cov['trusted_base'] = list(getattr(mod, 'TRUSTED', [])) + ['clang 18 front end', 'tool/extract.cpp', 'lib/*.py']
    cov.update(ctx.cov)
    evidence = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level, 'coverage': cov,
                'violations': len(new), 'assumptions': ctx.assume + list(getattr(mod, 'ASSUME', [])), 'wall_s': round(time.time() - t0, 3)}
    json.dump(evidence, open(ev, 'w'), indent=1)
    if new:
        with open(rep, 'w') as f:
            for v, _ in new:
                s = '%s: [%s] %s: %s%s' % (v['where'], v['rule'], v['function'], v['detail'], (' -- ' + v['why']) if v['why'] else '')
                f.write(s + '\n')
                for x in v['path']:
                    f.write('    %s\n' % x)
                if not quiet:
                    print(s)
                    for x in v['path'][:14]:
                        print('    ' + x)
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    print('%s: held (%d obligations, %.1fs)' % (pid, total, time.time() - t0))
    return 0
