"""Obligations, verdicts, evidence, known findings: what every check shares."""
import ast, json, os, sys, time, traceback, hashlib
from . import terms as tm, interp as I
from .terms import T, sym, const, TRUE, FALSE, NONE

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')


class OutOfTime(BaseException):
    pass


class AnchorLost(Exception):
    pass


class Ctx(object):
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.obs = []          # dict(name, rule, where, verdict, detail)
        self.t0 = time.time()
        self.prog = I.Program(REPO, extra=[VERIF])
        self.functions = set()
        self.sites = 0
        self.trials = 24 if self.tier == 'quick' else 400
        self.assumptions = []
        self.floor = 1
        self.lost = []
        self.files = set()

    # ---------------------------------------------------------- recording
    def _rec(self, verdict, name, rule, where, detail):
        now = time.time()
        if os.environ.get('SA_TIME') and now - getattr(self, 'tl', self.t0) > float(os.environ['SA_TIME']):
            print('  %.1fs before %s' % (now - getattr(self, 'tl', self.t0), name))
        self.tl = now
        self.obs.append(dict(name=name, rule=rule, where=where or '', verdict=verdict, detail=detail or ''))
        return verdict

    def ok(self, name, rule, where='', detail=''):
        return self._rec('holds', name, rule, where, detail)

    def bad(self, name, rule, where='', detail=''):
        return self._rec('violated', name, rule, where, detail)

    def undecided(self, name, rule, where='', detail=''):
        return self._rec('undecided', name, rule, where, detail)

    # ---------------------------------------------------------- value graphs
    def runner(self, opaque=(), models=None):
        I.reset()
        r = Runner(self, opaque, models)
        return r

    def equal(self, name, rule, where, a, b, dom=None, tol=1e-7, period=None, constraint=None, prove=True, trials=None, skeleton=True, absolute=False):
        """obligation: two value graphs denote the same function"""
        try:
            fa, fb = flat(a), flat(b)
        except I.Unsupported as e:
            return self.undecided(name, rule, where, 'value outside the modelled language: %s' % e)
        if len(fa) != len(fb):
            return self.bad(name, rule, where, 'result has %d components, expected %d' % (len(fa), len(fb)))
        how = []
        for i, (x, y) in enumerate(zip(fa, fb)):
            p = period[i] if isinstance(period, (list, tuple)) else period
            try:
                v = tm.equal(x, y, dom=dom, tol=tol, seed=self.seed, trials=trials or self.trials, period=p,
                             constraint=constraint, prove=prove, accept_skeleton=skeleton, absolute=absolute)
            except (tm.Blowup, RecursionError) as e:
                v = tm.Verdict('undecided', 'too large: %s' % e)
            if v.kind == 'differs':
                w, va, vb = v.witness
                ww = ', '.join('%s=%.6g' % (k, float(u)) for k, u in sorted(w.items())[:10])
                return self.bad(name, rule, where, 'component %d: computed graph differs from the required one; e.g. at %s: %.9g instead of %.9g; computed: %s' % (i, ww, va, vb, tm.show(x, 4)[:300]))
            if v.kind == 'undecided':
                return self.undecided(name, rule, where, v.how)
            how.append(v.how)
        return self.ok(name, rule, where, '; '.join(sorted(set(how))))

    def guard(self, f, *a, **k):
        """run a check section; analysis failures become undecided obligations"""
        nm = getattr(f, '__name__', 'section')
        try:
            return f(*a, **k)
        except AnchorLost as e:
            self.lost.append(str(e))
        except (I.Unsupported, tm.Blowup, RecursionError) as e:
            self.undecided(nm, 'section', '', 'outside the modelled language: %s' % e)
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            self.undecided(nm, 'section', '', 'analysis error %s: %s' % (type(e).__name__, e))

    # ---------------------------------------------------------- finish
    def known(self):
        p = os.path.join(VERIF, 'known_findings.txt')
        out = {}
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith('KNOWN property='):
                    rest = line[len('KNOWN property='):]
                    pid, key = rest.split(' ', 1)
                    key, _, txt = key.partition(' :: ')
                    out[(pid, key.strip())] = txt.strip()
        return out

    def finish(self, level='other', explanation='', extra=None):
        known = self.known()
        viol, kf = [], []
        for o in self.obs:
            if o['verdict'] == 'violated':
                key = (self.pid, o['name'])
                if key in known:
                    kf.append((o, known[key]))
                else:
                    viol.append(o)
        dec = [o for o in self.obs if o['verdict'] in ('holds', 'violated')]
        und = [o for o in self.obs if o['verdict'] == 'undecided']
        evd = os.environ.get('SA_EVID') or os.path.join(VERIF, 'evidence')
        rep = os.path.join(evd, 'replay', '%s.json' % self.pid)
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        cov = dict(explanation=explanation or 'static analysis of /repo sources',
                   obligations=len(self.obs), discharged=len([o for o in self.obs if o['verdict'] == 'holds']),
                   undecided=len(und), functions_analysed=len(self.functions),
                   source_files=len(self.files),
                   rules=sorted(set(o['rule'] for o in self.obs)),
                   samples=[dict((k, str(v)[:300]) for k, v in o.items()) for o in (viol[:3] + dec[:6])],
                   undecided_list=[o['name'] + ': ' + o['detail'][:120] for o in und][:30],
                   functions=sorted(self.functions)[:200])
        if extra:
            cov.update(extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 3), violations=len(viol))
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        with open(rep, 'w') as f:
            json.dump(dict(property=self.pid, repo=REPO, violations=viol, known=[k[0] for k in kf]), f, indent=1)
        print('%s: %d obligations, %d hold, %d violated, %d known, %d undecided; %d functions analysed, %.1fs' %
              (self.pid, len(self.obs), cov['discharged'], len(viol), len(kf), len(und), len(self.functions), ev['wall_s']))
        if os.environ.get('SA_VERBOSE'):
            for o in self.obs:
                if o['verdict'] != 'holds' or os.environ['SA_VERBOSE'] == '2':
                    print('  [%s] %s (%s) %s :: %s' % (o['verdict'], o['name'], o['rule'], o['where'], o['detail'][:int(os.environ.get('SA_W', '160'))]))
        else:
            for o in und[:12]:
                print('  undecided: %s: %s' % (o['name'], o['detail'][:160]))
        for o, txt in kf:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, o['name'], txt))
        for o in viol:
            print('  violated: %s\n    rule: %s\n    at: %s\n    %s' % (o['name'], o['rule'], o['where'], o['detail']))
        if viol:
            print('VIOLATION property=%s replay=%s' % (self.pid, os.path.relpath(rep, VERIF)))
            return 1
        if self.lost and len(dec) < self.floor:
            print('ANALYSIS BROKEN: anchors lost: %s' % '; '.join(self.lost))
            return 2
        if len(dec) < self.floor:
            print('ANALYSIS BROKEN: %d obligations decided, at least %d expected' % (len(dec), self.floor))
            return 2
        for l in self.lost:
            print('  anchor not found: %s' % l)
        return 0


def flat(v):
    """list of component terms of a result"""
    if isinstance(v, T):
        return [v]
    raise I.Unsupported('component of %s' % type(v).__name__)


class Runner(object):
    """one abstract interpreter with helpers"""
    def __init__(self, ctx, opaque=(), models=None):
        self.ctx = ctx
        self.ip = I.Interp(ctx.prog, opaque=set(opaque), models=models or {})

    def f(self, qual):
        f = self.ip.func(qual)
        if f is None:
            raise AnchorLost(qual)
        return f

    def where(self, qual):
        f = self.ip.func(qual)
        if isinstance(f, I.Func):
            p = self.ctx.prog.path(f.module) or f.module
            return '%s:%d %s' % (os.path.relpath(p, REPO), f.node.lineno, qual.split('.')[-1])
        return qual

    def __call__(self, qual, *args, **kw):
        f = self.f(qual) if isinstance(qual, str) else qual
        r = self.ip.call(f, list(args), dict(kw), None)
        self.ctx.functions |= self.ip.analysed
        for q in self.ip.analysed:
            pass
        return r

    def method(self, obj, name, *args, **kw):
        return self(self.ip.getattr(obj, name), *args, **kw)

    def attr(self, obj, name):
        return self.ip.getattr(obj, name)

    def arr(self, *rows, **kw):
        """array of the given rows"""
        dd = set()
        for r in rows:
            dd |= tm.dims(r)
        shape = (len(rows),) + tuple(sorted(dd))[:1]
        return self.ip.new(I.ArrC(shape, rows))

    def lst(self, *items):
        return self.ip.new(I.ListC([(TRUE, x) for x in items]))

    def comps(self, v):
        """flatten any result into component terms (and a shape signature)"""
        out = []

        def go(x):
            if isinstance(x, T):
                if x.op == 'f' and x.data in ('tuple', 'list'):
                    for a in x.args:
                        go(a)
                else:
                    out.append(x)
            elif isinstance(x, tuple):
                for y in x:
                    go(y)
            elif isinstance(x, I.Ref):
                c = self.ip.get(x)
                if c.kind == 'arr':
                    out.extend(c.vals)
                elif c.kind == 'list':
                    if c.vec is not None:
                        go(c.vec)
                    elif all(g is TRUE for g, _ in c.items) and not c.keys:
                        for _, y in c.items:
                            go(y)
                    elif c.items:
                        out.append(self.ip.toterm(x))
                elif c.kind == 'inst':
                    for k in sorted(c.attrs):
                        go(c.attrs[k])
                else:
                    out.append(self.ip.toterm(x))
            elif isinstance(x, I.Choice):
                a = self.comps(x.a)
                b = self.comps(x.b)
                if len(a) != len(b):
                    raise I.Unsupported('shape depends on input')
                out.extend(tm.ite(x.c, p, q) for p, q in zip(a, b))
            elif isinstance(x, I.Ignore):
                pass
            else:
                raise I.Unsupported('result of %s' % type(x).__name__)
        go(v)
        return out

    def same(self, name, rule, where, got, want, **kw):
        """componentwise equality of two results"""
        g, w = self.comps(got), self.comps(want)
        period = kw.pop('period', None)
        if len(g) != len(w):
            return self.ctx.bad(name, rule, self.where(where), 'result has %d components, expected %d' % (len(g), len(w)))
        worst = None
        for i, (a, b) in enumerate(zip(g, w)):
            p = period[i] if isinstance(period, (list, tuple)) else period
            v = self.ctx.equal('%s[%d]' % (name, i) if len(g) > 1 else name, rule, self.where(where), a, b, period=p, **kw)
            if v == 'violated' or worst is None:
                worst = v
        return worst


def main(mod_run, pid):
    c = Ctx(pid)
    expl = mod_run(c)
    return c.finish(explanation=expl or '')
