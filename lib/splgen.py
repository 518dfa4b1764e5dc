"""Turns histories of SplineGen into scripts for the driver `spl`: fills in knots, points, weights, tolerances, probes."""
import random

TRACE_CFG = 'SPECIFICATION TraceSpec\nCONSTANT Tol = "1/1000000000"\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'


def f(x):
    return repr(float(x))


def gen_cfg(dims, ops, steps, kinds=('b', 'n'), mindeg=1, maxdeg=4, lattice=4, maxmult=5, handles=4, shapes=0, shapeop=None):
    t = 'SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nINVARIANT Sound\nCONSTANTS\n'
    t += ' Dims = {%s}\n Kinds = {%s}\n' % (', '.join(map(str, dims)), ', '.join('"%s"' % k for k in kinds))
    t += ' MinDeg = %d\n MaxDeg = %d\n Lattice = %d\n MaxMult = %d\n' % (mindeg, maxdeg, lattice, maxmult)
    t += ' Ops = {%s}\n Steps = %d\n MaxHandles = %d\n' % (', '.join('"%s"' % o for o in ops), steps, handles)
    t += ' Shapes <- %s\n' % (shapeop or 'NoShapes')
    return t


class Concrete:
    """One scenario. probe(self, h) is called after every operation that changed handle h."""

    def __init__(self, sid, rng, lattice=4, probe=None, close=0.0):
        self.sid, self.rng, self.N = sid, rng, lattice
        self.lines = []
        self.probe = probe
        self.style = rng.choice(['nice', 'nice', 'nice', 'float', 'offset', 'int'])
        self.close = rng.random() < close        # two knots very close to each other
        self.cscale = rng.choice([1] * 8 + [1e-3, 1e3, 1e4])          # size of coordinates
        self.dscale = 1 if self.close else rng.choice([1] * 8 + [1e-2, 100, 1024])        # size of the parameter domain
        self.spread = rng.random() < .12                # weights far apart
        self.few = rng.random() < .08                   # many equal control points
        self.wscale = random.Random('%s%s' % (sid, rng.getstate()[1][:2])).choice([1] * 9 + [1e-4, 1e-5, 1e4])   # size of weights
        self.pos = [self.lattice_values() for _ in range(4)]
        self.pdim = rng.choice([1, 2, 2, 2, 3, 3, 3, 4, 5, 7])
        self.h = {}          # handle -> dict(kind, dim, deg, mult, lo, hi, maker, pdim)
        self.nmaker = 0

    def lattice_values(self):
        v = self.unit_lattice()
        return v if self.dscale == 1 else [x * self.dscale for x in v]

    def unit_lattice(self):
        r, n = self.rng, self.N
        s = self.style
        if self.close:
            v = [r.choice([0, 0, -1, .5])]
            tiny = r.randrange(n)
            for i in range(n):
                v.append(v[-1] + (2.0 ** -r.choice([18, 21, 24, 28, 32]) if i == tiny else r.choice([.25, .5, 1])))
            return v
        if s == 'int':
            a = r.randint(-3, 3)
            v = [a]
            for _ in range(n):
                v.append(v[-1] + r.choice([1, 1, 2]))
            return v
        if s == 'nice':
            a = r.choice([0, 0, 0, -1, 2.5])
            v = [a]
            for _ in range(n):
                v.append(v[-1] + r.choice([.25, .25, .5, 1]))
            return v
        a = 0.0 if s == 'float' else r.uniform(-50, 50)
        sc = r.choice([1, 1, .1, 10]) if s == 'float' else 1
        v = [a]
        for _ in range(n):
            v.append(v[-1] + sc * r.uniform(.3, 1.5))
        return v

    def coord(self):
        r = self.rng
        if self.few:
            return self.cscale * r.choice([0, 0, 1, -2])
        if self.style == 'float':
            return self.cscale * r.uniform(-10, 10)
        return self.cscale * r.randint(-32, 32) / 4

    def weight(self):
        r = self.rng
        if self.spread:
            return r.choice([.05, .2, 1, 5, 20])
        if self.style == 'float':
            return self.wscale * r.uniform(.5, 2.5)
        return self.wscale * r.choice([.5, .75, 1, 1, 1.25, 2, 3])

    def tolscale(self, h):
        """the tolerance bounds weighted points and weights: below the weights"""
        return min(1, self.wscale) if self.h[h]['kind'] == 'n' else 1

    def knots(self, deg, mult, d, pos=None):
        p = (pos or self.pos)[d]
        k = [p[0]] * (deg + 1)
        for i, m in enumerate(mult):
            k += [p[i + 1]] * m
        return k + [p[-1]] * (deg + 1)

    def points(self, deg, knots, pdim, linear):
        n = [len(k) - p - 1 for k, p in zip(knots, deg)]
        tot = 1
        for x in n:
            tot *= x
        if not linear:
            return [[self.coord() for _ in range(pdim)] for _ in range(tot)]
        # a (multi-)linear map: every interior knot is removable, every degree reducible
        c = [[self.rng.randint(-4, 4) for _ in range(len(deg) + 1)] for _ in range(pdim)]
        g = [[sum(k[i + 1:i + p + 1]) / p if p else k[i] for i in range(len(k) - p - 1)] for k, p in zip(knots, deg)]
        out = []
        for q in range(tot):
            idx = []
            for x in n:
                idx.append(q % x)
                q //= x
            out.append([cc[0] + sum(cc[1 + d] * g[d][idx[d]] for d in range(len(deg))) for cc in c])
        return out

    def args_line(self, m, how, kind, deg, knots, pts, w):
        s = ['args', m, how, str(len(deg)), kind] + [str(x) for x in deg]
        for k in knots:
            s += [str(len(k))] + [f(x) for x in k]
        s += [str(len(pts))]
        for p in pts:
            s += [str(len(p))] + [f(x) for x in p]
        if kind == 'n':
            s += [str(len(w))] + [f(x) for x in w]
        return ' '.join(s)

    def create(self, h, how, kind, deg, mult, pdim=None, linear=None, pts=None, w=None, pos=None):
        r = self.rng
        pos = pos or self.pos
        pdim = pdim or self.pdim
        knots = [self.knots(p, mm, d, pos) for d, (p, mm) in enumerate(zip(deg, mult))]
        if linear is None:
            linear = r.random() < .15
        pts = pts or self.points(deg, knots, pdim, linear)
        if kind == 'n':
            w = w or ([1.0] * len(pts) if linear and r.random() < .5 else [self.weight() for _ in pts])
        self.nmaker += 1
        m = 'm%d' % self.nmaker
        self.lines.append(self.args_line(m, how, kind, deg, knots, pts, w))
        self.lines.append('new %s %s' % (h, m))
        self.h[h] = dict(kind=kind, dim=len(deg), deg=list(deg), maker=m, pdim=pdim, knots=knots, pts=pts, w=w,
                         lo=[0] * len(deg), hi=[self.N] * len(deg), mult=[list(x) for x in mult], how=how, pos=pos)
        return m

    def param(self, h, d, where=None):
        """a parameter in direction d of h"""
        r, s = self.rng, self.h[h]
        v = s['pos'][d]
        lo, hi = s['lo'][d], s['hi'][d]
        where = where or r.choice(['in', 'in', 'in', 'knot', 'lo', 'hi', 'near'])
        if where == 'lo':
            return v[lo]
        if where == 'hi':
            return v[hi]
        if where == 'knot':
            return v[r.randint(lo, hi)]
        i = r.randint(lo, hi - 1)
        t = r.choice([.5, .25, .125, .75]) if self.style in ('nice', 'int') else r.random()
        if where == 'near':
            t = r.choice([2.0 ** -20, 1 - 2.0 ** -20])
        u = v[i] + t * (v[i + 1] - v[i])
        return min(max(u, v[lo]), v[hi])

    def eval(self, h, where=None, dims=None):
        s = self.h[h]
        if dims is None:
            dims = list(range(s['pdim']))
            self.rng.shuffle(dims)
            dims = dims[:self.rng.randint(1, len(dims))]
        u = [self.param(h, d, where) for d in range(s['dim'])]
        self.lines.append('eval %s %s %d %s' % (h, ' '.join(map(f, u)), len(dims), ' '.join(map(str, dims))))

    def deriv(self, h, maxorder=2, where=None, order=None):
        s, r = self.h[h], self.rng
        a = order or [r.randint(0, maxorder) for _ in range(s['dim'])]
        dims = list(range(s['pdim']))
        r.shuffle(dims)
        dims = dims[:r.randint(1, len(dims))]
        u = [self.param(h, d, where) for d in range(s['dim'])]
        self.lines.append('deriv %s %s %d %s %s' % (h, ' '.join(map(f, u)), len(dims), ' '.join(map(str, dims)), ' '.join(map(str, a))))

    def step(self, e):
        r = self.rng
        op, h = e['op'], e.get('h')
        L = self.lines
        if op == 'create':
            self.create(h, e['how'], e['kind'], e['deg'], e['mult'])
        elif op == 'again':
            src = self.h[e['of']]
            L.append('new %s %s' % (h, src['maker']))
            self.h[h] = dict(src, lo=[0] * src['dim'], hi=[self.N] * src['dim'])
        elif op == 'touch':
            d = e['d'] - 1
            L.append('touch %s %d %s' % (self.h[h]['maker'], d, f(self.h[h]['pos'][d][r.randint(1, self.N - 1)])))
        elif op == 'insert':
            d = e['d'] - 1
            L.append('insert %s %d %s %d' % (h, d, f(self.h[h]['pos'][d][e['i']]), e['m']))
        elif op == 'refine':
            d = e['d'] - 1
            L.append('refine %s %d %d %s' % (h, d, len(e['q']), ' '.join(f(self.h[h]['pos'][d][i]) for i in e['q'])))
        elif op == 'remove':
            d = e['d'] - 1
            tol = {'tight': 1e-6, 'loose': r.choice([1e-4, 1e-2]), 'huge': r.choice([.5, 5, 50]) if self.h[h]['kind'] == 'b' else .1}[e['tol']] * self.tolscale(h)
            L.append('remove %s %d %s %s %d' % (h, d, f(self.h[h]['pos'][d][e['i']]), f(tol), e['m']))
        elif op == 'elevate':
            L.append('elevate %s %d' % (h, e['d'] - 1))
        elif op == 'reduce':
            L.append('reduce %s %d %s' % (h, e['d'] - 1, f({'tight': 1e-5, 'loose': r.choice([1e-2, .5])}[e['tol']] * self.tolscale(h))))
        elif op == 'subdivide':
            d = e['d'] - 1
            L.append('subdivide %s %d %s %s %s' % (h, d, f(self.h[h]['pos'][d][e['i']]), e['a'], e['b']))
            s = self.h[h]
            self.h[e['a']] = dict(s, hi=[e['i'] if k == d else x for k, x in enumerate(s['hi'])])
            self.h[e['b']] = dict(s, lo=[e['i'] if k == d else x for k, x in enumerate(s['lo'])])
            if self.probe:
                self.probe(self, e['a'])
                self.probe(self, e['b'])
        elif op == 'translate':
            t, c = self.h[e['t']], self.h[e['c']]
            L.append('translate %s %s %s' % (h, e['t'], e['c']))
            self.h[h] = dict(kind='n', dim=2, deg=None, maker=None, pdim=t['pdim'], knots=None, pts=None, w=None, how='translate',
                             lo=t['lo'] + c['lo'], hi=t['hi'] + c['hi'], mult=None, pos=[t['pos'][0], c['pos'][0]])
        elif op == 'copy':
            L.append('copy %s %s' % (h, e['g']))
            self.h[e['g']] = dict(self.h[h])
        elif op == 'drop':
            L.append('drop %s' % h)
            del self.h[h]
            return
        elif op == 'newpoints':
            s = self.h[h]
            pd = s['pdim']
            cnt = len(s['pts'])
            pts = [[self.coord() for _ in range(pd)] for _ in range(cnt)]
            L.append('newpoints %s %s %d %d %s' % (h, e['g'], pd, cnt, ' '.join(f(x) for p in pts for x in p)))
            self.h[e['g']] = dict(s, pts=pts)
        elif op in ('equal', 'geoequal'):
            if self.h[h]['pdim'] != self.h[e['g']]['pdim']:
                return
            L.append('%s %s %s %s' % (op, h, e['g'], f(r.choice([1e-8, 1e-3, 1]))))
        else:
            raise KeyError(op)
        if self.probe and op not in ('equal', 'geoequal', 'touch'):
            self.probe(self, h)


def concretize(prefix, hist, seed, lattice=4, probe=None, close=0.0):
    out = []
    for k, h in enumerate(hist):
        c = Concrete('%s%d' % (prefix, k), random.Random('%s/%s/%d' % (seed, prefix, k)), lattice, probe, close)
        for e in h:
            if e['op'] != 'done':
                c.step(e)
        out.append((c.sid, c.lines))
    return out
