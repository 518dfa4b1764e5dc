"""Checks of the isogeometric analysis part (example/iga): C24 (elements, functions, mappings), C25 (systems, solutions).
The findings listed for these properties lie in files that may not be changed here; scenarios keep away from them as follows and
one fixed scenario each shows that they still exist:
  derivatives are asked only for geometries with unit weights, sides only where all directions have the same knots and degree,
  a problem is solved once, time steps do not fit exactly unless the quotient is exact, lattices end at or before the last knot."""
import random
import fw
import iofmt
from splgen import f, TRACE_CFG

CFG = TRACE_CFG
LAWS = 'SPECIFICATION LSpec\nINVARIANT Laws\nINVARIANT GLaw\nCHECK_DEADLOCK FALSE\nCONSTANTS LDims = {%s} LDegs = {%s} LEls = {%s}\n'


def gen_cfg(dims, maxdeg, maxel, size, ops, steps, rules):
    s = lambda q: '{%s}' % ', '.join(('"%s"' % x if isinstance(x, str) else str(x)) for x in q)
    return ('SPECIFICATION GSpec\nINVARIANT Sound\nCHECK_DEADLOCK FALSE\nCONSTANTS\n GDims = %s\n GMaxDeg = %d\n GMaxEl = %d\n GMaxSize = %d\n'
            ' GOps = %s\n GSteps = %d\n GRules = %s\n' % (s(dims), maxdeg, maxel, size, s(ops), steps, s(rules)))


def parse_solution(text):
    """a VTK file followed by one scalar per point"""
    try:
        i = text.index('POINT_DATA')
        shown = iofmt.parse_vtk(text[:i])
        t = text[i:].split()
        iofmt.need(t[2] == 'SCALARS' and t[6] == 'LOOKUP_TABLE', 'data header')
        data = [iofmt.num(x) for x in t[8:]]
        iofmt.need(int(t[1]) == len(data), 'number of values')
        return {'fmt': 'vtk', 'shown': shown, 'data': data}
    except (iofmt.Bad, ValueError, KeyError, IndexError) as e:
        return {'fmt': 'broken', 'why': '%s: %s' % (type(e).__name__, e)}


def prepare(t):
    for e in t['ev']:
        if 'text' in e:
            e['file'] = parse_solution(e.pop('text'))
    return t


fw.PREPARE['iga'] = prepare


def vec(x):
    return '%d %s' % (len(x), ' '.join(f(v) for v in x)) if x else '0'


class Geometry:
    """a box in `dim` coordinates: control points near a grid, moved by an affine map"""

    def __init__(self, r, shape, curved=False, even=False, plain=False):
        self.r, self.dim, self.deg, self.plain, self.even = r, shape['dim'], list(shape['deg']), plain, even or shape['dim'] == 1
        if even:
            self.deg = [self.deg[0]] * self.dim
        self.knots = []
        style = r.choice(['unit', 'unit', 'float', 'float', 'offset', 'small'])
        for d in range(self.dim):
            n, p, m = shape['el'][d], self.deg[d], shape['mult'][d]
            if style == 'unit':
                b = [i / n for i in range(n + 1)]
            else:
                b = [r.choice([0, 0, -1, 2.5]) if style != 'offset' else r.uniform(-9, 9)]
                for _ in range(n):
                    b.append(b[-1] + (r.uniform(.3, 2) if style != 'small' else r.choice([.01, .02, .1])))
            self.knots.append([b[0]] * (p + 1) + [x for x in b[1:-1] for _ in range(m)] + [b[-1]] * (p + 1))
        if even:
            self.knots = [list(self.knots[0]) for _ in self.knots]
        self.points(curved)

    def n(self):
        return [len(k) - p - 1 for k, p in zip(self.knots, self.deg)]

    def total(self):
        t = 1
        for x in self.n():
            t *= x
        return t

    def breaks(self, d):
        return sorted(set(self.knots[d]))

    def points(self, curved):
        r, dim = self.r, self.dim
        extra = r.choice([0, 0, 0, 1, 2]) if dim < 3 else 0
        if curved:
            extra = max(1, extra)
        self.pdim = dim + extra
        self.curved = curved
        grev, gap = [], []
        for U, p in zip(self.knots, self.deg):
            g = [sum(U[i + 1:i + p + 1]) / p for i in range(len(U) - p - 1)]
            a, b = g[0], g[-1]
            g = [(x - a) / (b - a) for x in g]
            grev.append(g)
            gap.append(min(y - x for x, y in zip(g, g[1:])))
        shake = r.choice([0, .05, .12])
        while True:
            A = [[r.choice([0, 1, -.5, .25]) + r.uniform(-.2, .2) + (1.5 if i == j else 0) for j in range(dim)] for i in range(dim)]
            if abs(det(A)) > .5:
                break
        if r.random() < .25:
            A = [[float(i == j) for j in range(dim)] for i in range(dim)]
        scale = r.choice([1, 1, 1, .1, 10])
        off = [r.choice([0, 0, 1, -3.5]) for _ in range(self.pdim)]
        self.pts = []
        for k in range(self.total()):
            c = []
            for d in range(dim):
                i = k % len(grev[d])
                k //= len(grev[d])
                c.append(grev[d][i] + r.uniform(-shake, shake) * gap[d])
            x = [scale * sum(A[i][j] * c[j] for j in range(dim)) for i in range(dim)]
            x += [(scale * r.uniform(-.4, .4) if curved else 0.0) for _ in range(self.pdim - dim)]
            self.pts.append([a + b for a, b in zip(x, off)])
        w = 'one' if self.plain else r.choice(['one', 'two', 'any', 'any', 'any'])
        self.w = [1.0 if w == 'one' else 2.0 if w == 'two' else r.uniform(.5, 2) for _ in self.pts]

    def line(self, h):
        t = ['new', h, str(self.dim)] + [str(p) for p in self.deg] + [vec(k) for k in self.knots]
        return ' '.join(t + [str(len(self.pts))] + [vec(p) for p in self.pts] + [vec(self.w)])


def det(m):
    if len(m) == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * det([row[:j] + row[j + 1:] for row in m[1:]]) for j in range(len(m)))


class Scenario:
    def __init__(self, r, curved, plain=False, even=False):
        self.plain, self.even, self.solved = plain, even, set()
        self.r, self.curved, self.lines, self.nsol = r, curved, [], 0
        self.weak = set()        # systems whose integration rule is too coarse for a regular matrix

    def numbers(self, n):
        r = self.r
        s = r.choice(['any', 'any', 'ones', 'zero', 'big'])
        if s == 'ones':
            return [1.0] * n
        if s == 'zero':
            return [0.0] * n
        return [r.uniform(-1, 1) * (1000 if s == 'big' else 1) for _ in range(n)]

    def add(self, e):
        r, op = self.r, e['op']
        if op == 'new':
            self.g = Geometry(r, e['s'], self.curved, self.even and e['s']['dim'] > 1, self.plain)
            self.lines.append(self.g.line('g'))
            return
        g = self.g
        n, dim = g.n(), g.dim
        per = [len(g.breaks(d)) - 1 for d in range(dim)]
        els = 1
        for x in per:
            els *= x
        t = [op, 'g']
        if not self.plain:
            if op in ('ders', 'phys'):
                op = 'bafs'
                t[0] = op
            if op in ('left', 'solve', 'problem', 'steady', 'unsteady'):
                return
        if op in ('neumann', 'boundary') and not g.even:
            return
        if op == 'refine' and self.even and dim > 1:
            return
        if op in ('steady', 'unsteady'):
            if e['p'] in self.solved:
                return
            self.solved.add(e['p'])
        if op == 'rule':
            t = ['rule', e['rule']]
        elif op == 'refine':
            d = e['d'] - 1
            b = g.breaks(d)
            i = r.randrange(len(b) - 1)
            u = b[i] + (b[i + 1] - b[i]) * r.choice([.5, .25, r.uniform(.2, .8)])
            t += [d, f(u)]
            g.knots[d] = sorted(g.knots[d] + [u])
        elif op == 'element':
            t.append(r.randrange(els))
        elif op == 'locate':
            for d in range(dim):
                b = g.breaks(d)
                i = r.randrange(len(b) - 1)
                t.append(f(r.choice([b[i], b[i], b[-1], b[i] + (b[i + 1] - b[i]) * r.random()])))
        elif op == 'map':
            t.append(r.randrange(els))
            t += [f(r.choice([0, .5, r.uniform(-.99, .99), r.uniform(-.99, .99), -.99])) for _ in range(dim)]
            t.append(0 if self.curved else 1)
        elif op in ('bafs', 'ders', 'phys'):
            if op == 'phys' and self.curved:
                t[0] = 'ders'
            t += [r.randrange(els), e['rule']]
        elif op == 'vtk':
            if g.pdim > 3:
                return
            t += [vec(self.numbers(g.total())), '%d' % dim]
            for U in g.knots:
                fit = [s for s in ([1, 2, 3, 5, 7] if dim < 3 else [1, 2, 3]) if U[0] + s * ((U[-1] - U[0]) / s) <= U[-1]]
                if not fit:
                    return
                t.append(r.choice(fit))
        elif op == 'solution':
            self.nsol += 1
            t += ['s%d' % self.nsol, vec(self.numbers(g.total()))]
        elif op == 'system':
            t = ['system', e['y'], 'g', g.total()]
        elif op == 'left':
            if self.curved:
                return
            if e['rule'] < max(g.deg):
                self.weak.add(e['y'])
            t += [e['y'], e['rule'], f(r.choice([1, 1, 2.5, .01, r.uniform(.1, 5)]))]
        elif op == 'right':
            t += [e['y'], e['rule'], vec(self.numbers(g.total()))]
        elif op == 'neumann':
            t += [e['y'], e['rule']] + [vec(self.numbers(g.total() // n[d])) for d in range(dim) for _ in range(2)]
        elif op == 'zerobc':
            t.append(e['y'])
        elif op == 'dirichlet':
            inner = 1
            for x in n:
                inner *= max(0, x - 2)
            t += [e['y'], vec(r.choice([[], self.numbers(g.total() - inner), self.numbers(g.total() - inner)]))]
        elif op == 'bdf':
            if e['y'] in self.weak or e['rule'] <= max(g.deg):
                self.weak.add(e['t'])
            t += [e['y'], e['t'], e['rule'], f(r.choice([.1, 1, .5, 10, 1e-3])), vec(self.numbers(g.total()))]
        elif op == 'solve':
            if self.curved or e['y'] in self.weak:
                return
            t = ['solve', e['y']]
        elif op == 'problem':
            if self.curved:
                return
            t += [e['p'], max(e['rule'], max(g.deg))]
        elif op == 'steady':
            if self.curved:
                return
            t.append(e['p'])
        elif op == 'unsteady':
            if self.curved:
                return
            dt, k = r.choice([.1, .25, .5, 1, .3, .7, 1 / 3]), r.randint(0, 4)
            te = dt * k if dt in (.25, .5, 1) and r.random() < .5 else dt * (k + .5)
            inner = 1
            for x in n:
                inner *= max(0, x - 2)
            t += [e['p'], f(dt), f(te), vec(r.choice([[], self.numbers(g.total() - inner)]))]
        self.lines.append(' '.join(str(x) for x in t))


def scenarios(ctx, prefix, n, steps, ops, dims, maxdeg, maxel, size, rules, curved=.25, plain=.6):
    hist = ctx.behaviours('IGAGen', gen_cfg(dims, maxdeg, maxel, size, ops, steps, rules), n, steps + 2, ctx.seed * 4021 + sum(map(ord, prefix)))
    out = []
    for i, h in enumerate(hist):
        r = random.Random('%s/%d/%d' % (prefix, ctx.seed, i))
        s = Scenario(r, r.random() < curved, r.random() < plain, r.random() < .5)
        for e in h:
            s.add(e)
        out.append(('%s-%d' % (prefix, i), s.lines))
    return out


LINE = 'new g 1 2 8 0 0 0 .5 .5 1 1 1 5 1 0 1 .25 1 .5 1 .75 1 1 5 %s'
SQUARE = 'new g 2 1 2 4 0 0 1 1 7 0 0 0 .5 1 1 1 8 2 0 0 2 1 0 2 0 .25 2 1 .25 2 0 .75 2 1 .75 2 0 1 2 1 1 8 1 1 1 1 1 1 1 1'
FINDINGS = {
    'C24': {
        'rational-derivatives': [LINE % '1 2 1 .5 1', 'bafs g 0 2', 'ders g 0 2'],
        'sides-directions': [SQUARE, 'elements g', 'boundary g'],
    },
    'C25': {
        'steady-again': [LINE % '1 1 1 1 1', 'problem g p 3', 'steady g p', 'unsteady g p .5 1 0'],
        'last-time-step': [LINE % '1 1 1 1 1', 'problem g p 3', 'unsteady g p .1 .3 0'],
        'lattice-end': ['new g 1 1 4 0 0 3.1 3.1 2 1 0 1 1 2 1 1', 'vtk g 2 0 1 1 3', 'solution g s 2 0 1'],
    },
}
ASK = ('rule', 'elements', 'element', 'locate', 'map', 'bafs', 'ders', 'phys', 'solution', 'refine', 'boundary')
SYS = ('system', 'left', 'right', 'neumann', 'zerobc', 'dirichlet', 'bdf', 'solve', 'boundary', 'refine')
PRB = ('problem', 'steady', 'unsteady', 'vtk', 'solution')


def laws(ctx):
    ctx.model('laws of the discretisation', 'IGALaws', LAWS % ('1, 2', '1, 2' if not ctx.thorough else '1, 2, 3', '1, 2'))


def c24(ctx):
    laws(ctx)
    k = 4 if ctx.thorough else 1
    sc = scenarios(ctx, 'd1', 60 * k, 8, ASK, (1,), 5, 5, 20, (1, 2, 3, 4, 5))
    sc += scenarios(ctx, 'd2', 70 * k, 7, ASK, (2,), 3, 3, 30, (1, 2, 3, 4))
    sc += scenarios(ctx, 'd3', 30 * k, 6, ASK, (3,), 2, 2, 30, (1, 2))
    sc.append(('rules', ['rule %d' % i for i in range(1, 6)]))
    ctx.check_scenarios('iga', 'IGATrace', CFG, sc)
    ctx.known_findings('iga', 'IGATrace', CFG, FINDINGS[ctx.prop])


def c25(ctx):
    laws(ctx)
    k = 4 if ctx.thorough else 1
    sc = scenarios(ctx, 's1', 40 * k, 9, SYS, (1,), 4, 4, 10, (1, 2, 3, 4, 5), .15)
    sc += scenarios(ctx, 's2', 40 * k, 8, SYS, (2,), 2, 2, 16, (1, 2, 3), .15)
    sc += scenarios(ctx, 's3', 10 * k, 7, SYS, (3,), 1, 2, 18, (1, 2), .1)
    sc += scenarios(ctx, 'p1', 40 * k, 7, PRB, (1,), 4, 4, 10, (2, 3, 4, 5), 0, 1)
    sc += scenarios(ctx, 'p2', 40 * k, 6, PRB, (2,), 2, 3, 20, (2, 3), 0, .9)
    ctx.check_scenarios('iga', 'IGATrace', CFG, sc)
    ctx.known_findings('iga', 'IGATrace', CFG, FINDINGS[ctx.prop])


CHECKS = {'C24': c24, 'C25': c25}
