"""Checks of the spline properties C01 - C11."""
import math
import random
import splgen
from splgen import f, Concrete, concretize, gen_cfg, TRACE_CFG

LAWS = ['PartitionOfUnity', 'InsertThenRemove', 'ElevatedIsReducible', 'EndPointsInterpolated', 'PiecesCover']


def mc(ctx, name, ops, families, steps, laws, handles=2):
    cfg = 'SPECIFICATION MSpec\nCHECK_DEADLOCK FALSE\nCONSTANT Tol = 0\nCONSTANT MaxSteps = %d\nCONSTANT MaxHandlesMC = %d\n' % (steps, handles)
    cfg += 'CONSTANT MCOps = {%s}\nCONSTANT Families = {%s}\n' % (', '.join('"%s"' % o for o in ops), ', '.join('"%s"' % o for o in families))
    for i in ['AllConsistent', 'GeometryKeptEverywhere'] + list(laws):
        cfg += 'INVARIANT %s\n' % i
    ctx.model(name, 'MCSplineSys', cfg)


def judge(ctx, scenarios, seconds=10):
    return ctx.check_scenarios('spl', 'SplineTrace', TRACE_CFG, scenarios, seconds=seconds)


def simulated(ctx, prefix, ops, n, steps, dims=(1, 2, 3), probe=None, close=0.0, **kw):
    hist = ctx.behaviours('SplineGen', gen_cfg(dims, ops, steps, **kw), n, steps + 3, ctx.seed * 7919 + len(prefix) * 101 + ord(prefix[-1]))
    return concretize(prefix, hist, ctx.seed, lattice=kw.get('lattice', 4), probe=probe, close=close)


def exhaustive(ctx, prefix, ops, steps, shapes, maxdeg=3, handles=3, probe=None, limit=None, close=0.0):
    hist = ctx.all_behaviours('SplineGen', gen_cfg((1,), ops, steps, maxdeg=maxdeg, lattice=2, handles=handles, shapeop=shapes))
    total = len(hist)
    if limit and total > limit:
        hist.sort(key=str)
        ctx.rng.shuffle(hist)
        hist = hist[:limit]
    ctx.notes.append('%s: %d of all %d histories of %d steps over %s' % (prefix, len(hist), total, steps, shapes))
    return concretize(prefix, hist, ctx.seed, lattice=2, probe=probe, close=close)


def probe_light(c, h):
    if c.rng.random() < .35:
        c.eval(h)


def probe_eval(c, h):
    c.eval(h)
    c.eval(h, 'knot')
    if c.rng.random() < .5:
        c.eval(h, c.rng.choice(['lo', 'hi', 'near']))
    s = c.h[h]
    d = c.rng.randrange(s['dim'])
    c.lines.append('basis %s %d %s' % (h, d, f(c.param(h, d))))
    if c.rng.random() < .3:
        c.lines.append('info %s' % h)
    if s['kind'] == 'n' and c.rng.random() < .3:
        c.eval(h, dims=[s['pdim']])


def probe_deriv(c, h):
    if c.h[h]['dim'] == 4:
        a = [0] * 4
        for _ in range(c.rng.randint(1, 3)):
            a[c.rng.randrange(4)] += 1
        c.deriv(h, order=a)
        return
    c.deriv(h, 1)
    c.deriv(h, 2)
    c.deriv(h, 1 if c.h[h]['dim'] == 3 else 4, where=c.rng.choice(['lo', 'hi', 'knot', 'in']))
    s = c.h[h]
    d = c.rng.randrange(s['dim'])
    c.lines.append('dbasis %s %d %s %d' % (h, d, f(c.param(h, d)), c.rng.randint(0, 5)))


def N(ctx, quick, thorough):
    return thorough if ctx.thorough else quick


def c01(ctx):
    mc(ctx, 'insertion', ['insert', 'copy'], ['line', 'quad', 'kink', 'surface'] if not ctx.thorough else
       ['line', 'quad', 'arc', 'kink', 'shifted', 'surface', 'solid'], N(ctx, 3, 4), ['InsertThenRemove', 'EndPointsInterpolated'])
    sc = simulated(ctx, 'a', ['insert', 'refine', 'copy', 'drop'], N(ctx, 70, 1200), 6, probe=probe_light)
    sc += simulated(ctx, 'b', ['insert', 'refine'], N(ctx, 30, 400), 5, dims=(1,), mindeg=3, maxdeg=6, probe=probe_light)
    sc += simulated(ctx, 'c', ['insert', 'refine'], N(ctx, 30, 400), 5, dims=(1, 2), probe=probe_light, close=1.0)
    sc += simulated(ctx, 'm', ['insert', 'refine', 'elevate', 'subdivide', 'remove'], N(ctx, 30, 500), 6, probe=probe_light)
    sc += exhaustive(ctx, 'x', ['insert', 'refine'], N(ctx, 3, 4), 'CurveShapes', limit=N(ctx, 250, 4000))
    sc += extremes(ctx, ['insert', 'refine', 'copy'])
    judge(ctx, sc)


def extremes(ctx, ops, probe=probe_light, dim4=True, spans=True, high=True, steps=4):
    """four parametric directions; many spans; high degrees"""
    sc = []
    if dim4:
        sc += simulated(ctx, 'd4', ops, N(ctx, 6, 100), min(steps, 3), dims=(4,), maxdeg=2, probe=probe)
    if spans:
        sc += simulated(ctx, 'sp', ops, N(ctx, 12, 200), steps, dims=(1,), maxdeg=4, lattice=12, probe=probe)
        sc += simulated(ctx, 'sf', ops, N(ctx, 5, 80), min(steps, 3), dims=(2,), maxdeg=3, lattice=7, probe=probe)
    if high:
        sc += simulated(ctx, 'hi', ops, N(ctx, 8, 150), min(steps, 3), dims=(1,), mindeg=6, maxdeg=10, lattice=3, probe=probe)
    return sc


def c02(ctx):
    mc(ctx, 'removal', ['insert', 'remove'], ['line', 'quad', 'kink', 'straight'] if not ctx.thorough else
       ['line', 'quad', 'arc', 'kink', 'shifted', 'straight', 'surface'], N(ctx, 3, 4), ['InsertThenRemove'])
    sc = simulated(ctx, 'a', ['insert', 'refine', 'remove', 'copy'], N(ctx, 90, 1500), 7, probe=probe_light)
    sc += simulated(ctx, 'b', ['insert', 'remove'], N(ctx, 30, 400), 6, dims=(1,), mindeg=2, maxdeg=5, probe=probe_light)
    sc += simulated(ctx, 'm', ['insert', 'subdivide', 'elevate', 'remove'], N(ctx, 30, 500), 6, probe=probe_light)
    sc += exhaustive(ctx, 'x', ['insert', 'remove'], N(ctx, 3, 4), 'CurveShapes', limit=N(ctx, 150, 4000))
    sc += linear_removal(ctx, N(ctx, 110, 800))
    sc += multiple_removal(ctx, N(ctx, 50, 1200))
    sc += extremes(ctx, ['insert', 'remove'])
    judge(ctx, sc)


def linear_removal(ctx, n):
    """splines all of whose interior knots can go; distances around the tolerance"""
    out = []
    for k in range(n):
        r = random.Random('%s/lin/%d' % (ctx.seed, k))
        c = Concrete('lin%d' % k, r, 4, probe_light)
        dim = r.choice([1, 1, 1, 2, 2, 3])
        deg = [r.randint(1, 4 if dim == 1 else 2) for _ in range(dim)]
        mult = [[r.randint(0, p) for _ in range(3)] for p in deg]
        if dim == 3:
            mult = [[1, 0, 0] if e else [r.randint(0, 1), 1, 0] for e in range(3)]
        kind = r.choice('bn')
        knots = [c.knots(p, m, d) for d, (p, m) in enumerate(zip(deg, mult))]
        pts = c.points(deg, knots, c.pdim, True)
        w = [2.0] * len(pts)
        if kind == 'n' and r.random() < .5:
            # the weighted points and the weights are (multi-)linear, or only one of the two
            what = r.choice(['both', 'points', 'weights'])
            hom = c.points(deg, knots, c.pdim, True)
            if what != 'points':
                g = c.points(deg, knots, 1, True)
                lo, hi = min(x[0] for x in g), max(x[0] for x in g)
                w = [1 + (x[0] - lo) / (hi - lo) if hi > lo else 1.0 for x in g]
            else:
                w = [r.choice([.5, 1, 2, 4]) for _ in pts]
            pts = [[x / ww for x in h] for h, ww in zip(hom, w)] if what != 'weights' else c.points(deg, knots, c.pdim, False)
        delta = r.choice([0, 0, 1e-4, 1e-2])
        if delta:      # one point is moved: removable or not, depending on the tolerance
            q = r.randrange(len(pts))
            if kind == 'n' and r.random() < .3:
                w[q] *= 1 + delta
            else:
                pts[q][r.randrange(c.pdim)] += delta * r.choice([-1, 1])
        c.create('h', 'direct', kind, deg, mult, linear=True, pts=pts, w=w)
        for _ in range(3):
            d = r.randrange(dim)
            i = r.randint(1, 3)
            tol = r.choice([1e-6, 1e-3, .05])
            c.lines.append('remove h %d %s %s %d' % (d, f(c.pos[d][i]), f(tol), r.randint(1, 4)))
            c.eval('h')
        out.append((c.sid, c.lines))
    return out


def multiple_removal(ctx, n):
    """curves with one multiple knot, control points around it disturbed by about the tolerance: how many copies may go?"""
    out = []
    for k in range(n):
        r = random.Random('%s/mul/%d' % (ctx.seed, k))
        c = Concrete('mul%d' % k, r, 2, probe_light)
        c.cscale, c.pdim = 1, r.choice([1, 2, 3])
        p = r.choice([1, 2, 2, 3, 3, 4])
        m = r.randint(max(1, p - 1), p)
        kind = r.choice('bn')
        knots = [c.knots(p, [m], 0)]
        pts = c.points([p], knots, c.pdim, True)
        w = [r.choice([.25, 1.0, 1.0, 2.0, 6.0])] * len(pts)
        if kind == 'n' and r.random() < .5:
            w = [r.uniform(.9, 1.1) * w[0] for _ in pts] if r.random() < .3 else w
        tol = r.choice([1e-3, 1e-2])
        a = [r.choice([-1, 1]) for _ in range(c.pdim)]
        s = r.choice([.4, .8, 1.2, 1.6, 2.2, 3, 4, 6]) * tol / len(a) ** .5
        same = r.random() < .5        # all in one direction, or any
        for q in range(1, len(pts) - 1):
            for e in range(c.pdim):
                pts[q][e] += s * (a[e] if same else r.uniform(-1, 1)) * (1 if q == len(pts) // 2 else r.random())
        if kind == 'n' and r.random() < .3:
            w[len(pts) // 2] *= 1 + r.choice([-1, 1]) * s
        c.create('h', 'direct', kind, [p], [[m]], linear=True, pts=pts, w=w)
        c.lines.append('remove h 0 %s %s %d' % (f(c.pos[0][1]), f(tol), r.randint(1, m + 1)))
        c.eval('h')
        out.append((c.sid, c.lines))
    return out


def c03(ctx):
    mc(ctx, 'elevation', ['elevate', 'insert'], ['line', 'quad', 'arc', 'kink'] if not ctx.thorough else
       ['line', 'quad', 'arc', 'kink', 'shifted', 'straight', 'surface', 'solid'], 3, ['ElevatedIsReducible'])
    sc = simulated(ctx, 'a', ['elevate', 'insert', 'refine', 'copy'], N(ctx, 70, 1200), 6, probe=probe_light)
    sc += simulated(ctx, 'b', ['elevate', 'insert'], N(ctx, 30, 400), 5, dims=(1,), mindeg=2, maxdeg=6, probe=probe_light)
    sc += simulated(ctx, 'c', ['elevate', 'insert'], N(ctx, 20, 300), 3, dims=(1, 2), probe=probe_light, close=1.0)
    sc += simulated(ctx, 'm', ['elevate', 'subdivide', 'remove', 'reduce', 'drop'], N(ctx, 30, 500), 6, probe=probe_light)
    sc += exhaustive(ctx, 'x', ['elevate', 'insert'], N(ctx, 3, 4), 'CurveShapes', limit=N(ctx, 150, 4000))
    sc += extremes(ctx, ['elevate', 'insert', 'refine'])
    judge(ctx, sc)


def c04(ctx):
    mc(ctx, 'reduction', ['elevate', 'reduce', 'insert'], ['line', 'arc', 'straight'] if not ctx.thorough else
       ['line', 'quad', 'arc', 'kink', 'shifted', 'straight', 'surface'], N(ctx, 3, 4), ['ElevatedIsReducible'])
    sc = simulated(ctx, 'a', ['elevate', 'reduce'], N(ctx, 60, 1000), 6, probe=probe_light)
    sc += simulated(ctx, 'b', ['elevate', 'reduce', 'insert'], N(ctx, 40, 500), 6, dims=(1,), mindeg=2, maxdeg=5, probe=probe_light)
    sc += simulated(ctx, 'm', ['elevate', 'reduce', 'insert', 'subdivide', 'copy'], N(ctx, 40, 600), 7, probe=probe_light)
    sc += exhaustive(ctx, 'x', ['elevate', 'reduce', 'insert'], N(ctx, 3, 4), 'CurveShapes', limit=N(ctx, 150, 4000))
    sc += reduction_mix(ctx, N(ctx, 120, 900))
    sc += extremes(ctx, ['elevate', 'reduce'])
    judge(ctx, sc)


def reduction_mix(ctx, n):
    """elevate, disturb one control point through a new spline, reduce with tolerances around the disturbance"""
    out = []
    for k in range(n):
        r = random.Random('%s/red/%d' % (ctx.seed, k))
        many = k % 4 == 3                # many segments, or many rows next to each other
        c = Concrete('red%d' % k, r, 9 if many else 3, probe_light)
        dim = r.choice([1, 1, 2, 2, 2, 3]) if not many else r.choice([1, 2])
        d = r.randrange(dim)
        deg = [r.randint(2, {1: 6, 2: 5, 3: 4}[dim] - (2 if many else 0)) if e == d else r.randint(1, 2) for e in range(dim)]
        mult = [[r.choice([0, 0, 1, p] if dim < 3 else [0, 0, 0, 1]) for _ in range(2)] for p in deg]
        if many:
            long = r.randrange(dim)
            mult = [[r.choice([1, 1, p]) if e == long or i == 4 else 0 for i in range(8)] for e, p in enumerate(deg)]
        kind = r.choice('bn')
        knots = [c.knots(p, m, d) for d, (p, m) in enumerate(zip(deg, mult))]
        pts = c.points(deg, knots, c.pdim, True)
        w = [r.choice([1.0, 2.0])] * len(pts)
        delta = r.choice([0, 1e-3, 1e-2, .1, .1, 1])
        if delta:
            (pts[-1 - r.randrange(deg[0] + 1)] if many and r.random() < .5 else r.choice(pts))[r.randrange(c.pdim)] += delta * r.choice([-1, 1])
        c.create('h', 'direct', kind, deg, mult, linear=True, pts=pts, w=w)
        c.lines.append('reduce h %d %s' % (d, f(r.choice([1e-6, delta / 8, delta / 3, delta, 10 * delta, .5]) or 1e-6)))
        c.eval('h')
        out.append((c.sid, c.lines))
    return out


def c05(ctx):
    mc(ctx, 'subdivision', ['subdivide', 'insert', 'drop'], ['line', 'quad', 'kink'] if not ctx.thorough else
       ['line', 'quad', 'arc', 'kink', 'shifted', 'straight', 'surface', 'solid'], N(ctx, 2, 3), ['PiecesCover'], handles=3)
    sc = simulated(ctx, 'a', ['subdivide', 'insert', 'drop'], N(ctx, 80, 1200), 6, handles=6, probe=probe_light)
    sc += simulated(ctx, 'c', ['subdivide', 'insert'], N(ctx, 20, 300), 4, dims=(1, 2), handles=6, probe=probe_light, close=1.0)
    sc += simulated(ctx, 'b', ['subdivide', 'refine'], N(ctx, 30, 400), 5, dims=(1,), mindeg=2, maxdeg=5, handles=8, probe=probe_light)
    sc += simulated(ctx, 'm', ['subdivide', 'elevate', 'remove', 'copy', 'drop'], N(ctx, 30, 600), 6, handles=6, probe=probe_light)
    sc += exhaustive(ctx, 'x', ['subdivide', 'insert'], N(ctx, 3, 4), 'CurveShapes', handles=5, limit=N(ctx, 100, 3000))
    sc += extremes(ctx, ['subdivide', 'insert'])
    judge(ctx, sc)


def c06(ctx):
    mc(ctx, 'evaluation', ['insert'], ['line', 'quad', 'arc', 'kink', 'shifted', 'surface', 'solid'], 2,
       ['PartitionOfUnity', 'EndPointsInterpolated'])
    sc = simulated(ctx, 'a', ['insert', 'elevate', 'subdivide'], N(ctx, 60, 1000), 3, probe=probe_eval)
    sc += simulated(ctx, 'b', ['insert'], N(ctx, 40, 400), 2, dims=(1,), mindeg=1, maxdeg=7, probe=probe_eval)
    sc += simulated(ctx, 'c', ['insert'], N(ctx, 40, 400), 2, dims=(1, 2), maxdeg=4, probe=probe_eval, close=1.0)
    sc += eval_sweep(ctx, N(ctx, 60, 800))
    sc += extremes(ctx, ['insert'], probe=probe_eval, steps=2)
    judge(ctx, sc)


def eval_sweep(ctx, n, deriv=False):
    """one spline each, at every knot, both ends, next to knots, between knots"""
    out = []
    for k in range(n):
        r = random.Random('%s/sweep%d/%d' % (ctx.seed, deriv, k))
        c = Concrete('sw%d' % k, r, r.choice([1, 2, 3, 4, 6]))
        dim = r.choice([1, 1, 2, 2, 3])
        deg = [r.randint(1, {1: 6, 2: 3, 3: 2}[dim]) for _ in range(dim)]
        if k % 9 == 8:
            deg[r.randrange(dim)] = 0
        high = deriv and k % 6 == 5
        if high:
            dim, deg = 1, [r.randint(3, 6)]
        many = {1: c.N - 1, 2: 2, 3: 1}[dim]
        mult = []
        for p in deg:
            use = set(r.sample(range(c.N - 1), min(many, c.N - 1))) if c.N > 1 else set()
            mult.append([r.choice([1, 1, p, r.randint(1, p + 1)]) if i in use else 0 for i in range(c.N - 1)])
        c.create('h', r.choice(['direct', 'gen']), 'n' if high else r.choice('bn'), deg, mult)
        us = []
        for d in range(dim):
            v = c.pos[d]
            l = list(v)
            for i in range(c.N):
                l += [v[i] + t * (v[i + 1] - v[i]) for t in (.5, r.random())]
            if r.random() < .5:
                j = r.randrange(len(v))
                import math
                for x in (math.nextafter(v[j], math.inf), math.nextafter(v[j], -math.inf)):
                    if v[0] <= x <= v[-1]:
                        l.append(x)
            us.append(l)
        for _ in range(N(ctx, 8, 14)):
            u = [r.choice(l) for l in us]
            dims = [r.randrange(c.pdim) for _ in range(r.randint(1, c.pdim))]
            ds = '%d %s' % (len(dims), ' '.join(map(str, dims)))
            if deriv:
                a = [r.randint(0, {1: 4, 2: 2, 3: 1}[dim]) for _ in range(dim)]
                if high:
                    a = [r.randint(7, 12)]
                c.lines.append('deriv h %s %s %s' % (' '.join(map(f, u)), ds, ' '.join(map(str, a))))
                d = r.randrange(dim)
                c.lines.append('dbasis h %d %s %d' % (d, f(u[d]), r.randint(0, deg[d] + 2)))
            else:
                c.lines.append('eval h %s %s' % (' '.join(map(f, u)), ds))
                d = r.randrange(dim)
                c.lines.append('basis h %d %s' % (d, f(u[d])))
        if not deriv and c.h['h']['kind'] == 'n':
            n0 = [len(kk) - p - 1 for kk, p in zip(c.h['h']['knots'], deg)]
            c.lines.append('homog h %s' % ' '.join(str(r.randrange(x)) for x in n0))
        c.lines.append('info h')
        out.append((c.sid, c.lines))
    return out


def c07(ctx):
    mc(ctx, 'derivatives', ['insert'], ['line', 'quad', 'arc', 'kink', 'shifted', 'surface', 'solid'], 2, ['PartitionOfUnity', 'TaylorExact'])
    sc = simulated(ctx, 'a', ['insert', 'elevate', 'subdivide'], N(ctx, 50, 800), 3, probe=probe_deriv)
    sc += simulated(ctx, 'b', ['insert'], N(ctx, 30, 400), 2, dims=(1,), mindeg=2, maxdeg=6, probe=probe_deriv)
    sc += eval_sweep(ctx, N(ctx, 60, 800), deriv=True)
    sc += extremes(ctx, ['insert'], probe=probe_deriv, steps=2)
    judge(ctx, sc)


def c08(ctx):
    mc(ctx, 'construction', ['copy', 'drop'], ['line', 'quad', 'arc', 'surface'], 2, ['EndPointsInterpolated'])
    out = []
    for k in range(N(ctx, 400, 2500)):
        r = random.Random('%s/bad/%d' % (ctx.seed, k))
        c = Concrete('bad%d' % k, r, 3)
        dim = r.choice([1, 1, 1, 2, 2, 3, 3, 4])
        deg = [r.randint(1, {1: 6, 2: 3}.get(dim, 2)) for _ in range(dim)]
        if r.random() < .1:
            deg[r.randrange(dim)] = 0
        mult = [[r.choice([0, 0, 1, p] if dim < 4 else [0]) for _ in range(2)] for p in deg]
        kind = r.choice('bn')
        how = r.choice(['direct', 'gen'])
        knots = [c.knots(p, m, d) for d, (p, m) in enumerate(zip(deg, mult))]
        pts = c.points(deg, knots, c.pdim, False)
        w = [c.weight() for _ in pts]
        d = r.randrange(dim)
        p = deg[d]
        what = r.choice(['good', 'good', 'good', 'fewknots', 'first', 'last', 'first2', 'last2', 'morepts', 'lesspts', 'mixed', 'morew', 'lessw',
                         'degree', 'toofew', 'mixedlast'])
        if what == 'fewknots':
            knots[d] = knots[d][:p] + knots[d][-p:]
        elif what == 'toofew':
            knots[d] = [knots[d][0]] * (p + 1) + [knots[d][-1]] * p
        elif what == 'first':
            knots[d][0] = r.choice([knots[d][0] - .25, knots[d][0] - 1e-3, knots[d][0] - 1e-9, math.nextafter(knots[d][0], -math.inf)])
        elif what in ('first2', 'last2') and p == 0:
            pass
        elif what == 'first2':
            knots[d] = [knots[d][0]] * r.randint(1, p) + [knots[d][0] + (knots[d][-1] - knots[d][0]) / 64] + knots[d][p + 1:]
        elif what == 'last':
            knots[d][-1] = r.choice([knots[d][-1] + .25, knots[d][-1] + 1e-3, knots[d][-1] + 1e-9, math.nextafter(knots[d][-1], math.inf)])
        elif what == 'last2':
            knots[d] = knots[d][:-p - 1] + [knots[d][-1] - (knots[d][-1] - knots[d][0]) / 64] + [knots[d][-1]] * r.randint(1, p)
        elif what == 'morepts':
            pts.append(list(pts[0]))
            w.append(1.0)
        elif what == 'lesspts' and len(pts) > 1:
            pts.pop()
            w.pop()
        elif what in ('mixed', 'mixedlast'):
            q = pts[-1] if what == 'mixedlast' else r.choice(pts)
            if r.random() < .5 and len(q) > 1:
                q.pop()
            else:
                q.append(1.0)
        elif what == 'morew':
            w.append(1.0)
        elif what == 'lessw':
            w.pop()
        elif what == 'degree':
            deg = list(deg)
            deg[d] += 1
        c.lines.append(c.args_line('m', how, kind, deg, knots, pts, w))
        c.lines.append('new h m')
        if what == 'good':
            c.h['h'] = dict(kind=kind, dim=dim, deg=deg, maker='m', pdim=c.pdim, lo=[0] * dim, hi=[3] * dim, pos=c.pos)
            for _ in range(6):
                u = [c.param('h', e) for e in range(dim)]
                e = r.randrange(dim)
                wd = c.pos[e][3] - c.pos[e][0]
                if r.random() < .7:
                    u[e] = r.choice([c.pos[e][0] - wd * r.choice([1e-6, .1, 3]), c.pos[e][3] + wd * r.choice([1e-6, .1, 3]),
                                     math.nextafter(c.pos[e][0], -math.inf), math.nextafter(c.pos[e][3], math.inf)])
                if r.random() < .5:
                    c.lines.append('eval h %s 1 0' % ' '.join(map(f, u)))
                else:
                    c.lines.append('deriv h %s 1 0 %s' % (' '.join(map(f, u)), ' '.join(str(r.randint(0, 2)) for _ in range(dim))))
        out.append((c.sid, c.lines))
    # as many points as the right number leaves when it is counted in 8 or 16 bits
    for k, n in enumerate([(257, 1), (16, 17), (129, 2), (257, 255 + 2), (258, 256)]):
        r = random.Random('%s/wrap/%d' % (ctx.seed, k))
        c = Concrete('wrap%d' % k, r, 1)
        bits = 65536 if n[0] * n[1] > 65536 else 256
        knots = [[0.0, 0.0] + [i + 1.0 for i in range(x - 2)] + [x - 1.0] * 2 if x > 1 else [0.0, 1.0] for x in n]
        deg = [1 if x > 1 else 0 for x in n]
        cnt = n[0] * n[1] % bits
        for kind in 'bn':
            for how in ('direct', 'gen'):
                m = 'm%s%s' % (kind, how)
                c.lines.append(c.args_line(m, how, kind, deg, knots, [[1.0 * i, 2.0] for i in range(cnt)], [1.0] * cnt))
                c.lines.append('new h%s%s %s' % (kind, how, m))
        out.append((c.sid, c.lines))
    judge(ctx, out)


def c09(ctx):
    mc(ctx, 'independence', ['copy', 'insert', 'subdivide', 'drop'], ['line', 'arc'], N(ctx, 3, 4), ['EndPointsInterpolated'], handles=3)
    ops = ['create', 'again', 'touch', 'copy', 'drop', 'newpoints']
    sc = simulated(ctx, 'a', ops + ['insert', 'elevate'], N(ctx, 70, 1200), 9, probe=probe_light, handles=5)
    sc += simulated(ctx, 'b', ['copy', 'again', 'remove', 'reduce', 'elevate', 'insert', 'refine'], N(ctx, 50, 800), 8, probe=probe_light)
    sc += simulated(ctx, 's', ['subdivide', 'copy', 'insert', 'remove', 'elevate', 'drop'], N(ctx, 40, 600), 8, dims=(1, 2), probe=probe_light, handles=7)
    sc += simulated(ctx, 'n', ['newpoints', 'touch', 'insert', 'copy', 'elevate'], N(ctx, 40, 500), 6, kinds=('n',), probe=probe_light)
    sc += extremes(ctx, ['copy', 'insert', 'newpoints', 'again'], high=False)
    sc += reborn(ctx, N(ctx, 40, 300)) + copies(ctx)
    judge(ctx, sc)
    ctx.known_findings('spl', 'SplineTrace', TRACE_CFG, {
        'generator-reuse-b': ['args m gen 1 b 1 4 0 0 1 1 2 1 0 1 1', 'new h m', 'new g m', 'insert h 0 0.5 1'],
        'generator-reuse-n': ['args m gen 1 n 1 4 0 0 1 1 2 1 0 1 1 2 1 2', 'new h m', 'new g m', 'insert h 0 0.5 1']})


def reborn(ctx, n):
    """splines that live one after another, alike in all but their values, asked the same questions"""
    out = []
    for k in range(n):
        r = random.Random('%s/reborn/%d' % (ctx.seed, k))
        c = Concrete('rb%d' % k, r, 3)
        dim = r.choice([1, 1, 2, 3])
        deg = [r.randint(1, 3 if dim < 3 else 2) for _ in range(dim)]
        mult = [[r.choice([0, 0, 1, p]) for _ in range(2)] for p in deg]
        kind = r.choice('bnn')
        us, ask = None, []
        for life in range(3):
            c.create('h', 'direct', kind, deg, mult)
            if us is None:
                us = [[c.param('h', d) for d in range(dim)] for _ in range(2)]
                for u in us:
                    ask += ['eval h %s 1 0' % ' '.join(map(f, u)), 'deriv h %s 1 0 %s' % (' '.join(map(f, u)), ' '.join('1' for _ in u))]
                    ask += ['basis h 0 %s' % f(u[0])]
                ask += ['info h', ask[0]]
            c.lines += ask
            if life < 2:
                c.lines.append('drop h')
                if r.random() < .5:
                    c.pos = [c.lattice_values() for _ in range(4)] if r.random() < .3 else c.pos
                    us, ask = None, []
        # all arguments are made first, so that a new spline may lie where the one before lay
        out.append((c.sid, [x for x in c.lines if x.startswith('args')] + [x for x in c.lines if not x.startswith('args')]))
    return out


def copies(ctx):
    """a copy and its original are changed in turn, for every number of directions"""
    out = []
    for dim in (1, 2, 3, 4):
        for kind in 'bn':
            for first in 'hg':
                r = random.Random('%s/cp/%d%s%s' % (ctx.seed, dim, kind, first))
                c = Concrete('cp%d%s%s' % (dim, kind, first), r, 2)
                c.create('h', r.choice(['direct', 'gen']), kind, [r.randint(1, 2)] * dim if dim < 4 else [1] * 4, [[0]] * dim)
                c.lines.append('copy h g')
                c.h['g'] = c.h['h']
                for i, x in enumerate([first, 'g' if first == 'h' else 'h', first]):
                    d = r.randrange(dim)
                    c.lines.append('insert %s %d %s 1' % (x, d, f(c.pos[d][0] + (c.pos[d][2] - c.pos[d][0]) * (i + 1) / 4)))
                    c.eval('h')
                    c.eval('g')
                out.append((c.sid, c.lines))
    return out


def c10(ctx):
    mc(ctx, 'comparison', ['insert', 'elevate', 'copy'], ['line', 'arc'], N(ctx, 3, 4), ['ElevatedIsReducible'], handles=2)
    sc = simulated(ctx, 'a', ['copy', 'insert', 'elevate', 'remove', 'equal', 'again', 'newpoints'], N(ctx, 50, 800), 8)
    for k in range(N(ctx, 120, 2000)):
        r = random.Random('%s/eq/%d' % (ctx.seed, k))
        c = Concrete('eq%d' % k, r, 3)
        dim = r.choice([1, 1, 2, 3])
        deg = [r.randint(1, 3 if dim == 1 else 2) for _ in range(dim)]
        mult = [[r.choice([0, 0, 1, p]) for _ in range(2)] for p in deg]
        kind = r.choice('bn')
        c.create('h', 'direct', kind, deg, mult)
        s = c.h['h']
        tol = r.choice([1e-6, 1e-3, .25])
        delta = tol * r.choice([0, .2, .9, 1.5, 10]) * r.choice([-1, 1])
        pts = [list(p) for p in s['pts']]
        w = list(s['w']) if s['w'] else None
        what = r.choice(['pt', 'ptlast', 'w', 'allpts', 'knot', 'degree', 'extra', 'same', 'endknot'])
        kn = [list(x) for x in s['knots']]
        deg2, mult2 = deg, mult
        if what == 'pt':
            r.choice(pts)[r.randrange(c.pdim)] += delta
        elif what == 'ptlast':
            pts[-1][-1] += delta
        elif what == 'allpts':
            for p in pts:
                p[-1] += delta
        elif what == 'w' and w:
            w[r.choice([0, -1, r.randrange(len(w))])] += abs(delta)
        elif what == 'knot':
            d = r.randrange(dim)
            if len(kn[d]) > 2 * deg[d] + 2:
                i = r.randrange(deg[d] + 1, len(kn[d]) - deg[d] - 1)
                kn[d][i] += min(abs(delta), .1) if kn[d][i + 1] > kn[d][i] + .1 else 0
        elif what == 'endknot':
            d = r.randrange(dim)
            kn[d] = kn[d][:-deg[d] - 1] + [x + abs(delta) for x in kn[d][-deg[d] - 1:]]
        elif what == 'degree':
            d = r.randrange(dim)
            deg2 = list(deg)
            deg2[d] += 1
            kn[d] = [kn[d][0]] + kn[d] + [kn[d][-1]]
            n2 = 1
            for e in range(dim):
                n2 *= len(kn[e]) - deg2[e] - 1
            pts = [[c.coord() for _ in range(c.pdim)] for _ in range(n2)]
            w = [c.weight() for _ in pts]
        elif what == 'extra':
            pass
        c.lines.append(c.args_line('m9', 'direct', kind, deg2, kn, pts, w))
        c.lines.append('new g m9')
        if what == 'extra':
            d = r.randrange(dim)
            c.lines.append('insert g %d %s 1' % (d, f((c.pos[d][0] + c.pos[d][1]) / 2)))
        for x, y in (('h', 'g'), ('g', 'h'), ('h', 'h')):
            c.lines.append('equal %s %s %s' % (x, y, f(tol)))
            c.lines.append('geoequal %s %s %s' % (x, y, f(tol)))
        c.lines.append('copy h k')
        c.lines.append('equal h k 2.2204460492503131e-15 default')
        c.lines.append('geoequal h k 2.2204460492503131e-15 default')
        sc.append((c.sid, c.lines))
    judge(ctx, sc)


ALL = ['insert', 'refine', 'remove', 'elevate', 'reduce', 'subdivide', 'copy', 'drop', 'equal', 'again', 'touch', 'newpoints', 'create']


def c11(ctx):
    def probe(c, h):
        if c.rng.random() < .25:
            c.eval(h)
        if c.rng.random() < .2:
            c.deriv(h, 1)
    mc(ctx, 'histories', ['insert', 'remove', 'elevate', 'reduce', 'subdivide', 'copy', 'drop'],
       ['line', 'arc'] if not ctx.thorough else ['line', 'quad', 'arc', 'kink', 'straight', 'surface'], N(ctx, 3, 4), [], handles=3)
    sc = simulated(ctx, 'a', ALL, N(ctx, 80, 1200), 11, probe=probe)
    sc += simulated(ctx, 'b', ['insert', 'remove', 'elevate', 'reduce', 'subdivide', 'refine'], N(ctx, 50, 800), 9, dims=(1, 2), probe=probe)
    sc += exhaustive(ctx, 'x', ['insert', 'remove', 'elevate', 'reduce', 'subdivide'], N(ctx, 3, 4), 'TinyShapes', limit=N(ctx, 150, 5000))
    sc += extremes(ctx, ['insert', 'remove', 'elevate', 'reduce', 'subdivide', 'refine'], probe=probe)
    judge(ctx, sc)
    ctx.known_findings('spl', 'SplineTrace', TRACE_CFG, {
        'elevate-after-subdivide': ['args m direct 1 b 1 4 0 0 1 1 2 1 0 1 1', 'new h m', 'subdivide h 0 0.5 x y', 'elevate h 0']})


CHECKS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10, 'C11': c11}
