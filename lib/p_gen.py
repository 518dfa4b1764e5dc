"""Checks of shapes made from other splines or numbers, and of projections: C21 - C23."""
import math
import random
from splgen import f, Concrete, concretize, TRACE_CFG
from p_spl import judge, simulated, probe_light, N


# ------------------------------------------------------------------ evaluation used to choose arguments (never to judge)
def basis(U, p, u):
    n = len(U) - p - 1
    k = p
    while k < n - 1 and not (U[k] <= u < U[k + 1]):
        k += 1
    B = [0.0] * n
    row = {k: 1.0}
    for q in range(1, p + 1):
        new = {}
        for i in range(k - q, k + 1):
            v = 0.0
            if i in row and U[i + q] != U[i]:
                v += (u - U[i]) / (U[i + q] - U[i]) * row[i]
            if i + 1 in row and U[i + q + 1] != U[i + 1]:
                v += (U[i + q + 1] - u) / (U[i + q + 1] - U[i + 1]) * row[i + 1]
            new[i] = v
        row = new
    for i, v in row.items():
        if 0 <= i < n:
            B[i] = v
    return B


def evaluate(deg, knots, pts, w, u):
    Bs = [basis(U, p, x) for U, p, x in zip(knots, deg, u)]
    num, den = [0.0] * len(pts[0]), 0.0
    for q in range(len(pts)):
        c, k = 1.0, q
        for B in Bs:
            c *= B[k % len(B)]
            k //= len(B)
        c *= w[q]
        den += c
        num = [a + c * b for a, b in zip(num, pts[q])]
    return [a / den for a in num]


def gradient(deg, knots, pts, w, u, d):
    lo, hi = knots[d][0], knots[d][-1]
    h = 1e-5 * (hi - lo)
    a, b = list(u), list(u)
    a[d], b[d] = max(lo, u[d] - h), min(hi, u[d] + h)
    x, y = evaluate(deg, knots, pts, w, a), evaluate(deg, knots, pts, w, b)
    if a[d] == lo or b[d] == hi:        # one-sided: second order
        m = list(u)
        m[d] = a[d] + 2 * h if a[d] == lo else b[d] - 2 * h
        e = [a[d], a[d] + h, a[d] + 2 * h] if a[d] == lo else [b[d], b[d] - h, b[d] - 2 * h]
        s = 1 if a[d] == lo else -1
        P = []
        for t in e:
            m[d] = t
            P.append(evaluate(deg, knots, pts, w, m))
        return [s * (-3 * p0 + 4 * p1 - p2) / (2 * h) for p0, p1, p2 in zip(*P)]
    return [(q - p) / (b[d] - a[d]) for p, q in zip(x, y)]


def greville(U, p):
    return [sum(U[i + 1:i + p + 1]) / p for i in range(len(U) - p - 1)]


# ------------------------------------------------------------------ C21
def curve_pos(c):
    """a lattice of its own for every curve"""
    return [c.lattice_values()]


def translations(ctx, n):
    """a translational surface and its two curves live on independently"""
    out = []
    for k in range(n):
        r = random.Random('%s/tr/%d' % (ctx.seed, k))
        c = Concrete('tr%d' % k, r, 3, probe_light)
        pdim = r.choice([1, 2, 3, 3, 3, 4])
        for h in 'tc':
            c.style = r.choice(['nice', 'float', 'offset', 'int'])
            p = r.randint(1, 4)
            c.create(h, r.choice(['direct', 'gen']), 'n', [p], [[r.randint(0, p) if r.random() < .6 else 0 for _ in range(2)]],
                     pdim=pdim, pos=curve_pos(c))
        same = r.random() < .15
        c.step(dict(op='translate', h='s', t='t', c='t' if same else 'c'))
        touched = set()
        for h in (['t', 's', 't'] if same else ['t', 's', 'c', 's']):
            d = r.randrange(c.h[h]['dim'])
            op = r.choice(['insert', 'insert', 'refine', 'remove', 'copy', 'elevate'])
            i = r.randint(1, 2)
            if op == 'elevate' and h in touched:       # multiplicities above the degree cannot be elevated
                op = 'copy'
            if op in ('insert', 'refine'):
                touched.add(h)
            if op == 'insert':
                c.step(dict(op=op, h=h, d=d + 1, i=i, m=1))
            elif op == 'refine':
                c.step(dict(op=op, h=h, d=d + 1, q=[1, 2]))
            elif op == 'remove':
                c.step(dict(op=op, h=h, d=d + 1, i=i, m=1, tol='huge'))
            elif op == 'elevate':
                c.step(dict(op=op, h=h, d=d + 1))
            else:
                c.step(dict(op=op, h=h, g='k%d' % len(c.lines)))
            c.eval(r.choice(list(c.h)))
        out.append((c.sid, c.lines))
    return out


def rot(r):
    """a random rotation matrix (rows)"""
    q = [r.gauss(0, 1) for _ in range(4)]
    m = math.sqrt(sum(x * x for x in q))
    a, b, c, d = [x / m for x in q]
    return [[a*a+b*b-c*c-d*d, 2*(b*c-a*d), 2*(b*d+a*c)], [2*(b*c+a*d), a*a-b*b+c*c-d*d, 2*(c*d-a*b)],
            [2*(b*d-a*c), 2*(c*d+a*b), a*a-b*b-c*c+d*d]]


def twisted(r):
    cross = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    best = None
    for _ in range(4000):
        P = [[float(r.randint(-6, 6)) for _ in range(3)] for _ in range(4)]
        ns = r.choice([4, 4, 5, 6])
        z = []
        for i in range(ns):
            t = i / (ns - 1)
            d1 = [3 * ((1 - t) ** 2 * (b - a) + 2 * t * (1 - t) * (c - b) + t * t * (d - c)) for a, b, c, d in zip(*P)]
            d2 = [6 * ((1 - t) * (c - 2 * b + a) + t * (d - 2 * c + b)) for a, b, c, d in zip(*P)]
            v = cross(d1, d2)
            m, m1 = math.sqrt(sum(x * x for x in v)), math.sqrt(sum(x * x for x in d1))
            if m < .05 * m1 * m1 or m1 < .5:
                break
            z.append([x / m for x in v])
        if len(z) == ns:
            low = min(abs(sum(x * y for x, y in zip(a, b))) for a, b in zip(z, z[1:]))
            if low > .002 and (best is None or low < best[0]):
                best = (low, P, ns)
            if .002 < low < .02:
                break
    return best[1], best[2]


def sweeps(ctx, n):
    out = []
    for k in range(n):
        r = random.Random('%s/sw/%d' % (ctx.seed, k))
        c = Concrete('sw%d' % k, r, 3)
        straight = r.random() < .3
        if straight:
            # exactly straight: every control point an exact multiple of one direction, in uniform speed
            c.style = 'int'
            p = r.randint(1, 4)
            pos = [[0.0, 1.0, 2.0, 3.0]] if r.random() < .5 else [[float(x) for x in (-2, 0, 1, 4)]]
            mult = [[0, 0]]
            dirn = r.choice([(1, 0, 0), (0, 1, 0), (0, 2, 0), (1, 1, 0), (3, 4, 0), (2, 1, 2), (0, 3, 4), (-1, 0, 0), (0, 3, -4)])
            a = [r.randint(-4, 4) for _ in range(3)]
            pts = [[x + y * q * 2 for x, y in zip(a, dirn)] for q in range(p + 1)]
            w = [1.0] * len(pts)
        else:
            p = r.randint(2, 4)
            c.style = r.choice(['nice', 'float', 'offset'])
            pos = curve_pos(c)
            mult = [[r.choice([0, 0, 1]) if p > 2 else 0 for _ in range(2)]]
            # a piece of a helix or a bent curve, turned anywhere
            U = c.knots(p, mult[0], 0, pos)
            g = greville(U, p)
            lo, hi = U[0], U[-1]
            turn, rise, rad = r.uniform(.4, 1.6), r.uniform(-2, 2), r.uniform(.5, 5)
            M, sh = rot(r), [r.uniform(-5, 5) for _ in range(3)]
            pts = []
            for x in g:
                t = (x - lo) / (hi - lo)
                q = [rad * math.cos(turn * t), rad * math.sin(turn * t), rise * t]
                pts.append([sum(mm * y for mm, y in zip(row, q)) + s for row, s in zip(M, sh)])
            w = [1.0] * len(pts) if r.random() < .4 else [r.uniform(.9, 1.1) for _ in pts]
        ns = r.choice([p + 1, p + 2, p + 4, 7, 11])
        ns = max(ns, p + 1, 2)
        if k % 10 == 9:
            # a twisted curve whose frame turns nearly by a right angle between two sections
            p, mult, pos = 3, [[0, 0]], [[0.0, 1.0, 2.0, 3.0]]
            pts, ns = twisted(r)
            w = [1.0] * 4
        if k % 10 == 4:
            # straight pieces and curved ones in one trajectory (degree 2 or 3, continuous tangent)
            p = r.choice([2, 3])
            pos, mult = [[0.0, 1.0, 2.0, 3.0]], [[p - 1, p - 1]]
            d = r.choice([(1, 0, 0), (0, 2, 0), (1, 1, 0), (2, 1, 2), (0, 3, -4), (1, -2, 1)])
            a = [float(r.randint(-3, 3)) for _ in range(3)]
            e = lambda: [float(r.randint(-5, 5)) for _ in range(3)]
            on = lambda q: [x + q * y for x, y in zip(a, d)]
            # p 2: one piece p points and one more; p 3, double knots: two more points a piece
            pts = [on(q) for q in ((0, 1, 3) if p == 2 else (0, 2, 3, 4))] + [e() for _ in range(2 if p == 2 else 4)]
            if r.random() < .5:
                pts.reverse()
            w = [1.0] * len(pts)
            ns = r.choice([5, 6, 8, 9, 11])
        scale = r.choice([1, 1, 1, 1e5, 1e6, 1e-4])          # the size of the parameter domain says nothing
        pos = [[x * scale for x in y] for y in pos]
        c.create('t', 'direct', 'n', [p], mult, pdim=3, pos=pos, pts=pts, w=w)
        c.style = r.choice(['nice', 'float', 'offset', 'int'])
        pc = r.randint(1, 4)
        c.create('c', r.choice(['direct', 'gen']), 'n', [pc], [[r.randint(0, pc) if r.random() < .5 else 0 for _ in range(2)]], pdim=3, pos=curve_pos(c))
        sc = []
        kind = r.choice(['one', 'uniform', 'free', 'free'])
        s0 = [r.choice([.5, 1, 2, -1]) for _ in range(3)]
        for _ in range(ns):
            sc += [1.0, 1.0, 1.0] if kind == 'one' else s0 if kind == 'uniform' else [r.uniform(.2, 3) for _ in range(3)]
        if r.random() < .3:
            c.eval('t')
        c.lines.append('sweep s t c %d %s' % (ns, ' '.join(map(f, sc))))
        c.lines.append('info s')
        if r.random() < .5:
            c.lines.append('refine c 0 1 %s' % f(c.param('c', 0, 'in')))
        if r.random() < .5:
            c.lines.append('insert t 0 %s 1' % f(c.param('t', 0, 'in')))
        if r.random() < .4:
            c.lines.append('sweep s2 t c %d %s' % (ns, ' '.join(map(f, sc))))
        out.append((c.sid, c.lines))
    return out


def quarters(ctx, n):
    """trajectories that run in one plane of the axes and then in another one: the normal turns by a right angle"""
    out = []
    for k in range(n):
        r = random.Random('%s/qt/%d' % (ctx.seed, k))
        c = Concrete('qt%d' % k, r, 3)
        perm = r.sample(range(3), 3)
        turn = lambda q: [float(q[perm[i]]) for i in range(3)]
        s = lambda: r.choice([-1, 1]) * r.choice([.5, 1, 2, 3])
        d = s()
        if r.random() < .5:
            p, knots = 2, [1]
            pts = [[s(), s(), 0], [0, 0, 0], [2 * d, 0, 0], [3 * d, 0, s()]]
        else:
            p, knots = 3, [2]
            pts = [[-d, s(), 0], [0, s(), 0], [d, 0, 0], [2 * d, 0, 0], [3 * d, 0, s()], [4 * d, 0, s()]]
        w = [1.0] * len(pts) if r.random() < .6 else [r.choice([.5, 1, 2]) for _ in pts]
        L = r.choice([1, 2, 4])
        at = r.choice([.3, .5, .7])
        c.create('t', 'direct', 'n', [p], [knots + [0]], pdim=3, pos=[[0.0, L * at, L * (at + 1) / 2, float(L)]], pts=[turn(q) for q in pts], w=w)
        pc = r.randint(1, 3)
        c.create('c', 'direct', 'n', [pc], [[0, 0]], pdim=3, pos=[[0.0, 1.0, 2.0, 3.0]])
        ns = r.choice([p + 1, p + 2, p + 3, 8, 10])
        sc = [r.choice([.5, 1, 2, -1]) for _ in range(3 * ns)]
        c.lines.append('sweep s t c %d %s' % (ns, ' '.join(map(f, sc))))
        c.eval('t')
        out.append((c.sid, c.lines))
    return out


def c21(ctx):
    sc = translations(ctx, N(ctx, 90, 1500))
    sc += simulated(ctx, 'g', ['create', 'translate', 'insert', 'refine', 'elevate', 'remove', 'copy'], N(ctx, 60, 800), 8,
                    dims=(1,), kinds=('n',), maxdeg=3, lattice=3, handles=5, probe=probe_light)
    sc += sweeps(ctx, N(ctx, 160, 2500))
    sc += quarters(ctx, N(ctx, 16, 200))
    judge(ctx, sc)


# ------------------------------------------------------------------ C22
def squares(ctx):
    out = []
    for p in range(1, 10 if ctx.thorough else 8):
        for k in range(2 * p + 2, 2 * p + (11 if ctx.thorough else 8 if p < 5 else 5)):
            L = ['square s %d %d' % (p, k), 'elements s', 'info s', 'eval s 0.0 0.0 2 0 1', 'eval s 1.0 1.0 2 0 1', 'eval s 0.3 0.8 2 1 0']
            out.append(('sq%d-%d' % (p, k), L + ['insert s 0 0.3 1', 'square t %d %d' % (p, k), 'elements s', 'elements t', 'eval t 0.5 0.9 2 0 1']))
    out.append(('sqdef', ['square s', 'elements s', 'eval s 0.25 0.75 2 0 1']))
    for m in range(1, N(ctx, 6, 14)):
        out.append(('sqbig%d' % m, ['square s %d %d' % (m % 4 + 1, 2 * (m % 4) + 12 + 3 * m), 'elements s', 'eval s 1.0 0.5 2 0 1']))
    return out


def randoms(ctx, n):
    out = []
    for k in range(n):
        r = random.Random('%s/rnd/%d' % (ctx.seed, k))
        L = []
        for j in range(r.randint(2, 5)):
            dim = r.choice([1, 1, 2, 2, 3, 4])
            maxdeg = r.randint(1, {1: 12, 2: 5, 3: 3, 4: 2}[dim])
            a = r.choice([0.0, 0.0, -1.0, 2.5, r.uniform(-50, 50)])
            b = a + r.choice([1.0, 2.0, .1, r.uniform(.01, 30)])
            L.append('random r%d %s %d %s %s %d %d' % (j, r.choice('bn'), dim, f(a), f(b), maxdeg, r.choice([1, 2, 3, 3, 4, 5])))
            L.append('elements r%d' % j)
        out.append(('rnd%d' % k, L))
    return out


def probe_elements(c, h):
    if h in c.h:
        c.lines.append('elements %s' % h)


def c22(ctx):
    sc = squares(ctx) + randoms(ctx, N(ctx, 150, 3000))
    sc += simulated(ctx, 'e', ['insert', 'refine', 'remove', 'subdivide', 'elevate', 'create', 'copy'], N(ctx, 60, 900), 6, dims=(1, 2, 3, 4),
                    maxdeg=3, probe=probe_elements)
    sc += simulated(ctx, 'ec', ['insert', 'refine', 'create'], N(ctx, 30, 300), 5, dims=(1, 2), maxdeg=3, probe=probe_elements, close=1.0)
    judge(ctx, sc)


# ------------------------------------------------------------------ C23
def projections(ctx, n):
    out = []
    for k in range(n):
        r = random.Random('%s/pr/%d' % (ctx.seed, k))
        c = Concrete('pr%d' % k, r, 4)
        dim = r.choice([1, 1, 1, 2, 2])
        pdim = 3 if dim == 2 else r.choice([1, 2, 2, 3, 3, 4])
        kind = r.choice('bn')
        deg = [r.randint(1, 4 if dim == 1 else 3) for _ in range(dim)]
        few = r.random() < .5
        mult = [[(r.randint(1, p) if r.random() < .3 else 1) if r.random() < (.4 if few else .9) else 0 for _ in range(3)] for p in deg]
        style = r.choice(['unit', 'wide', 'neg', 'small', 'free'])
        pos = []
        for _ in range(dim):
            a, L = {'unit': (0.0, 1.0), 'wide': (2.0, 8.0), 'neg': (-5.0, 4.0), 'small': (0.0, .25), 'free': (r.uniform(-9, 9), r.uniform(.2, 9))}[style]
            cut = sorted(r.uniform(.1, .9) for _ in range(3))
            if r.random() < .4 or cut[1] - cut[0] < .05 or cut[2] - cut[1] < .05:
                cut = [.25, .5, .75]
            pos.append([a] + [a + x * L for x in cut] + [a + L])
        knots = [c.knots(p, m, d, pos) for d, (p, m) in enumerate(zip(deg, mult))]
        g = [greville(U, p) for U, p in zip(knots, deg)]
        # an affine map with small bumps
        speed = [r.choice([1.0, 1.0, 3.0, .2, 10.0]) for _ in range(dim)]
        B = rot(r) if r.random() < .7 else [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        A = []
        for d in range(dim):
            if pdim == 3:
                v = [B[d][j] * speed[d] for j in range(3)]
            else:
                v = [r.gauss(0, 1) for _ in range(pdim)]
                m = math.sqrt(sum(x * x for x in v))
                v = [x / m * speed[d] for x in v]
            A.append(v)
        if dim == 2 and r.random() < .4:          # skewed
            s = r.uniform(-.3, .3) * speed[1] / speed[0]
            A[1] = [x + s * y for x, y in zip(A[1], A[0])]
        o = [r.uniform(-5, 5) for _ in range(pdim)]
        nn = [len(x) for x in g]
        tot = 1
        for x in nn:
            tot *= x
        steps = [min([b - a for a, b in zip(x, x[1:]) if b > a + 1e-12] or [1]) for x in g]
        bump = r.choice([0, .02, .04, .08]) * min(s * st for s, st in zip(speed, steps))
        pts = []
        for q in range(tot):
            i, kk = [], q
            for x in nn:
                i.append(kk % x)
                kk //= x
            pts.append([o[j] + sum(A[d][j] * (g[d][i[d]] - pos[d][0]) for d in range(dim)) + bump * r.uniform(-1, 1) for j in range(pdim)])
        ww = r.choice([0, 0, .005, .02])
        w = [1.0] * tot if kind == 'b' else [r.choice([1, 2, .5])] * tot if ww == 0 else [1 + ww * r.uniform(-1, 1) * min(1, bump * 10 + .1) for _ in range(tot)]
        c.create('h', r.choice(['direct', 'gen']), kind, deg, mult, pdim=pdim, pts=pts, w=w, pos=pos)
        for j in range(r.randint(2, 5) if dim == 1 else 2):
            foot = []
            for d in range(dim):
                a, b = pos[d][0], pos[d][-1]
                foot.append(r.choice([a, b, r.uniform(a, b), r.uniform(a, b), r.choice(pos[d]), a + (b - a) * r.choice([.5, .125, .9])]))
            S = evaluate(deg, knots, pts, w, foot)
            G = [gradient(deg, knots, pts, w, foot, d) for d in range(dim)]
            off = r.choice([0, 0, 1, 1, .1])
            size = off * r.choice([.01, .05, .2, 1]) * min(s * (x[-1] - x[0]) for s, x in zip(speed, pos))
            if dim == 2:
                v = [G[0][1] * G[1][2] - G[0][2] * G[1][1], G[0][2] * G[1][0] - G[0][0] * G[1][2], G[0][0] * G[1][1] - G[0][1] * G[1][0]]
                m = math.sqrt(sum(x * x for x in v))
                v = [x / m for x in v]
            else:
                v = [r.gauss(0, 1) for _ in range(pdim)]
                for _ in range(2):
                    s = sum(x * y for x, y in zip(v, G[0])) / sum(x * x for x in G[0])
                    v = [x - s * y for x, y in zip(v, G[0])]
                m = math.sqrt(sum(x * x for x in v))
                v = [x / m for x in v] if m > 1e-6 else [0.0] * pdim
                if foot[0] in (pos[0][0], pos[0][-1]) and r.random() < .6:      # beyond the end
                    sg = 1 if foot[0] == pos[0][-1] else -1
                    t = r.choice([.01, .2, 1, 3])
                    v = [x + sg * t * y for x, y in zip(v, G[0])]
                    size = size or .1
            p = [a + size * b for a, b in zip(S, v)]
            tol = r.choice([0, 0, 1e-3, 1e-6, 1e-8])
            s1 = 0 if tol == 0 and r.random() < .5 else r.choice([1, 2, 5, 10, 20])
            s2 = s1 if r.random() < .5 else r.choice([1, 3, 10])
            if dim == 2 and s1 == 0 and tol > 0:
                s1 = s2 = 10
            c.lines.append('project h %s %d %d %d %s %d %s' % (f(tol), s1, max(s2, 1), pdim, ' '.join(map(f, p)), dim, ' '.join(map(f, foot))))
        out.append((c.sid, c.lines))
    return out


def bent(ctx, n):
    """curves and surfaces that turn by up to three quarters of a circle, at nearly constant speed"""
    out = []
    for k in range(n):
        r = random.Random('%s/bent/%d' % (ctx.seed, k))
        c = Concrete('be%d' % k, r, 4)
        dim = 1 if k % 3 else 2
        kind = r.choice('bbn')
        pdim = 3 if dim == 2 else r.choice([2, 3, 3])
        turn = r.uniform(2, 4.7) if dim == 1 else r.uniform(2.4, 4.7)
        spans = [r.randint(max(9, int(turn * 3)), 16)] if dim == 1 else [int(2.2 * turn) + 1, r.randint(1, 2)]
        turned = 0
        if dim == 2 and r.random() < .5:
            spans.reverse()
            turned = 1
        deg = [r.randint(2, 3) for _ in range(dim)]
        pos = []
        for x in spans:
            a, L = r.choice([(0., 1.), (2., 8.), (-5., 4.), (r.uniform(-9, 9), r.uniform(.5, 9))])
            j = 0 if r.random() < .5 else .15
            cut = [(i + (r.uniform(-j, j) if 0 < i < x else 0)) / x for i in range(x + 1)]
            pos.append([a + L * t for t in cut])
        mult = [[1] * (len(x) - 2) for x in pos]
        # knots: all interior ones once
        kn = [[x[0]] * (p + 1) + x[1:-1] + [x[-1]] * (p + 1) for p, x in zip(deg, pos)]
        g = [greville(U, p) for U, p in zip(kn, deg)]
        rad = r.choice([.5, 1, 4, 20])
        pitch = 0 if pdim == 2 or r.random() < .5 else rad * r.uniform(.1, .5)
        height = rad * turn * r.uniform(.5, 1)
        M = rot(r) if pdim == 3 else None
        o = [r.uniform(-3, 3) for _ in range(pdim)]
        frac = lambda d, t: (t - pos[d][0]) / (pos[d][-1] - pos[d][0])
        ph = r.uniform(0, 6.28)

        def place(ts):
            ang = ph + turn * frac(turned, ts[turned])
            z = pitch * frac(0, ts[0]) * turn if dim == 1 else height * frac(1 - turned, ts[1 - turned])
            q = [rad * math.cos(ang), rad * math.sin(ang), z]
            return [o[j] + q[j] for j in range(2)] if pdim == 2 else [o[j] + sum(M[i][j] * q[i] for i in range(3)) for j in range(3)]
        pts = []
        for q in range(math.prod(map(len, g))):
            i, kk = [], q
            for x in g:
                i.append(kk % len(x))
                kk //= len(x)
            pts.append(place([g[d][i[d]] for d in range(dim)]))
        w = [1.0] * len(pts) if kind == 'b' else [r.choice([1, 2., .5])] * len(pts)
        c.create('h', r.choice(['direct', 'gen']), kind, deg, mult, pdim=pdim, pts=pts, w=w, pos=pos)
        for j in range(2):
            foot = [r.choice([x[-1], x[0]] + [r.uniform(x[0], x[-1]) for _ in range(6)]) for x in pos]
            S = evaluate(deg, kn, pts, w, foot)
            G = [gradient(deg, kn, pts, w, foot, d) for d in range(dim)]
            size = r.choice([0, .01, .03, .05]) * rad * r.choice([-1, 1])
            if dim == 2:
                v = [G[0][1] * G[1][2] - G[0][2] * G[1][1], G[0][2] * G[1][0] - G[0][0] * G[1][2], G[0][0] * G[1][1] - G[0][1] * G[1][0]]
            else:
                v = [r.gauss(0, 1) for _ in range(pdim)]
                for _ in range(2):
                    s = sum(x * y for x, y in zip(v, G[0])) / sum(x * x for x in G[0])
                    v = [x - s * y for x, y in zip(v, G[0])]
            m = math.sqrt(sum(x * x for x in v))
            p = [a + size * x / m for a, x in zip(S, v)]
            s1, s2 = (int(turn * r.uniform(9, 11)), r.randint(5, 6)) if dim == 2 else (10, 10)
            if turned:
                s1, s2 = s2, s1
            c.lines.append('project h %s %d %d %d %s %d %s' % (f(r.choice([0, 1e-3, 1e-6, 1e-8]) or (0 if dim == 1 else 1e-5)), s1, s2, pdim, ' '.join(map(f, p)), dim, ' '.join(map(f, foot))))
        out.append((c.sid, c.lines))
    return out


def c23(ctx):
    judge(ctx, projections(ctx, N(ctx, 300, 6000)) + bent(ctx, N(ctx, 45, 900)))


CHECKS = {'C21': c21, 'C22': c22, 'C23': c23}
