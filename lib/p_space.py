"""Checks of the building blocks of splines: parameter spaces and basis functions (C26), control nets (C27)."""
import math
import random
import fw

BTRACE = 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\nCONSTANT Tol = "1/1000000000"\n'


def f(x):
    return repr(float(x))


def N(ctx, quick, thorough):
    return thorough if ctx.thorough else quick


def ints(x):
    return '%d %s' % (len(x), ' '.join(map(str, x)))


def nums(x):
    return '%d %s' % (len(x), ' '.join(map(f, x)))


def lattice(r, top):
    style = r.choice(['unit', 'shift', 'odd', 'tiny', 'close', 'big'])
    if style == 'unit':
        return [i / top for i in range(top + 1)]
    if style == 'shift':
        a, w = r.choice([(-3, 6), (10, 5), (-1e3, 1)])
        return [a + w * i / top for i in range(top + 1)]
    if style == 'tiny':
        return [1e-4 * i for i in range(top + 1)]
    if style == 'big':
        return [1e5 * (i - 1) for i in range(top + 1)]
    if style == 'close':
        p = [0., 0.5]
        while len(p) < top:
            p.append(p[-1] + 2.0 ** -r.choice([12, 20]))
        return p[:top] + [1.]
    while True:
        p = sorted(r.uniform(-2, 7) for _ in range(top + 1))
        if all(b - a > .01 for a, b in zip(p, p[1:])):
            return p


# ------------------------------------------------------------------ C26
def params(r, pos):
    i = r.randrange(len(pos) - 1)
    return r.choice([pos[i], pos[i + 1], pos[0], pos[-1], pos[-1], pos[i] + (pos[i + 1] - pos[i]) * r.random(),
                     pos[i] + (pos[i + 1] - pos[i]) * r.random(), math.nextafter(pos[i + 1], -math.inf)])


class Model:
    """the degrees and knots of every handle, to know which questions make sense"""
    def __init__(self):
        self.s = {}

    def usable(self, h):
        deg, kn = self.s[h]
        return all(len(k) >= 2 * p + 2 and k[0] < k[-1] and k[p] == k[0] and k[-1 - p] == k[-1] for p, k in zip(deg, kn))


def space_questions(r, m, pos, lines):
    h = r.choice(sorted(m.s))
    deg, kn = m.s[h]
    D = len(deg)
    lines.append('ranges %s' % h)
    g = r.choice(sorted(m.s))
    if len(m.s[g][0]) == D:
        lines.append('equal %s %s %s' % (h, g, r.choice(['default', '1e-09', '0.001', '0.3', '1.5'])))
    u = [params(r, pos[d]) for d in range(D)]
    o = list(u)
    if r.random() < .5:
        d = r.randrange(D)
        o[d] = r.choice([math.nextafter(kn[d][0], -math.inf), math.nextafter(kn[d][-1], math.inf), kn[d][-1] + 1, kn[d][0] - 1e-3])
    lines.append('inside %s %s' % (h, nums(o)))
    if not m.usable(h):
        return
    for _ in range(2):
        u = []
        for d in range(D):
            x = params(r, pos[d])
            u.append(x if kn[d][0] <= x <= kn[d][-1] else r.choice([kn[d][0], kn[d][-1]]))
        k = [r.randint(0, p + 1) for p in deg]
        lines.append('at %s %s %s' % (h, nums(u), ints(k)))
        idx = []
        for d in range(D):
            n = len(kn[d]) - deg[d] - 1
            j = max(i for i in range(len(kn[d])) if kn[d][i] <= u[d] and (kn[d][i] < kn[d][-1]))
            idx.append(min(max(0, j - r.randint(0, deg[d] + (r.random() < .2))), n - 1))
        lines.append('tensor %s %s %s %s' % (h, nums(u), ints(idx), ints(k)))
    d = r.randrange(D)
    for x in sorted(set(kn[d]))[1:-1]:
        if kn[d].count(x) == deg[d] + 1:
            lines.append('divide %s %d %s' % (h, d + 1, f(x)))


def insert(k, u):
    return sorted(k + [u])


def remove(k, u):
    k = list(k)
    k.remove(u)
    return k


def space_scripts(prefix, hist, seed, top):
    out = []
    for n, hs in enumerate(hist):
        r = random.Random('%s/%s/%d' % (seed, prefix, n))
        lines, m, pos = [], Model(), None
        for e in hs:
            op = e['op']
            if op == 'new':
                if pos is None:
                    pos = [lattice(r, top) for _ in e['deg']]
                kn = [[pos[d][i] for i in k] for d, k in enumerate(e['knots'])]
                m.s[e['h']] = (list(e['deg']), kn)
                lines.append('new %s %s %s' % (e['h'], ints(e['deg']), ' '.join(map(nums, kn))))
            elif op == 'copy':
                m.s[e['g']] = ([*m.s[e['h']][0]], [list(k) for k in m.s[e['h']][1]])
                lines.append('copy %s %s' % (e['h'], e['g']))
            else:
                deg, kn = m.s[e['h']]
                d = e['d'] - 1
                if op in ('insert', 'remove'):
                    u = pos[d][e['u']]
                    kn[d] = insert(kn[d], u) if op == 'insert' else remove(kn[d], u)
                    lines.append('%s %s %d %s' % (op, e['h'], d + 1, f(u)))
                else:
                    for o in {'up': r.choice([['elevate', 'thicken'], ['thicken', 'elevate']]), 'down': ['reduce', 'thin']}.get(op, [op]):
                        if o in ('elevate', 'reduce'):
                            deg[d] += 1 if o == 'elevate' else -1
                        else:
                            kn[d] = sorted(kn[d] + sorted(set(kn[d]))) if o == 'thicken' else [x for y in sorted(set(kn[d])) for x in [y] * (kn[d].count(y) - 1)]
                        lines.append('%s %s %d' % (o, e['h'], d + 1))
            space_questions(r, m, pos, lines)
        out.append(('%s%d' % (prefix, n), lines))
    return out


def single_functions(ctx, n):
    """single functions over any non-decreasing knots"""
    out = []
    for k in range(n):
        r = random.Random('%s/single/%d' % (ctx.seed, k))
        lines = []
        for j in range(4):
            p = r.randint(0, 4) if r.random() < .97 else -r.randint(1, 3)
            pos = lattice(r, r.randint(2, 6))
            kn = sorted(sum(([x] * r.choice([1, 1, 1, 2, 3, p + 1 if p >= 0 else 1]) for x in pos), []))
            while len(kn) < p + 2:
                kn = sorted(kn + [r.choice(pos)])
            i = r.randint(0, len(kn) - max(p, 0) - 2)
            us = [params(r, pos) for _ in range(4)] + [pos[0] - 1, pos[-1] + 1e-3, kn[i], kn[i + max(p, 0) + 1]]
            if p == 0 and kn[i] == kn[-1]:      # the empty last span: nothing is promised
                us = [u for u in us if u != kn[-1]]
            lines.append('single x %d %d %s %s %d' % (p, i, nums(kn), nums(us), max(p, 0) + 1))
        out.append(('sf%d' % k, lines))
    return out


def bad_spaces(ctx, n):
    """constructions that fit and that do not"""
    out = []
    for k in range(n):
        r = random.Random('%s/badspace/%d' % (ctx.seed, k))
        lines = []
        for j in range(6):
            D = r.randint(1, 3)
            deg, kn = [], []
            for d in range(D):
                p = r.randint(0, 4)
                pos = lattice(r, r.randint(1, 4))
                deg.append(p)
                kn.append([pos[0]] * (p + 1) + sorted(x for x in pos[1:-1] for _ in range(r.randint(1, p + 1))) + [pos[-1]] * (p + 1))
            d = r.randrange(D)
            how = r.choice(['good', 'first', 'last', 'few', 'eps', 'more'])
            k0, p = kn[d], deg[d]
            if how == 'first' and p > 0:
                k0[:p + 1] = sorted(k0[0] - r.choice([1e-9, .1]) * (i < r.randint(1, p)) for i in range(p + 1))
            elif how == 'last' and p > 0:
                k0[-p - 1:] = sorted(k0[-1] + r.choice([1e-9, .1]) * (i < r.randint(1, p)) for i in range(p + 1))
            elif how == 'few':
                deg[d] += r.randint(1, 2)
            elif how == 'eps' and p > 0:
                k0[-1] = math.nextafter(k0[-1], math.inf)
            elif how == 'more':
                kn[d] = [k0[0]] + k0 + [k0[-1]]
            h = 'b%d' % j
            lines.append('new %s %s %s' % (h, ints(deg), ' '.join(map(nums, kn))))
        out.append(('bs%d' % k, lines))
    return out


def equal_spaces(ctx, n):
    """pairs that differ in one knot, one degree or one length"""
    out = []
    for k in range(n):
        r = random.Random('%s/eqspace/%d' % (ctx.seed, k))
        D = r.randint(1, 3)
        deg = [r.randint(0, 3) for _ in range(D)]
        kn = []
        for p in deg:
            pos = [float(x) for x in range(r.randint(3, 6))]
            kn.append([pos[0]] * (p + 1) + pos[1:-1] + [pos[-1]] * (p + 1))
        lines = ['new a %s %s' % (ints(deg), ' '.join(map(nums, kn))), 'copy a b', 'equal a b default', 'equal b a default']
        for j in range(5):
            d = r.randrange(D)
            deg2, kn2 = list(deg), [list(x) for x in kn]
            e = r.choice([1e-15, 1e-14, 1e-9, 1e-4, .2])
            how = r.choice(['knot', 'knot', 'degree', 'length', 'end'])
            p = deg[d]
            if how == 'degree':            # the same knots, one degree less: still clamped
                if p == 0:
                    continue
                deg2[d] -= 1
            elif how == 'length':
                kn2[d] = insert(kn2[d], .5)
            elif how == 'end':
                kn2[d] = [x + (e if x == kn2[d][-1] else 0) for x in kn2[d]]
            else:
                i = r.randrange(p + 1, len(kn2[d]) - p - 1)
                kn2[d][i] += r.choice([-1, 1]) * e
            h = 'c%d' % j
            lines.append('new %s %s %s' % (h, ints(deg2), ' '.join(map(nums, kn2))))
            for t in ('default', f(e / 2), f(2 * e), '1.5'):
                lines += ['equal a %s %s' % (h, t), 'equal %s a %s' % (h, t)]
        out.append(('es%d' % k, lines))
    return out


def c26(ctx):
    cfg = lambda steps, top, dim, h, md, inv: fw.cfg_text('GBSpec', {'BSteps': steps, 'BTop': top, 'BDim': dim, 'BHandlesMax': h, 'BMaxDeg': md}, inv)
    laws = ['AlwaysFunctions', 'UnityLaw', 'SingleLaw', 'DivideLaw']
    hist = ctx.all_behaviours('BasisGen', cfg(N(ctx, 3, 4), 2, 1, 2, 3, laws))
    total = len(hist)
    hist.sort(key=str)
    if len(hist) > N(ctx, 300, 6000):
        ctx.rng.shuffle(hist)
        hist = hist[:N(ctx, 300, 6000)]
    ctx.notes.append('%d of all %d histories of %d steps in one direction' % (len(hist), total, N(ctx, 3, 4)))
    sc = space_scripts('x', hist, ctx.seed, 2)
    for dim, n in ((1, 40), (2, 60), (3, 40)):
        sim = ctx.behaviours('BasisGen', cfg(9, 3, dim, 3, 4, []), N(ctx, n, n * 20), 11, ctx.seed * 41 + dim)
        sc += space_scripts('s%d-' % dim, sim, ctx.seed, 3)
    sc += single_functions(ctx, N(ctx, 120, 3000))
    sc += bad_spaces(ctx, N(ctx, 60, 1000))
    sc += equal_spaces(ctx, N(ctx, 60, 1000))
    ctx.check_scenarios('bas', 'BasisTrace', BTRACE, sc)


# ------------------------------------------------------------------ C27
def number(r):
    return r.choice([float(r.randint(-9, 9)), r.uniform(-10, 10), r.uniform(-1, 1) * 10 ** r.randint(-6, 6), r.uniform(.1, 3)])


def point(r, k):
    return [number(r) for _ in range(k)]


def new_net(h, n, pts, w):
    return 'new %s %s %d %s %d %s' % (h, ints(n), len(pts), ' '.join(map(nums, pts)), w is not None, nums(w or []))


def net_scripts(prefix, hist, seed):
    out = []
    for k, hs in enumerate(hist):
        r = random.Random('%s/%s/%d' % (seed, prefix, k))
        pd = r.randint(1, 4)
        neg = r.random() < .2                        # all coordinates negative
        val = lambda: [-abs(x) - 1e-3 for x in point(r, pd)] if neg else point(r, pd)
        m, lines = {}, []                            # handle -> [n, number of points, weighted]
        for e in hs:
            op, h = e['op'], e['h']
            if op == 'new':
                q = math.prod(e['n'])
                m[h] = [list(e['n']), q, e['rat']]
                lines.append(new_net(h, e['n'], [val() for _ in range(q)], [r.uniform(.1, 3) for _ in range(q)] if e['rat'] else None))
            elif op == 'copy':
                m[e['g']] = [list(m[h][0]), m[h][1], m[h][2]]
                lines.append('copy %s %s' % (h, e['g']))
            elif op == 'set':
                lines.append('set %s %s %s %d %d' % (h, ints(e['idx']), nums(val()), e['d'], e['delta']))
            elif op == 'setw':
                lines.append('setw %s %s %s %d %d' % (h, ints(e['idx']), f(r.uniform(.1, 3)), e['d'], e['delta']))
            elif op == 'setboth':
                lines.append('setboth %s %s %s %s' % (h, ints(e['idx']), nums(val()), f(r.uniform(.1, 3))))
            elif op in ('add', 'rem'):
                m[h][1] += e['k'] * (1 if op == 'add' else -1)
                lines.append('%s %s %d' % (op, h, e['k']))
            elif op == 'len':
                m[h][0][e['d'] - 1] = e['m']
                if e['by'] in (1, -1) and r.random() < .6:
                    lines.append('%s %s %d' % ('inc' if e['by'] > 0 else 'dec', h, e['d']))
                else:
                    lines.append('len %s %d %d' % (h, e['d'], e['m']))
            elif op == 'grow':
                m[h][0][e['d'] - 1] += 1
                m[h][1] += e['k']
                lines += ['add %s %d' % (h, e['k']), 'inc %s %d' % (h, e['d'])]
            h = r.choice(sorted(m))
            n, q, rat = m[h]
            lines.append('ask ' + h)
            lines.append('get %s %s' % (h, ints([r.randrange(x) for x in n])))
            d = r.randrange(len(n))
            a = r.randrange(n[d])
            lines.append('part %s %d %d %d' % (h, a, r.randint(1, n[d] - a), d + 1))
            g = r.choice(sorted(m))
            if m[g][2] == rat:
                lines.append('equal %s %s %s' % (h, g, r.choice(['default', '0.1', '5.0'])))
        out.append(('%s%d' % (prefix, k), lines))
    return out


def bad_nets(ctx, n):
    out = []
    for k in range(n):
        r = random.Random('%s/badnet/%d' % (ctx.seed, k))
        lines = []
        for j in range(8):
            D = r.randint(1, 4)
            ln = [r.randint(1, 4 if D < 3 else 2) for _ in range(D)]
            q, pd = math.prod(ln), r.randint(1, 4)
            pts = [point(r, pd) for _ in range(q)]
            w = [r.uniform(.1, 2) for _ in range(q)] if r.random() < .5 else None
            how = r.choice(['good', 'more', 'fewer', 'dim', 'lastdim', 'weights', 'lengths'])
            if how == 'more':
                pts += [point(r, pd)] * r.randint(1, 2)
                if w and r.random() < .5:
                    w += [1.] * (len(pts) - len(w))
            elif how == 'fewer' and q > 1:
                pts.pop()
                if w and r.random() < .5:
                    w.pop()
            elif how in ('dim', 'lastdim') and q > 1:
                i = q - 1 if how == 'lastdim' else r.randrange(1, q)
                pts[i] = point(r, pd + r.choice([-1, 1]) if pd > 1 else pd + 1)
            elif how == 'weights' and w:
                w = w + [1.] if r.random() < .5 else w[:-1]
            elif how == 'lengths':
                ln[r.randrange(D)] += 1
            lines.append(new_net('b%d' % j, ln, pts, w))
        out.append(('bn%d' % k, lines))
    return out


def large_nets(ctx, n):
    """nets with up to a few hundred points"""
    out = []
    for k in range(n):
        r = random.Random('%s/largenet/%d' % (ctx.seed, k))
        D = r.randint(1, 4)
        top = {1: 300, 2: 20, 3: 8, 4: 5}[D]
        ln = [r.randint(max(1, top // 3), top) for _ in range(D)]
        if D > 1 and r.random() < .4:
            ln[r.randrange(D)] = r.choice([1, 2, 2 * top])
        while math.prod(ln) > 320:
            i = ln.index(max(ln))
            ln[i] -= 1
        q, pd = math.prod(ln), r.randint(1, 4)
        rat = r.random() < .6
        pts = [[r.uniform(-3, 3) for _ in range(pd)] for _ in range(q)]
        w = [r.uniform(.5, 3) for _ in range(q)]
        i = r.randrange(q)                       # the extreme values at a chosen place
        pts[i][r.randrange(pd)] = 7.5
        pts[r.randrange(q // 2, q)][r.randrange(pd)] = -20.
        w[r.randrange(q)] = .25
        lines = [new_net('a', ln, pts, w if rat else None), 'ask a', 'copy a b']
        for j in range(4):
            idx = [r.choice([0, x - 1, r.randrange(x)]) for x in ln]
            lines += ['get a ' + ints(idx), 'set b %s %s 0 1' % (ints(idx), nums(pts[r.randrange(q)])), 'equal a b 1e-06', 'ask b']
            d = r.randrange(D)
            a = r.choice([0, r.randrange(ln[d])])
            lines.append('part b %d %d %d' % (a, r.choice([ln[d] - a, r.randint(1, ln[d] - a)]), d + 1))
        out.append(('ln%d' % k, lines))
    return out


def equal_nets(ctx, n):
    """pairs that differ in one number or in the shape only"""
    out = []
    for k in range(n):
        r = random.Random('%s/eqnet/%d' % (ctx.seed, k))
        D = r.randint(1, 4)
        ln = [r.randint(1, 4 if D < 3 else 3) for _ in range(D)]
        q, pd = math.prod(ln), r.randint(1, 4)
        pts = [point(r, pd) for _ in range(q)]
        w = [r.uniform(.1, 2) for _ in range(q)] if r.random() < .5 else None
        lines = [new_net('a', ln, pts, w), 'copy a b', 'equal a b default', 'equal b a default']
        for j in range(6):
            p2, w2, l2 = [list(x) for x in pts], w and list(w), list(ln)
            e = r.choice([1e-9, 1e-4, .2])
            how = r.choice(['point', 'weight', 'shape', 'flat', 'last'])
            if how == 'weight' and w:
                w2[r.randrange(q)] += e
            elif how == 'shape':
                l2 = sorted(ln, reverse=r.random() < .5)
                if r.random() < .3:
                    l2 = [q] + [1] * (D - 1)
            elif how == 'flat' and q > 1 and pd > 1 and D == 1 and not w:    # the same numbers as fewer points with more coordinates
                fl = sum(p2, [])
                l2, p2 = [pd], [fl[i * q:i * q + q] for i in range(pd)]
            elif how == 'last':
                p2[-1][-1] -= e
            else:
                p2[r.randrange(q)][r.randrange(pd)] += r.choice([-1, 1]) * e
            lines.append(new_net('c%d' % j, l2, p2, w2))
            for t in ('default', f(e / 2), f(2 * e), '1.5'):
                lines += ['equal a c%d %s' % (j, t), 'equal c%d a %s' % (j, t)]
        out.append(('en%d' % k, lines))
    return out


def c27(ctx):
    cfg = lambda steps, dim, ln, h, q, inv: fw.cfg_text('GNSpec', {'NSteps': steps, 'NDim': dim, 'NMaxLen': ln, 'NHandlesMax': h, 'NMaxPoints': q}, inv)
    laws = ['AllFit', 'Ordered', 'Parts']
    hist = ctx.all_behaviours('NetGen', cfg(N(ctx, 3, 4), 2, 2, 2, 4, laws))
    total = len(hist)
    hist.sort(key=str)
    if len(hist) > N(ctx, 300, 6000):
        ctx.rng.shuffle(hist)
        hist = hist[:N(ctx, 300, 6000)]
    ctx.notes.append('%d of all %d histories of %d steps in two directions' % (len(hist), total, N(ctx, 3, 4)))
    sc = net_scripts('x', hist, ctx.seed)
    for dim, ln, n in ((1, 5, 30), (2, 4, 60), (3, 3, 60), (4, 2, 40)):
        sim = ctx.behaviours('NetGen', cfg(10, dim, ln, 3, 24, []), N(ctx, n, n * 20), 12, ctx.seed * 43 + dim)
        sc += net_scripts('s%d-' % dim, sim, ctx.seed)
    sc += bad_nets(ctx, N(ctx, 80, 1500))
    sc += large_nets(ctx, N(ctx, 24, 400))
    sc += equal_nets(ctx, N(ctx, 80, 1500))
    ctx.check_scenarios('net', 'NetTrace', BTRACE, sc)


CHECKS = {'C26': c26, 'C27': c27}
