"""Checks of the building blocks: knot vectors (C12), multi-indices (C13)."""
import math
import random
import fw

KTRACE = 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\nCONSTANT Tol = "1/1000000000000"\n'
ITRACE = 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n'


def f(x):
    return repr(float(x))


def N(ctx, quick, thorough):
    return thorough if ctx.thorough else quick


# ------------------------------------------------------------------ C12
def knot_scripts(prefix, hist, seed, top):
    """lattice positions become numbers; queries are asked of every handle after every operation"""
    out = []
    for k, h in enumerate(hist):
        r = random.Random('%s/%s/%d' % (seed, prefix, k))
        style = r.choice(['unit', 'shift', 'odd', 'tiny', 'close', 'pico'])
        if style == 'unit':
            pos = [i / top for i in range(top + 1)]
        elif style == 'shift':
            a, w = r.choice([(-3, 6), (10, 5), (-1e3, 1)])
            pos = [a + w * i / top for i in range(top + 1)]
        elif style == 'tiny':
            pos = [1e-6 * i for i in range(top + 1)]
        elif style == 'close':
            pos = [0.5 + 1e-9 * i for i in range(top + 1)]
        elif style == 'pico':
            w = r.choice([3e-13, 1e-12, 5e-14])
            pos = [0.25 + w * i for i in range(top + 1)]
        else:
            pos = sorted(r.uniform(-2, 7) for _ in range(top + 1))
        lines, live = [], []
        for e in h:
            op = e['op']
            if op == 'new':
                lines.append('new %s %d %s' % (e['h'], len(e['k']), ' '.join(f(pos[i]) for i in e['k'])))
                live.append(e['h'])
            elif op in ('insert', 'remove'):
                lines.append('%s %s %s' % (op, e['h'], f(pos[e['u']])))
            elif op == 'set':
                lines.append('set %s %d %s' % (e['h'], e['i'], f(pos[e['u']])))
            else:
                lines.append('%s %s %s' % (op, e['h'], e['g']))
                if 'move' in op:
                    live.remove(e['h'])
                live.append(e['g'])
            x = r.choice(live)
            lines.append('query ' + x)
            for _ in range(2):
                i = r.randrange(top)
                u = r.choice([pos[i], pos[i + 1], pos[0], pos[top], pos[i] + (pos[i + 1] - pos[i]) * r.random(),
                              math.nextafter(pos[i], math.inf), math.nextafter(pos[i + 1], -math.inf), pos[0] - 1e-3, pos[top] + 1e-3,
                              math.nextafter(pos[0], -math.inf)])
                lines.append('at %s %s' % (x, f(u)))
            y = r.choice(live)
            lines.append('eq %s %s' % (x, y))
            if r.random() < .3:
                lines.append('near %s %s %s' % (x, y, f(r.choice([1e-9, 1e-3, .3, 2]))))
        out.append(('%s%d' % (prefix, k), lines))
    return out


def knot_random(ctx, n):
    out = []
    for k in range(n):
        r = random.Random('%s/kv/%d' % (ctx.seed, k))
        lines = []
        p = r.randint(1, 6)
        m = r.randint(p + 1, p + r.choice([7, 7, 7, 24]))
        c = [r.uniform(-1, 3)]
        for _ in range(m - 1):
            c.append(c[-1] + r.choice([.25, 1e-3, r.random(), 0 if r.random() < .2 else .5]))
        lines.append('avg a %d %d %d %s' % (p, m, m, ' '.join(map(f, c))))
        lines.append('query a')
        us = c + [c[0], c[-1]]
        for _ in range(4):
            lines.append('at a %s' % f(r.choice(us)))
        lines.append('copy a b')
        kn = sorted(set(c))
        for _ in range(6):
            u = r.choice(kn[:-1] + [r.uniform(c[0], c[-1])])
            if not c[0] <= u <= c[-1]:
                continue
            lines.append('insert b %s' % f(u))
            lines.append('at b %s' % f(u))
            if r.random() < .6:
                lines.append('remove b %s' % f(u))
                lines.append('eq a b')
            else:
                lines.append('insert a %s' % f(u))
        lines.append('eq a b')
        lines.append('diff b b z')
        d = r.choice([1e-16, 4e-15, 1e-10, 1e-4])
        q = [x + r.uniform(-1, 1) * d for x in c]
        q[r.randrange(m)] += d
        q.sort()
        lines.append('new q %d %s' % (m, ' '.join(map(f, q))))
        lines.append('new w %d %s' % (m, ' '.join(map(f, sorted(c)))))
        lines += ['eq q w', 'eq w q', 'diff q w x', 'diff w q y']
        for t in (1e-9, 1e-3, d / 2, d * 3):
            lines.append('near q w %s' % f(t))
        i = r.randrange(m)
        j = r.randint(i + 1, m)
        lines += ['range w s %d %d' % (i, j), 'query s', 'eq s w', 'eq w s', 'near s w 0.5', 'near w s 0.5']
        out.append(('kr%d' % k, lines))
    return out


def c12(ctx):
    top = 3
    cfg = lambda steps, top, h, start, inv: fw.cfg_text('GKSpec', {'KSteps': steps, 'KTop': top, 'KHandlesMax': h, 'KStart': start}, inv)
    laws = ['Sorted', 'SpansRight', 'MultsAddUp']
    hist = ctx.all_behaviours('KnotGen', cfg(N(ctx, 3, 4), 2, 2, 'small', laws))
    total = len(hist)
    hist.sort(key=str)
    if len(hist) > N(ctx, 700, 12000):
        ctx.rng.shuffle(hist)
        hist = hist[:N(ctx, 700, 12000)]
    ctx.notes.append('%d of all %d histories of %d steps' % (len(hist), total, N(ctx, 3, 4)))
    sc = knot_scripts('x', hist, ctx.seed, 2)
    sim = ctx.behaviours('KnotGen', cfg(14, top, 3, 'big', laws), N(ctx, 150, 3000), 16, ctx.seed * 31 + 5)
    sc += knot_scripts('s', sim, ctx.seed, top)
    sc += knot_random(ctx, N(ctx, 150, 2500))
    ctx.check_scenarios('kv', 'KnotTrace', KTRACE, sc)


# ------------------------------------------------------------------ C13
def index_scripts(prefix, hist, seed):
    out = []
    for k, h in enumerate(hist):
        r = random.Random('%s/%s/%d' % (seed, prefix, k))
        lines = []
        n = None
        for e in h:
            op = e['op']
            if op == 'new':
                n = e['len']
                lines.append('new %s %d %s' % (e['h'], len(n), ' '.join(map(str, n))))
            elif op in ('plus', 'minus', 'set1'):
                lines.append('%s %s %d' % (op, e['h'], e['n']))
            elif op == 'set':
                lines.append('set %s %s' % (e['h'], ' '.join(map(str, e['to']))))
            elif op == 'copy':
                lines.append('copy %s %s' % (e['h'], e['g']))
            else:
                lines.append('%s %s' % (op, e['h']))
            if r.random() < .4:
                c = [r.randrange(x) for x in n]
                lines.append('one a %s' % ' '.join(map(str, c)))
                m = [r.randint(1, 6) for _ in n]
                c = [r.randrange(x) for x in m]
                lines.append('onein a %s %s' % (' '.join(map(str, m)), ' '.join(map(str, c))))
        out.append(('%s%d' % (prefix, k), lines))
    return out


def index_sweep(ctx, n):
    """the whole round of boxes, in both directions, and every one-dimensional index"""
    out = []
    for k in range(n):
        r = random.Random('%s/mi/%d' % (ctx.seed, k))
        d = r.randint(1, 4)
        ln = [r.choice([1, 2, 3, 4, 7][:5 if d < 3 else 4]) for _ in range(d)]
        tot = math.prod(ln)
        lines = ['new a %d %s' % (d, ' '.join(map(str, ln)))]
        lines += [r.choice(['inc a', 'post a']) for _ in range(min(tot + 2, 60))]
        lines += ['dec a'] * min(tot + 3, 60)
        for _ in range(6):
            lines.append('set1 a %d' % r.randrange(tot))
            lines.append('plus a %d' % r.randrange(2 * tot))
            lines.append('minus a %d' % r.randrange(2 * tot))
            lines.append('set a %s' % ' '.join(str(r.randrange(x)) for x in ln))
        out.append(('m%d' % k, lines))
    for k, ln in enumerate([[40000], [300], [70000, 2], [3, 35000], [200, 300], [40, 40, 40], [16, 17, 15, 18]]):      # large boxes
        r = random.Random('%s/mb/%d' % (ctx.seed, k))
        tot = math.prod(ln)
        lines = ['new a %d %s' % (len(ln), ' '.join(map(str, ln)))]
        for _ in range(8):
            c = [r.choice([x - 1, 0, r.randrange(x), r.randrange(x // 2, x)]) for x in ln]
            lines.append('set a %s' % ' '.join(map(str, c)))
            lines += r.choice([['inc a'], ['dec a'], ['plus a 3'], ['minus a 2'], []])
            lines.append('one a %s' % ' '.join(map(str, [r.choice([x - 1, r.randrange(x)]) for x in ln])))
            lines.append('onein a %s %s' % (' '.join(map(str, ln)), ' '.join(map(str, [r.choice([x - 1, r.randrange(x)]) for x in ln]))))
            lines.append('set1 a %d' % r.choice([tot - 1, r.randrange(tot), r.randrange(tot // 2, tot)]))
        lines += ['plus a %d' % r.randrange(tot), 'minus a %d' % r.randrange(tot)]
        out.append(('mb%d' % k, lines))
    return out


def c13(ctx):
    laws = ['InsideBox', 'Bijective', 'ComplementLaw', 'ExtractLaw']
    cfg = lambda steps, ln, dims: fw.cfg_text('GISpec', {'ISteps': steps, 'IMaxLen': ln, 'IDims': dims}, laws)
    hist = ctx.all_behaviours('IndexGen', cfg(3, 2, {1, 2, 3}))
    total = len(hist)
    hist.sort(key=str)
    if len(hist) > N(ctx, 900, 15000):
        ctx.rng.shuffle(hist)
        hist = hist[:N(ctx, 900, 15000)]
    ctx.notes.append('%d of all %d histories of 3 steps' % (len(hist), total))
    sc = index_scripts('x', hist, ctx.seed)
    sim = ctx.behaviours('IndexGen', cfg(12, 4, {1, 2, 3, 4}), N(ctx, 150, 1500), 14, ctx.seed * 37 + 11, timeout=900)
    sc += index_scripts('s', sim, ctx.seed)
    sc += index_sweep(ctx, N(ctx, 120, 1500))
    ctx.check_scenarios('mi', 'IndexTrace', ITRACE, sc)


# ------------------------------------------------------------------ C20
UTRACE = 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\nCONSTANT Tol = "1/1000000000000"\n'


def hx(s):
    return s.encode('latin-1').hex() or '-'


def packed(prefix, lines, size=40):
    return [('%s%d' % (prefix, k), lines[i:i + size]) for k, i in enumerate(range(0, len(lines), size))]


def texts(ctx, alphabet, n, laws):
    cfg = 'SPECIFICATION UGSpec\nCHECK_DEADLOCK FALSE\nCONSTANT MaxLen = %d\nCONSTANT Alphabet = {%s}\n' % (n, ', '.join('"%s"' % a for a in alphabet))
    return [''.join(t) for t in ctx.all_behaviours('UtilGen', cfg + ''.join('INVARIANT %s\n' % i for i in laws))]


def limited(ctx, q, n):
    if len(q) > n:
        q.sort()
        ctx.rng.shuffle(q)
        q = q[:n]
    return q


def random_number(r):
    if r.random() < .15:
        return r.choice(['1e5', '-0', '0.0', '1E-3', '+7', '.5', '5.', '-.25e+2', '1e22', '123456789012345678901234567890', '1e-300', '1.7976931348623157e308',
                         '2.2250738585072014e-308', '0.1', '00012.50', '1e+05', '9007199254740993'])
    s = r.choice(['', '', '-', '+']) + r.choice([str(r.randint(0, 10 ** r.randint(1, 17))), repr(r.uniform(0, 10 ** r.randint(-3, 8))), '%.6f' % r.uniform(0, 100), '%.3e' % r.uniform(0, 1e6)])
    return s


def bad_number(r):
    return r.choice(['', 'abc', '1,5', '1.2.3', '--1', '1e', '1e+', '.', '-', '+', 'e5', '1x', '0x10', '1..2', '+-1', '1 2', 'nan', 'inf', '12a', '1e5.5', 'D', '1.0D+00'])


def c20(ctx):
    lines = []
    T = limited(ctx, texts(ctx, ['a', ',', ' ', '\\n', '[', ']', ';'], N(ctx, 4, 5), ['TextLaws']), N(ctx, 2200, 20000))
    for t in T:
        lines.append('split %s %s' % (hx(t), hx(ctx.rng.choice(', a;'))))
        lines.append('trim ' + hx(t))
        k = ctx.rng.randint(0, 3)
        lines.append('affix %s %s' % (hx(t), hx(ctx.rng.choice([t[:k], t[len(t) - k:], ctx.rng.choice(T), t + 'a', 'a' + t]))))
    Nn = limited(ctx, texts(ctx, ['1', '0', '.', '-', '+', 'e', 'x', '5'], N(ctx, 4, 5), ['NumberLaws']), N(ctx, 2500, 25000))
    for t in Nn:
        lines.append('number ' + hx(t))
    r = random.Random('%s/util' % ctx.seed)
    for _ in range(N(ctx, 500, 8000)):
        lines.append('number ' + hx(r.choice(['', ' ', '\t', '  ']) + (random_number(r) if r.random() < .8 else bad_number(r))))
        parts = [(r.choice(['', ' ', '  ', '[', '\n']) + random_number(r) + r.choice(['', '', ' ', ']', ' ] '])) if r.random() < .97 else bad_number(r) for _ in range(r.randint(0, 6))]
        lines.append('list ' + hx(''.join(p + r.choice(',;') for p in parts) + r.choice(['', '', '7.5', ' ', ',', ';;'])))
        q = [random_number(r) if r.random() < .96 else bad_number(r) for _ in range(r.randint(0, 5))]
        lines.append('numbers %d %s' % (len(q), ' '.join(map(hx, q))))
        q = [x for x in q if len(x) < 9 and 'e' not in x.lower()]
        lines.append('integers %d %s' % (len(q), ' '.join(map(hx, q))))
        w = ' '.join(''.join(r.choice('ab,;[] \t\n.') for _ in range(r.randint(0, 9))) for _ in range(r.randint(0, 6)))
        lines.append('split %s %s' % (hx(w), hx(r.choice(', ;ab.'))))
        lines.append('trim ' + hx(w))
        n = r.choice([0, 1, 2, 3, 4, 5, 6, r.randint(7, 30)])
        a, b = [[r.choice([0, 1, -1, r.uniform(-9, 9), r.randint(-99, 99)]) for _ in range(n)] for _ in 'ab']
        vec = lambda x: '%d %s' % (len(x), ' '.join(map(f, x)))
        lines.append('vec1 %s %s' % (vec(a), f(r.choice([0, 1, -1, 2.5, r.uniform(-5, 5)]))))
        lines.append('vec2 %s %s' % (vec(a), vec(b)))
        if n != 3:
            a3, b3 = [[r.uniform(-9, 9) if r.random() < .8 else 0 for _ in range(3)] for _ in 'ab']
            lines.append('vec2 %s %s' % (vec(a3), vec(b3)))
        ia, ib = [[r.randint(-9, 9) for _ in range(n)] for _ in 'ab']
        lines.append('ivec %d %s %d %s %d' % (n, ' '.join(map(str, ia)), n, ' '.join(map(str, ib)), r.randint(-4, 4)))
        pos = [r.choice([r.randint(0, n if r.random() < .1 else max(0, n - 1)), max(0, n - 1)]) for _ in range(r.randint(0, 5))]
        lines.append('filter %s %d %s' % (vec(a), len(pos), ' '.join(map(str, pos))))
        x = r.uniform(-5, 5)
        d = r.choice([0, 1e-16, 1e-15, 3e-15, 1e-9, 1e-3, 1])
        lines.append('areequal %s %s %s' % (f(x), f(x + r.choice([-1, 1]) * d), f(r.choice([1e-14, 1e-8, 1e-2, 2]))))
        y = r.choice([x, x, math.nextafter(x, 9), -x, r.uniform(-5, 5), 0])
        lines.append('named %s %s' % (f(x), f(y)))
    for _ in range(N(ctx, 40, 400)):
        a = r.choice([0, -1, 3, r.uniform(-9, 9)])
        lines.append('uniform %s %s 30' % (f(a), f(a + r.choice([1, .5, 20, 1e-3]))))
        d = r.choice([1, .5, .25, .1, .01])
        lines.append('binomial %s %s %s 30' % (f(a), f(a + d * r.randint(0, 60)), f(d)))
    sc = packed('t', lines)
    for k in range(N(ctx, 120, 2500)):
        r = random.Random('%s/pts/%d' % (ctx.seed, k))
        dim = r.choice([1, 2, 3, 3, 3, 4, 5])
        c = lambda: '%d %s' % (dim, ' '.join(f(r.choice([0, r.randint(-5, 5), r.uniform(-100, 100)])) for _ in range(dim)))
        L = ['point a ' + c(), 'point b ' + c(), 'origin c %d' % dim]
        for _ in range(14):
            x, y, g = r.choice('abc'), r.choice('abc'), r.choice('abcabcdef'[:6])
            op = r.choice(['add', 'sub', 'times', 'set', 'copy', 'length', 'transform' if dim == 3 else 'add'])
            if op in ('add', 'sub'):
                L.append('%s %s %s %s' % (op, g, x, y))
            elif op == 'times':
                L.append('times %s %s %s' % (g, x, f(r.choice([0, -1, .5, 2, r.uniform(-3, 3)]))))
            elif op == 'set':
                L.append('set %s %d %s' % (x, r.randrange(dim), f(r.uniform(-9, 9))))
            elif op == 'copy':
                L.append('copy %s %s' % (x, g))
            elif op == 'length':
                L.append('length ' + x)
            else:
                m = [r.uniform(-2, 2) for _ in range(12)] + [0, 0, 0, 1]
                L.append('transform %s %s 16 %s 3 %s' % (g, x, ' '.join(map(f, m)), ' '.join(f(r.choice([1, 2, -1, r.uniform(.1, 3)])) for _ in 'xyz')))
        sc.append(('p%d' % k, L))
    ctx.check_scenarios('util', 'UtilTrace', UTRACE, sc)


CHECKS = {'C12': c12, 'C13': c13, 'C20': c20}
