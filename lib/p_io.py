"""Checks of files and converters: C14 XML, C15 IGES, C16 IRIT, C17 VTK, C18 IOConverter, C19 converter programs and logs."""
import math
import os
import random
import re
import fw
import iofmt

IOTRACE = ('SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\nCONSTANT DimOf <- CDimOf\nCONSTANT Represents <- CRepresents\n'
           'CONSTANT ReadOf <- CReadOf\nCONSTANT ShowsAll <- CShowsAll\nCONSTANT SameSpline <- CSameSpline\n')


def env():
    for x in fw.CONVERTERS:
        d = os.path.dirname(fw.build_driver(x))
    return {'VERIF_EXE': d}


fw.PREPARE['io'] = iofmt.prepare
fw.ENV['io'] = env


def N(ctx, quick, thorough):
    return thorough if ctx.thorough else quick


def gen_cfg(steps, ops, maxlen=2, dims=(1, 2, 3, 4), kinds=('b', 'n'), fin=('xml',), fout=('xml',), pos='none'):
    consts = {'GSteps': steps, 'GOps': set(ops), 'GMaxLen': maxlen, 'GDims': set(dims), 'GKinds': set(kinds), 'GIn': set(fin), 'GOut': set(fout), 'GPos': pos}
    return fw.cfg_text('GSpec', consts, ['FormatsKept', 'SelectionLaws', 'ReportsTrue'], (),
                       ['CONSTANT %s <- G%s' % (x, x) for x in ('DimOf', 'Represents', 'ReadOf', 'ShowsAll', 'SameSpline')])


def f(x):
    return repr(float(x))


class Maker:
    """splines and foreign entries"""

    def __init__(self, r, pdims, light=False, big=.12):
        self.r, self.pdims, self.light, self.big = r, pdims, light, big
        self.style = r.choice(['nice', 'nice', 'float', 'float', 'float', 'wide', 'wide', 'large', 'negative'])

    def number(self):
        r = self.r
        if self.style == 'nice':
            return r.randint(-40, 40) / 4
        if self.style == 'wide' and r.random() < .4:
            return r.choice([0.0, 1e-7, -3e-7, 12345.678901234567, -99999.5, 1e6 / 3, 5e-7, .9999999, 1 / 3, -0.0])
        if self.style == 'large':
            return r.choice([-1, 1]) * r.uniform(1, 10) * 10 ** r.randint(0, 9)
        if self.style == 'negative':
            return -r.uniform(.001, 1000)
        return r.uniform(-10, 10)

    def shape(self, dim):
        r = self.r
        if not self.light and r.random() < self.big:        # many points or high degrees
            deg = [r.randint(1, {1: 13, 2: 5, 3: 2, 4: 1}[dim]) for _ in range(dim)]
            knots = []
            for p in deg:
                m = r.randint(0, {1: 50, 2: 9, 3: 3, 4: 2}[dim])
                a, b = r.choice([(0, 1), (-3, 5), (0, 1000), (100, 101)])
                knots.append([float(a)] * (p + 1) + [a + (b - a) * (i + 1) / (m + 1) for i in range(m)] + [float(b)] * (p + 1))
            return deg, knots, [len(k) - p - 1 for k, p in zip(knots, deg)]
        top = {1: 4, 2: 3, 3: 2, 4: 1}[dim]
        if self.light:
            top = {1: 3, 2: 2, 3: 1, 4: 1}[dim]
        deg = [r.randint(1, top) for _ in range(dim)]
        knots = []
        for d, p in enumerate(deg):
            a = r.choice([0, 0, -1, .5, r.uniform(-5, 5)])
            v = [a]
            for _ in range(r.randint(1, 3 if dim < 3 else 2)):
                v.append(v[-1] + r.choice([.25, 1, 1 / 3, r.uniform(.2, 2)]))
            k = [v[0]] * (p + 1)
            for x in v[1:-1]:
                k += [x] * r.choice([1, 1, p, r.randint(1, p)])
            knots.append(k + [v[-1]] * (p + 1))
        return deg, knots, [len(k) - p - 1 for k, p in zip(knots, deg)]

    def add(self, L, dim, kind):
        r = self.r
        deg, knots, n = self.shape(dim)
        pd = r.choice(self.pdims)
        tot = math.prod(n)
        s = ['add', L, kind, str(dim)] + [str(d) for d in deg]
        for k in knots:
            s += [str(len(k))] + [f(x) for x in k]
        s.append(str(tot))
        for _ in range(tot):
            s += [str(pd)] + [f(self.number()) for _ in range(pd)]
        if kind == 'n':
            s += [str(tot)] + [f(x) for x in self.weights(tot)]
        return ' '.join(s)

    def weights(self, tot):
        r = self.r
        how = r.random()
        if how < .12:            # rational in name only
            return [1.0] * tot
        if how < .2:
            return [r.choice([2, .5])] * tot
        if how < .3:             # one weight differs
            w = [1.0] * tot
            w[r.randrange(tot)] = r.choice([.5, 1.000001, 2])
            return w
        return [r.choice([.5, 1, 2, 1.25, r.uniform(.3, 3)]) for _ in range(tot)]

    def text(self, x):
        r = self.r
        t = r.choice(['%.6f', '%r', '%.3e', '%g', '%.12f', '%.17g'])
        s = repr(float(x)) if t == '%r' else t % x
        if r.random() < .1 and s.startswith('0.'):
            s = s[1:]
        return s

    def entry(self, fmt, dim, kind):
        r = self.r
        deg, knots, n = self.shape(dim)
        pd = 3 if fmt == 'iges' else r.choice(self.pdims)
        tot = math.prod(n)
        kt = []
        for k in knots:              # the same text for the same knot
            seen = {}
            kt.append([seen.setdefault(x, self.text(x)) for x in k])
        # the texts must be in order as numbers
        kt = [k if all(float(a) <= float(b) for a, b in zip(k, k[1:])) and len(set(map(float, k))) == len(set(kn)) else [repr(float(x)) for x in kn]
              for k, kn in zip(kt, knots)]
        w = [self.text(x) for x in self.weights(tot)] if kind == 'n' else []
        pts = [[self.text(self.number()) for _ in range(pd)] for _ in range(tot)]
        if fmt == 'irit' and kind == 'n':
            pts = [[a] + p for a, p in zip(w, pts)]
        return dict(kind=kind, dim=dim, deg=deg, knots=kt, pts=pts, w=w, n=n)


def scat_args(scat):
    return ' '.join([str(len(scat))] + [' '.join([str(len(x))] + [str(v) for v in x]) for x in scat])


# how the file names of a scenario start (~ stands for a blank)
NAMES = ['f'] * 6 + ['f~', 'my~file~', 'a.xml.', 'log.itd', './f', 'x.vtk~', 'A-very_long+name@for#a%file' + 'e' * 60]


def scripts(prefix, hist, seed, pdims, light=False):
    out = []
    for k, h in enumerate(hist):
        r = random.Random('%s/%s/%d' % (seed, prefix, k))
        m = Maker(r, pdims, light)
        lines = []
        name = r.choice(NAMES)
        for e in h:
            op = e['op']
            e = dict(e, **{x: e[x].replace('f', name, 1) for x in ('p', 'in', 'out') if e.get(x, '').startswith('f')})
            if op == 'add':
                lines.append(m.add(e['L'], e['dim'], e['kind']))
            elif op == 'empty':
                lines.append('empty ' + e['L'])
            elif op == 'append':
                lines.append('append %s %s %d' % (e['L'], e['M'], e['i']))
            elif op == 'write':
                lines.append('write %s %s %s%s' % (e['fmt'], e['L'], e['p'], ' ' + scat_args(e['scat']) if e['fmt'] == 'vtk' else ''))
            elif op == 'read':
                lines.append('read %s %s %s' % (e['fmt'], e['p'], e['L']))
            elif op == 'place':
                text = iofmt.RENDER[e['fmt']]([m.entry(e['fmt'], x['dim'], x['kind']) for x in e['ents']], r)
                if iofmt.parse(e['p'], text)['fmt'] != e['fmt']:
                    raise fw.CheckError('rendered an invalid file: %s' % iofmt.parse(e['p'], text))
                lines.append('file %s %s' % (e['p'], text.encode().hex()))
            elif op == 'log':
                lines.append('file %s %s' % (e['p'], iofmt.render_log(e, r).encode().hex()))
            elif op == 'possible':
                lines.append('possible %s %d' % (e['L'], e['max']))
            elif op == 'types':
                lines.append('types ' + e['L'])
            elif op == 'conv':
                # nothing ends in .txt but a name that no writer knows: as well any other such name
                dst = re.sub(r'\.txt$', lambda _: r.choice(['.txt', '.ges', '.xm', 'xml', '.xml.txt', '.XML', 'igs', '.iges2', '.itd~', '.td', 'vtk']), e['out'])
                lines.append('conv %s %s %s' % (e['c'], e['in'], dst))
            elif op == 'run':
                lines.append('run %s %s %s' % (e['c'], ' '.join([str(len(e['pos']))] + [str(p) for p in e['pos']]), scat_args(e['scat'])))
            elif op == 'openlog':
                lines.append('openlog %s %s' % (e['g'], e['p']))
            elif op == 'positions':
                lines.append('positions %s %s' % (e['g'], ' '.join([str(len(e['possible']))] + [str(p) for p in e['possible']])))
            elif op in ('scattering', 'writelog'):
                lines.append('%s %s' % (op, e['g']))
            elif op == 'exec':
                lines.append('exec %s %s %s' % (e['exe'], e['p'], e['out']))
            else:
                raise fw.CheckError('unknown operation ' + op)
        out.append(('%s%d' % (prefix, k), lines))
    return out


WIDE = {'iges': (126, 90)}


def long_lists(ctx, n, fmt, dims, pdims):
    """more than ten splines in one file"""
    out = []
    for k in range(n):
        r = random.Random('%s/long%s/%d' % (ctx.seed, fmt, k))
        m = Maker(r, pdims, True)
        L = []
        for _ in range(r.randint(9, 14)):
            L.append(m.add('L1', r.choice([d for d in dims if d <= {'iges': 2, 'irit': 3}.get(fmt, 4)]), r.choice('bn')))
        p = 'f1' + {'irit': '.itd'}.get(fmt, '.' + fmt)
        L += ['write %s L1 %s' % (fmt, p), 'read %s %s L2' % (fmt, p), 'write %s L2 %s' % (fmt, p), 'read %s %s L1' % (fmt, p)]
        out.append(('ll%d' % k, L))
    for k in range(max(1, n // 12)):          # hundreds of splines, straight lines
        r = random.Random('%s/huge%s/%d' % (ctx.seed, fmt, k))
        p = 'f1' + {'irit': '.itd'}.get(fmt, '.' + fmt)
        L = []
        for i in range(r.randint(257, 300)):
            kind = r.choice('bn')
            L.append('add L1 %s 1 1 4 0 0 1 1 2 3 %d 0 0 3 0 %d 1%s' % (kind, i, i, ' 2 1 %s' % r.choice(['1', '2', '0.5']) if kind == 'n' else ''))
        L += ['write %s L1 %s' % (fmt, p), 'read %s %s L2' % (fmt, p)]
        out.append(('hl%d' % k, L))
    if fmt in WIDE:                           # numbers of lines of the file with more digits
        r = random.Random('%s/wide%s' % (ctx.seed, fmt))
        n, m = WIDE[fmt]
        U = lambda k: '%d 0 %s %d' % (k + 2, ' '.join(str(i) for i in range(k)), k - 1)
        L = ['add L1 b 2 1 1 %s %s %d %s' % (U(n), U(m), n * m, ' '.join('3 %s %s %s' % (f(i + r.random()), f(j + r.random()), f(r.uniform(-9, 9))) for j in range(m) for i in range(n))),
             'add L1 b 1 1 4 0 0 1 1 2 3 1 0 0 3 0 1 1', 'write %s L1 f1.%s' % (fmt, fmt), 'read %s f1.%s L2' % (fmt, fmt)]
        out.append(('wide', L))
    return out


def judge(ctx, sc):
    ctx.check_scenarios('io', 'IOTrace', IOTRACE, sc)


def sim(ctx, prefix, n, steps, ops, pdims, light=False, **kw):
    hist = ctx.behaviours('IOGen', gen_cfg(steps, ops, **kw), n, steps + 2, ctx.seed * 6007 + sum(map(ord, prefix)))
    return scripts(prefix, hist, ctx.seed, pdims, light)


def exhaust(ctx, prefix, limit, steps, ops, pdims, light=True, **kw):
    hist = ctx.all_behaviours('IOGen', gen_cfg(steps, ops, **kw), workers=fw.CORES)
    total = len(hist)
    hist.sort(key=str)
    if total > limit:
        ctx.rng.shuffle(hist)
        hist = hist[:limit]
    ctx.notes.append('%s: %d of all %d histories of %d steps' % (prefix, len(hist), total, steps))
    return scripts(prefix, hist, ctx.seed, pdims, light)


FILEOPS = ['add', 'empty', 'append', 'write', 'rewrite', 'read', 'place', 'missing']


def round_trip(ctx, fmt, dims, pdims):
    sc = sim(ctx, 'a', N(ctx, 60, 900), 9, FILEOPS, pdims, dims=dims, fin=(fmt,), fout=(fmt,), maxlen=3)
    sc += sim(ctx, 'b', N(ctx, 60, 900), 5, ['place', 'read', 'rewrite'], pdims, dims=dims, fin=(fmt,), fout=(fmt,), maxlen=2)
    sc += exhaust(ctx, 'x', N(ctx, 120, 2500), 4, ['add', 'write', 'read'], pdims, dims=dims, fin=(fmt,), fout=(fmt,), maxlen=2, light=False)
    sc += long_lists(ctx, N(ctx, 6, 80), fmt, dims, pdims)
    judge(ctx, sc)


def c14(ctx):
    round_trip(ctx, 'xml', (1, 2, 3, 4), [1, 2, 3, 3, 4])


def c15(ctx):
    round_trip(ctx, 'iges', (1, 2, 3), [1, 2, 3, 3])


def c16(ctx):
    round_trip(ctx, 'irit', (1, 2, 3, 4), [1, 2, 3, 3, 3, 4, 5, 6])


def c17(ctx):
    sc = sim(ctx, 'a', N(ctx, 120, 2000), 5, ['add', 'append', 'write'], [1, 2, 3, 3], fout=('vtk',), maxlen=3)
    sc += exhaust(ctx, 'x', N(ctx, 160, 2000), 3, ['add', 'write'], [1, 2, 3, 3], fout=('vtk',), maxlen=2, light=False)
    for k in range(N(ctx, 8, 60)):           # fine lattices
        r = random.Random('%s/fine/%d' % (ctx.seed, k))
        m = Maker(r, [1, 2, 3, 3], True)
        dims = [[1], [2], [3], [1, 2], [2, 1], [3, 1], [1, 1], [2, 3]][k % 8]
        L = [m.add('L1', d, r.choice('bn')) for d in dims]
        scat = [{1: [r.randint(21, 120)], 2: [r.randint(11, 25), r.randint(5, 12)], 3: [r.randint(1, 3), r.randint(3, 7), r.randint(5, 9)]}[d] for d in dims]
        for x in scat:
            r.shuffle(x)
        out = ['write vtk L1 f1.vtk ' + scat_args(scat)]
        sc.append(('fine%d' % k, L + out))
    judge(ctx, sc)


def c18(ctx):
    sc = exhaust(ctx, 'x', N(ctx, 250, 3000), 4, ['place', 'conv', 'run'], [3], dims=(1, 3), kinds=('b',), fin=('xml',), fout=('iges', 'vtk'), pos='small')
    for i, fin in enumerate(['xml', 'irit', 'iges']):
        sc += sim(ctx, 's%d' % i, N(ctx, 60, 800), 7, ['place', 'conv', 'run', 'read'], [1, 2, 3, 3], light=True, fin=(fin,),
                  fout=('xml', 'irit', 'iges', 'vtk'), maxlen=3, pos='big')
    sc += sim(ctx, 't', N(ctx, 60, 800), 8, ['add', 'write', 'conv', 'badconv', 'run', 'place', 'possible'], [3], light=True, fin=('xml', 'irit', 'iges'),
              fout=('xml', 'irit', 'iges', 'vtk', 'none'), maxlen=2, pos='small')
    sc += sim(ctx, 'many', N(ctx, 25, 400), 5, ['place', 'conv', 'run'], [1, 2, 3], light=True, fin=('xml', 'irit', 'iges'),
              fout=('xml', 'irit', 'iges', 'vtk'), maxlen=13, pos='many')
    for k in range(N(ctx, 3, 20)):           # more splines than fit into any small table
        r = random.Random('%s/c18many/%d' % (ctx.seed, k))
        n = r.choice([70, 130, 260])
        fin, fout = [('xml', 'irit'), ('iges', 'xml'), ('irit', 'vtk'), ('xml', 'vtk'), ('irit', 'iges')][(k + ctx.seed) % 5]
        path = lambda i, x: 'f%d.%s' % (i, {'irit': 'itd'}.get(x, x))
        L = []
        for i in range(n):
            kind = r.choice('bn')
            L.append('add L1 %s 1 1 4 0 0 1 1 2 3 %d 0 0 3 0 %d 1%s' % (kind, i, i, ' 2 1 2' if kind == 'n' else ''))
        L += ['possible L1 %d' % r.choice([1, 2, 3]), 'write %s L1 %s' % (fin, path(1, fin)), 'conv c1 %s %s' % (path(1, fin), path(2, fout))]
        sc1 = scat_args([[1]] * n) if fout == 'vtk' else '0'
        L.append('run c1 0 %s' % sc1)
        sel = sorted(r.sample(range(n), 3)) + [n - 1]
        L += ['conv c2 %s %s' % (path(1, fin), path(3, fout)), 'run c2 %d %s %s' % (len(sel), ' '.join(map(str, sel)), scat_args([[1]] * len(sel)) if fout == 'vtk' else '0')]
        if fout != 'vtk':
            L.append('read %s %s L2' % (fout, path(2, fout)))
        sc.append(('cm%d' % k, L))
    sc.append(('alien', ['alien']))
    # names that end nearly like those of a format: nothing is written there; and a run asked for again with another name
    for k, ext in enumerate(['.ges', '.xm', 'xml', '.xml.txt', '.XML', 'igs', '.iges2', '.itd~', '.td', 'vtk', 'iges', 'itd', '.vt', 'k', '.']):
        fin = ('xml', 'irit', 'iges')[k % 3]
        good = 'f1.' + {'irit': 'itd'}.get(fin, fin)
        sc.append(('bad%d' % k, ['add L1 b 1 1 4 0 0 1 1 2 3 0 0 0 3 1 2 1', 'write %s L1 %s' % (fin, good), 'conv c1 %s f2%s' % (good, ext), 'run c1 0 0',
                                 'conv c2 %s f3.xml' % good, 'run c2 1 0 0', 'read xml f3.xml L2']))
    judge(ctx, sc)


def c19(ctx):
    sc = []
    for i, fin in enumerate(['xml', 'irit', 'iges']):
        sc += sim(ctx, 'e%d' % i, N(ctx, 60, 700), 6, ['place', 'placelog', 'exec'], [1, 2, 3, 3], light=True, fin=(fin,), fout=('xml', 'irit', 'iges', 'vtk'),
                  maxlen=3, pos='small')
    sc += sim(ctx, 'l', N(ctx, 100, 1500), 9, ['place', 'placelog', 'openlog'], [3], light=True, fin=('xml',), fout=('iges', 'vtk'), maxlen=1, pos='big')
    sc += sim(ctx, 'm', N(ctx, 60, 700), 9, ['place', 'placelog', 'openlog', 'exec'], [3], light=True, fin=('xml', 'irit'), fout=('iges', 'vtk', 'xml'), maxlen=2, pos='small')
    sc += sim(ctx, 'many', N(ctx, 25, 300), 5, ['place', 'placelog', 'exec'], [1, 2, 3], light=True, fin=('xml', 'irit', 'iges'),
              fout=('xml', 'irit', 'iges', 'vtk'), maxlen=13, pos='many')
    # programs that are called in other ways, with a log file or an input file that is not there
    r = random.Random('%s/c19call' % ctx.seed)
    for k, (i, o) in enumerate((i, o) for i in ('xml', 'irit', 'iges') for o in ('xml', 'irit', 'iges', 'vtk') if i != o):
        exe = '%s_to_%s' % (i, o)
        ext = lambda f: {'irit': 'itd'}.get(f, f)
        e = dict(all=True, pos=[], scat=[[2]] if o == 'vtk' else [])
        e.update({'in': 'f1.' + ext(i), 'out': 'f2.' + ext(o)})
        log = 'file log1 %s' % iofmt.render_log(e, r).encode().hex()
        run = 'exec %s log1 %s' % (exe, e['out'])
        calls = ['call %s 1 -h' % exe, 'call %s 1 --help' % exe, 'call %s 0' % exe, 'call %s 1 nolog' % exe, 'call %s 2 log1 log1' % exe,
                 'call %s 3 log1 -h log1' % exe, 'call %s 2 log1 --help' % exe]
        r.shuffle(calls)
        sc.append(('call%d' % k, [log, 'add L1 %s 1 1 4 0 0 1 1 2 3 0 0 0 3 1 2 1%s' % (('n', ' 2 1 2') if k % 2 else ('b', ''))]
                   + ([run] if k % 3 else []) + ['write %s L1 %s' % (i, e['in'])] + calls[:4] + [run] + calls[4:] + [run, 'read %s %s L2' % (o, e['out'])] * (o != 'vtk')))
    judge(ctx, sc)


CHECKS = {'C14': c14, 'C15': c15, 'C16': c16, 'C17': c17, 'C18': c18, 'C19': c19}
