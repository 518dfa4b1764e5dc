"""The file formats, read and written independently of the code under test.
parse(fmt, text) gives the entries with the numbers as they stand in the text; render(fmt, entries, rng) writes a valid file."""
import math
import re
import xml.etree.ElementTree as ET

NUM = re.compile(r'^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$')


class Bad(Exception):
    pass


def num(t):
    if not NUM.match(t):
        raise Bad('not a number: ' + t)
    return t


def need(c, what):
    if not c:
        raise Bad(what)


# ------------------------------------------------------------------ XML
def parse_xml(text):
    root = ET.fromstring(text)
    need(root.tag == 'SplineList', 'root')
    ents = []
    for e in root:
        a = e.attrib
        dim, space, nv, npts = (int(a[k]) for k in ('splDim', 'spaceDim', 'numOfCntrlPntVars', 'numCntrlPnts'))
        names = e.find('cntrlPntVarNames').text.split()
        need(len(names) == nv, 'variable names')
        x0 = names.index('x')
        vals = [num(t) for t in e.find('cntrlPntVars').text.split()]
        need(len(vals) == nv * npts, 'number of values')
        pts = [vals[i * nv + x0:i * nv + x0 + space] for i in range(npts)]
        w = e.find('wght')
        deg = [int(t) for t in e.find('deg').text.split()]
        knots = [[num(t) for t in k.text.split()] for k in e.find('kntVecs')]
        need(len(deg) == dim and len(knots) == dim, 'directions')
        ents.append(dict(kind='b' if w is None else 'n', dim=dim, deg=deg, knots=knots, pts=pts,
                         w=[] if w is None else [num(t) for t in w.text.split()]))
    if 'NumberOfSplines' in root.attrib:
        need(int(root.attrib['NumberOfSplines']) == len(ents), 'number of splines')
    return ents


def render_xml(ents, r):
    num_ = lambda t: t
    nl = lambda: r.choice(['\n', '\n   ', ' ', '  ', '\n\n  '])
    o = []
    if r.random() < .5:
        o.append('<?xml version="1.0" encoding="utf-8"?>\n')
    o.append('<SplineList%s>\n' % (' NumberOfSplines="%d"' % len(ents) if r.random() < .6 else ''))
    for e in ents:
        space = len(e['pts'][0])
        extra_before = r.choice([0, 0, 1, 2])
        extra_after = r.choice([0, 0, 1])
        if extra_before + extra_after == 0 and space > 4:
            extra_after = 0
        names = (['a', 'b'] if r.random() < .5 else r.choice([['xi', 'b'], ['ax', 'x0'], ['Xx', 'xy']]))[:extra_before] + ['x', 'y', 'z', 't'][:space] + ['p'][:extra_after]
        nv = len(names)
        at = ['splDim="%d"' % e['dim'], 'spaceDim="%d"' % space, 'numOfCntrlPntVars="%d"' % nv, 'numCntrlPnts="%d"' % len(e['pts'])]
        r.shuffle(at)
        o.append('  <SplineEntry %s>\n' % ' '.join(at))
        if r.random() < .3:
            o.append('    <!-- a comment -->\n')
        vals = []
        for p in e['pts']:
            vals.append(' '.join([str(r.randint(0, 9)) for _ in range(extra_before)] + list(p) + ['7.5'] * extra_after))
        ch = ['    <cntrlPntVarNames>%s%s%s</cntrlPntVarNames>\n' % (nl(), ' '.join(names), nl()),
              '    <cntrlPntVars>%s%s%s</cntrlPntVars>\n' % (nl(), nl().join(vals), nl()),
              '    <deg>%s%s%s</deg>\n' % (nl(), nl().join(map(str, e['deg'])), nl()),
              '    <kntVecs>\n%s    </kntVecs>\n' % ''.join('      <kntVec>%s%s%s</kntVec>\n' % (nl(), nl().join(k), nl()) for k in e['knots'])]
        if e['kind'] == 'n':
            ch.append('    <wght>%s%s%s</wght>\n' % (nl(), nl().join(e['w']), nl()))
        r.shuffle(ch)
        o += ch
        o.append('  </SplineEntry>\n')
    o.append('</SplineList>\n')
    return ''.join(o)


# ------------------------------------------------------------------ IRIT
def parse_irit(text):
    """nested lists in brackets"""
    toks = re.findall(r'\[|\]|"[^"]*"|[^\s\[\]]+', text)
    pos = 0

    def node():
        nonlocal pos
        out = []
        while pos < len(toks):
            t = toks[pos]
            pos += 1
            if t == '[':
                out.append(node())
            elif t == ']':
                return out
            else:
                out.append(t)
        raise Bad('brackets')
    top = []
    while pos < len(toks):
        t = toks[pos]
        pos += 1
        if t == '[':
            top.append(node())
        else:
            need(t != ']', 'brackets')
    ents = []

    def walk(n):
        if len(n) > 1 and n[0] in ('CURVE', 'SURFACE', 'TRIVAR') and n[1] == 'BSPLINE':
            dim = {'CURVE': 1, 'SURFACE': 2, 'TRIVAR': 3}[n[0]]
            npt = [int(x) for x in n[2:2 + dim]]
            deg = [int(x) - 1 for x in n[2 + dim:2 + 2 * dim]]
            typ = n[2 + 2 * dim]
            need(re.match(r'^[EP]\d+$', typ), 'point type')
            rest = [x for x in n[3 + 2 * dim:] if isinstance(x, list)]
            knots = [[num(t) for t in k[1:]] for k in rest if k and k[0] == 'KV']
            pts = [[num(t) for t in k] for k in rest if not (k and k[0] == 'KV')]
            need(len(knots) == dim, 'knot vectors')
            size = int(typ[1:]) + (typ[0] == 'P')
            need(all(len(p) == size for p in pts), 'coordinates')
            need(len(pts) == math.prod(npt), 'points')
            ents.append(dict(kind='n' if typ[0] == 'P' else 'b', dim=dim, deg=deg, knots=knots, pts=pts, n=npt, w=[]))
        else:
            for x in n:
                if isinstance(x, list):
                    walk(x)
    for n in top:
        walk(n)
    return ents


def render_irit(ents, r):
    flat = r.random() < .3           # no indentation at all
    tab = r.random() < .2
    ind = lambda k: '' if flat else ('\t' * k if tab else '  ' * k)
    o = []
    if r.random() < .4:
        o.append('# a comment line\n')
    o.append('[OBJECT %sSPLINES\n' % ('[COLOR 4] ' if r.random() < .3 else ''))
    for i, e in enumerate(ents):
        if r.random() < .2:
            o.append(ind(1) + '[OBJECT OTHER\n' + ind(2) + '[CURVE BEZIER 2 E2\n' + ind(3) + '[0 0]\n' + ind(3) + '[1 2]\n' + ind(2) + ']\n' + ind(1) + ']\n')
        typ = {1: 'CURVE', 2: 'SURFACE', 3: 'TRIVAR'}[e['dim']]
        size = len(e['pts'][0]) - (e['kind'] == 'n')
        o.append(ind(1) + '[OBJECT SPLINE%d\n' % (i + 1))
        o.append(ind(2) + '[%s BSPLINE %s %s %s%d\n' % (typ, ' '.join(map(str, e['n'])), ' '.join(str(d + 1) for d in e['deg']),
                                                       'P' if e['kind'] == 'n' else 'E', size))
        for k in e['knots']:
            o.append(ind(3) + '[KV %s]\n' % ' '.join(k))
        for p in e['pts']:
            o.append(ind(3) + '[%s]\n' % ' '.join(p))
        o.append(ind(2) + ']\n' + ind(1) + ']\n')
    o.append(']\n')
    t = ''.join(o)
    return t.replace('\n', '\r\n') if r.random() < .12 else t


# ------------------------------------------------------------------ IGES
def iges_globals(t):
    """the parameters of the global section: strings in Hollerith form, numbers"""
    need(re.match(r'1H(.),1H(.),', t) and t[:8] == '1H,,1H;,', 'delimiters')
    out = [',', ';']
    i = 8
    while True:
        m = re.compile(r' *(\d+)H').match(t, i)
        if m:
            n = int(m.group(1))
            out.append(('s', t[m.end():m.end() + n]))
            i = m.end() + n
        else:
            m = re.compile(r'[^,;]*').match(t, i)
            out.append(('v', m.group().strip()))
            i = m.end()
        need(i < len(t) and t[i] in ',;', 'delimiter in the global section')
        i += 1
        if t[i - 1] == ';':
            need(not t[i:].strip(), 'end of the global section')
            return out


def check_globals(t):
    g = iges_globals(t)
    need(24 <= len(g) <= 27, 'number of global parameters')
    for i, x in enumerate(g[2:], 3):
        if i > 25:
            need(x == ('v', ''), 'global parameter %d' % i)
        elif i in (3, 4, 5, 6, 12, 15, 18, 21, 22, 25):
            need(x[0] == 's', 'global parameter %d is not a string' % i)
            if i in (18, 25):
                need(re.fullmatch(r'(\d\d)?\d{6}\.\d{6}', x[1]), 'date')
        elif i in (13, 17, 19, 20):
            need(x[0] == 'v' and num(x[1]) is not None, 'global parameter %d' % i)
        else:
            need(x[0] == 'v' and re.fullmatch(r'[+-]?\d+', x[1]), 'global parameter %d' % i)


def parse_iges(text):
    sec = {k: [] for k in 'SGDPT'}
    order = ''
    need(text.endswith('\n'), 'last line')
    for line in text.split('\n')[:-1]:
        need(len(line) == 80, 'line length')
        c = line[72]
        need(c in sec, 'section letter')
        need(int(line[73:80]) == len(sec[c]) + 1, 'sequence number')
        sec[c].append(line[:72])
        if not order.endswith(c):
            order += c
    need(order in ('SGDPT', 'SGT') and len(sec['T']) == 1, 'sections')
    t = sec['T'][0]
    for i, c in enumerate('SGDP'):
        need(t[8 * i] == c and int(t[8 * i + 1:8 * i + 8]) == len(sec[c]), 'terminate section')
    need(len(sec['D']) % 2 == 0, 'directory')
    check_globals(''.join(sec['G']))
    ents = []
    nextp = 1
    for k in range(0, len(sec['D']), 2):
        a = [sec['D'][k][8 * i:8 * i + 8].strip() for i in range(9)]
        b = [sec['D'][k + 1][8 * i:8 * i + 8].strip() for i in range(9)]
        need(a[0] == b[0], 'entity type')
        start, count = int(a[1]), int(b[3])
        need(1 <= start and start - 1 + count <= len(sec['P']), 'parameter pointer')
        body = ''
        for i in range(start - 1, start - 1 + count):
            need(int(sec['P'][i][64:72]) == k + 1, 'back pointer')
            body += sec['P'][i][:64]
        body = body.rstrip()
        need(body.endswith(';') and body.count(';') == 1, 'end of the parameters')
        v = [x.strip().replace('D', 'e') for x in body[:-1].split(',')]
        need(int(a[0]) == int(v[0]), 'entity type of the parameters')
        nextp += count
        if v[0] not in ('126', '128'):
            continue
        dim = 1 if v[0] == '126' else 2
        up = [int(x) for x in v[1:1 + dim]]
        deg = [int(x) for x in v[1 + dim:1 + 2 * dim]]
        prop = v[1 + 2 * dim:1 + 2 * dim + (4 if dim == 1 else 5)]
        i = 1 + 2 * dim + len(prop)
        knots = []
        for d in range(dim):
            m = up[d] + deg[d] + 2
            knots.append([num(x) for x in v[i:i + m]])
            need(len(knots[-1]) == m, 'knots')
            i += m
        npt = math.prod(u + 1 for u in up)
        w = [num(x) for x in v[i:i + npt]]
        i += npt
        need(len(v) >= i + 3 * npt, 'points')
        pts = [[num(x) for x in v[i + 3 * j:i + 3 * j + 3]] for j in range(npt)]
        ents.append(dict(kind='b' if prop[2] == '1' else 'n', dim=dim, deg=deg, knots=knots, pts=pts, w=w))
    return ents


def render_iges(ents, r):
    body = []           # (type, parameters)
    for e in ents:
        if r.random() < .25:
            body.append((110, ['0.', '0.', '0.', '1.', '2.', '3.']))
        dim = e['dim']
        n = [len(k) - d - 1 for k, d in zip(e['knots'], e['deg'])]
        poly = '1' if e['kind'] == 'b' else '0'
        prop = [r.choice('01'), r.choice('01'), poly, '0'] if dim == 1 else [r.choice('01'), r.choice('01'), poly, '0', '0']
        v = [str(x - 1) for x in n] + [str(d) for d in e['deg']] + prop
        for k in e['knots']:
            v += k
        v += e['w'] if e['kind'] == 'n' else ['1.0'] * len(e['pts'])
        for p in e['pts']:
            v += p
        if r.random() < .6:          # start and end parameters and the normal, as the standard wants them
            for k in e['knots']:
                v += [k[0], k[-1]]
            if dim == 1:
                v += ['0.', '0.', '1.']
        body.append((126 if dim == 1 else 128, v))
    if r.random() < .25:
        body.append((110, ['0.', '0.', '0.', '1.', '2.', '3.']))
    S = ['A file for the verification']
    g = ('1H,,1H;,7Hunknown,7Hunknown,9HSplineLib,11Hpre_release,31,128,24,1024,53,7Hunknown,1.,2,2HMM,1,.001,'
         '15H20180101.120000,.000001,10.,7Hunknown,7Hunknown,11,0,15H20180101.120000;')
    G = [g[i:i + 72] for i in range(0, len(g), 72)]
    D, P = [], []
    for t, v in body:
        lines = []
        cur = '%d,' % t
        sp = r.choice(['', '', ' '])
        if t != 110 and r.random() < .25:          # exponents of double precision numbers
            v = [x.replace('e', 'D').replace('E', 'D') for x in v]
        for i, x in enumerate(v):
            tok = sp + x + (';' if i == len(v) - 1 else ',')
            if len(cur) + len(tok) > 64:
                lines.append(cur)
                cur = ''
            cur += tok
        lines.append(cur)
        de = len(D) + 1
        D.append('%8d%8d%8d%8d%8d%8d%8d%8d%8s' % (t, len(P) + 1, 0, 0, 0, 0, 0, 0, ' 0 0 0 1'))
        D.append('%8d%8d%8d%8d%8d%8s%8s%8s%8d' % (t, 0, 0, len(lines), 0, '', '', 'SPLINE', 0))
        P += ['%-64s%8d' % (x, de) for x in lines]
    o = ''
    for c, ls in (('S', S), ('G', G), ('D', D), ('P', P)):
        for i, x in enumerate(ls):
            o += '%-72s%s%7d\n' % (x, c, i + 1)
    o += '%-72sT%7d\n' % ('S%7dG%7dD%7dP%7d' % (len(S), len(G), len(D), len(P)), 1)
    return o


# ------------------------------------------------------------------ VTK
def parse_vtk(text):
    lines = text.split('\n')
    need(re.match(r'# vtk DataFile Version \d', lines[0]), 'first line')
    need(lines[2].strip() == 'ASCII', 'ASCII')
    t = ' '.join(lines[3:]).split()
    need(t[:2] == ['DATASET', 'UNSTRUCTURED_GRID'], 'data set')
    need(t[2] == 'POINTS', 'POINTS')
    n = int(t[3])
    i = 5
    pts = []
    for _ in range(n):
        pts.append([num(x) for x in t[i:i + 3]])
        i += 3
    need(t[i] == 'CELLS', 'CELLS')
    m, size = int(t[i + 1]), int(t[i + 2])
    i += 3
    j = i
    cells = []
    for _ in range(m):
        k = int(t[i])
        cells.append([int(x) for x in t[i + 1:i + 1 + k]])
        need(len(cells[-1]) == k, 'cell')
        i += k + 1
    need(i - j == size, 'number of cell entries')
    need(t[i] == 'CELL_TYPES' and int(t[i + 1]) == m, 'CELL_TYPES')
    types = [int(x) for x in t[i + 2:]]
    need(len(types) == m, 'types')
    return dict(points=pts, cells=cells, types=types)


# ------------------------------------------------------------------ log files
REPORT = re.compile(r'^(?:The splines? at positions? ([\d, ]+)|No splines) in file (.*?) ha(?:s|ve) been written to (.*)$')


def parse_log(text):
    d = {'fmt': 'log', 'in': '', 'out': '', 'all': False, 'pos': [], 'scat': [], 'done': []}
    cur = None
    for line in text.split('\n'):
        if line in ('input:', 'output:', 'options:', 'scattering:', 'log:'):
            cur = line[:-1]
        elif not line.strip():
            continue
        elif cur == 'input':
            d['in'] = line
        elif cur == 'output':
            d['out'] = line
        elif cur == 'options':
            if line.strip() == 'all':
                d['all'] = True
            else:
                d['pos'].append(int(line))
        elif cur == 'scattering':
            d['scat'].append([int(x) for x in line.split()])
        elif cur == 'log':
            m = REPORT.match(line)
            if m:
                d['done'].append({'pos': [int(x) for x in m.group(1).split(',')] if m.group(1) else [], 'in': m.group(2), 'out': m.group(3)})
            else:
                need(re.match(r'^\w{3} \w{3} [ \d]\d \d\d:\d\d:\d\d \d{4}$', line), 'log entry')
    return d


def render_log(e, r):
    gap = lambda: r.choice(['\n', '\n', '\n\n'])
    o = 'input:\n%s\n%soutput:\n%s\n%s' % (e['in'].replace('~', ' '), gap(), e['out'].replace('~', ' '), gap())
    o += 'options:\n' + ('all\n' if e['all'] else ''.join('%d\n' % p for p in e['pos']))
    if e['scat']:
        o += r.choice(['', '\n']) + 'scattering:\n' + ''.join(' '.join(map(str, x)) + '\n' for x in e['scat'])
    if r.random() < .3:
        o += '\n'
    return o


def fmt_of(path):
    for s, x in (('.xml', 'xml'), ('.itd', 'irit'), ('.iges', 'iges'), ('.vtk', 'vtk')):
        if path.endswith(s):
            return x
    return 'log' if path.startswith('log') else 'none'


PARSE = {'xml': parse_xml, 'irit': parse_irit, 'iges': parse_iges}
RENDER = {'xml': render_xml, 'irit': render_irit, 'iges': render_iges}


def parse(path, text):
    fmt = fmt_of(path)
    try:
        if fmt in PARSE:
            return {'fmt': fmt, 'ents': PARSE[fmt](text)}
        if fmt == 'vtk':
            return {'fmt': 'vtk', 'shown': parse_vtk(text)}
        if fmt == 'log':
            return parse_log(text)
    except (Bad, ValueError, KeyError, IndexError, AttributeError, ET.ParseError) as e:
        return {'fmt': 'broken', 'why': '%s: %s' % (type(e).__name__, e)}
    return {'fmt': 'unknown'}


def prepare(t):
    """adds the parsed contents of the files to the events of a recorded trace, drops the texts"""
    old = {}
    for e in t['ev']:
        if e['op'] == 'conv':
            e['ifmt'], e['ofmt'] = fmt_of(e['in']), fmt_of(e['out'])
        if e['op'] == 'exec':
            e['ifmt'], e['ofmt'] = e['exe'].split('_to_')
            lt = e.pop('logtext')
            e['logfile'] = parse(e['log'], lt)
            e['appended'] = lt.startswith(old.get(e['log'], ''))
            old[e['log']] = lt
        if 'text' in e:
            x = e.pop('text')
            if e['op'] == 'writelog':
                e['appended'] = x.startswith(old.get(e['path'], ''))
            old[e['path']] = x
            e['file'] = parse(e['path'], x) if e['there'] else {'fmt': 'unknown'}
    return t
