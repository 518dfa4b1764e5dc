"""Machinery shared by all checks: building the drivers from /repo, running TLC, validating recorded traces."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
TLA = '/opt/veriftools/tla'
CORES = min(8, os.cpu_count() or 1)


PREPARE = {}        # driver -> function applied to its recorded traces
ENV = {}            # driver -> function giving its environment


class CheckError(Exception):
    """The check itself could not run (exit 2)."""


# ---------------------------------------------------------------- building
INC = ['src/baf', 'src/spl', 'src/util', 'src/io', 'src/io/executables', 'external/pugixml']
BASE = ['-std=c++17', '-include', 'cstdint', '-include', 'stdexcept', '-w', '-O1', '-DNDEBUG']
BAF = ['src/baf/*.cc', 'src/util/*.cc']
SPLGEN = ['src/spl/*.cc']
IO = ['src/io/*.cc', 'src/io/executables/converter_log.cc', 'external/pugixml/pugixml.cpp']
# name -> (own sources with flags, repository sources, link flags, extra include directories)
DRIVERS = {
    'spl': ([('spl_dim.cc', ['-DVDIM=%d' % d], 'spl_dim%d' % d) for d in (1, 2, 3, 4)] + [('spl_gen.cc', [], 'spl_gen'), ('spl_main.cc', [], 'spl_main')],
            BAF + SPLGEN, [], []),
    'kv': ([('kv.cc', [], 'kv_main')], BAF, [], []),
    'bas': ([('bas.cc', [], 'bas_main')], BAF, [], []),
    'net': ([('net.cc', [], 'net_main')], BAF, [], []),
    'util': ([('util.cc', [], 'util_main')], BAF, [], []),
    'mi': ([('mi.cc', [], 'mi_main')], BAF, [], []),
    'io': ([('io.cc', [], 'io_main')], BAF + IO, [], []),
    'iga': ([('iga.cc', [], 'iga_main')], BAF + IO, ['-larmadillo'], ['example/iga/src', 'example/iga/src/itg']),
}
CONVERTERS = ['%s_to_%s' % (a, b) for a in ('iges', 'irit', 'xml') for b in ('iges', 'irit', 'xml', 'vtk') if a != b]
for _x in CONVERTERS:
    DRIVERS[_x] = ([], BAF + IO + ['src/io/executables/%s.cc' % _x], [], [])


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def repo_sources():
    out = []
    for root in ('src', 'external', 'example'):
        for d, dirs, files in os.walk(os.path.join(REPO, root)):
            dirs[:] = [x for x in dirs if not x.startswith('.') and x != '_build']
            out += [os.path.join(d, f) for f in files if f.endswith(('.h', '.cc', '.cpp', '.hpp', '.inc'))]
    return out


def harness_sources():
    return glob.glob(os.path.join(VERIF, 'harness', '*.h')) + glob.glob(os.path.join(VERIF, 'harness', '*.cc'))


def build_driver(name):
    """Builds a driver from the current tree of /repo; returns the executable. Cached by the content of all sources."""
    own, repo, link, extra = DRIVERS[name]
    key = tree_hash(repo_sources() + harness_sources() + [os.path.abspath(__file__)])
    d = os.path.join(BUILD, 'drv', key)
    exe = os.path.join(d, name)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'lock-' + name), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in sorted(glob.glob(os.path.join(BUILD, 'drv', '*')), key=os.path.getmtime)[:-3]:
            if old != d:
                shutil.rmtree(old, ignore_errors=True)
        jobs = []
        for src, flags, obj in own:
            jobs.append((os.path.join(VERIF, 'harness', src), flags, os.path.join(d, obj + '.o')))
        for pat in repo:
            for src in sorted(glob.glob(os.path.join(REPO, pat))):
                jobs.append((src, [], os.path.join(d, 'r_' + os.path.relpath(src, REPO).replace('/', '_') + '.o')))
        inc = ['-I' + os.path.join(REPO, i) for i in extra + INC]

        def one(job):
            src, flags, obj = job
            if os.path.exists(obj):
                return None
            tmp = obj + '.%d.tmp' % os.getpid()
            r = subprocess.run(['g++'] + BASE + flags + inc + ['-c', src, '-o', tmp], capture_output=True, text=True)
            if r.returncode:
                return src + ':\n' + r.stderr[:3000]
            os.rename(tmp, obj)
            return None
        with cf.ThreadPoolExecutor(CORES) as ex:
            errs = [e for e in ex.map(one, jobs) if e]
        if errs:
            raise CheckError('the driver does not compile against the tree\n' + '\n'.join(errs[:3]))
        r = subprocess.run(['g++'] + [j[2] for j in jobs] + ['-o', exe + '.tmp'] + link, capture_output=True, text=True)
        if r.returncode:
            raise CheckError('link: ' + r.stderr[:3000])
        os.rename(exe + '.tmp', exe)
    return exe


def java_classes():
    d = os.path.join(BUILD, 'java')
    src = sorted(glob.glob(os.path.join(SPEC, '*.java')))
    key = tree_hash(src)
    d = os.path.join(BUILD, 'java-' + key)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock-java'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, 'done')):
            os.makedirs(d, exist_ok=True)
            r = subprocess.run(['javac', '-cp', TLA + '/tla2tools.jar', '-d', d] + src, capture_output=True, text=True)
            if r.returncode:
                raise CheckError('javac: ' + r.stderr[:2000])
            open(os.path.join(d, 'done'), 'w').close()
    return d


# ---------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, ctx):
        self.ctx = ctx
        self.cp = ':'.join([java_classes(), TLA + '/tla2tools.jar', TLA + '/CommunityModules-deps.jar'])
        self.n = 0

    def run(self, module, cfg, args=(), env=None, timeout=600, workers=1, heap='2g', java=()):
        """cfg: text of the configuration. Returns (exit code, output)."""
        self.n += 1
        meta = os.path.join(self.ctx.dir, 'meta%d' % self.n)
        os.makedirs(meta, exist_ok=True)
        cfgf = os.path.join(meta, 'M.cfg')
        with open(cfgf, 'w') as f:
            f.write(cfg)
        cmd = ['java', '-XX:+UseSerialGC', *java, '-Djava.io.tmpdir=' + meta, '-Xmx' + heap, '-Xss64m', '-cp', self.cp, 'tlc2.TLC',
               '-workers', str(workers), '-noGenerateSpecTE', '-metadir', meta, '-config', cfgf] + list(args) + [module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
            out, rc = r.stdout + r.stderr, r.returncode
        except subprocess.TimeoutExpired as t:
            out, rc = (t.stdout or b'').decode(errors='replace') if isinstance(t.stdout, bytes) else (t.stdout or ''), 124
        shutil.rmtree(meta, ignore_errors=True)
        return rc, out


STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')
SIMST = re.compile(r'The number of states generated: (\d+)')


def tla_value(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(tla_value(x) for x in sorted(v, key=str)) + '}'
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla_value(x) for x in v) + '>>'
    if isinstance(v, dict):
        return '[' + ', '.join('%s |-> %s' % (k, tla_value(x)) for k, x in v.items()) + ']'
    raise TypeError(v)


def cfg_text(spec, consts, invariants=(), properties=(), extra=()):
    """Constants with structured values are put in the configuration as is (TLC accepts sets, numbers, strings)."""
    t = 'SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n' % spec
    for k, v in consts.items():
        t += 'CONSTANT %s = %s\n' % (k, tla_value(v))
    for i in invariants:
        t += 'INVARIANT %s\n' % i
    for p in properties:
        t += 'PROPERTY %s\n' % p
    for x in extra:
        t += x + '\n'
    return t


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, 'run', '%s-%d' % (prop, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.rng = random.Random('%s/%d' % (prop, seed))
        self.tlc = Tlc(self)
        self.states = self.transitions = self.traces = self.events = 0
        self.skipped = 0
        self.samples, self.notes, self.violations, self.known = [], [], [], []
        self.models = {}
        self.opcount = {}
        self.exhaustive = False
        self.findings = []

    def log(self, *a):
        print('[%5.1fs]' % (time.time() - self.t0), *a, flush=True)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---- violations
    def violation(self, what, files):
        d = os.path.join(BUILD, 'replay', self.prop)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%d' % len(self.violations))
        shutil.rmtree(p, ignore_errors=True)
        os.makedirs(p)
        for name, text in files.items():
            with open(os.path.join(p, name), 'w') as f:
                f.write(text)
        with open(os.path.join(p, 'what.txt'), 'w') as f:
            f.write(what + '\n')
        self.violations.append((what, p))
        self.log('violation:', what[:2000])
        print('VIOLATION property=%s replay=%s' % (self.prop, p), flush=True)

    # ---- model checking of a design model
    def model(self, name, module, cfg, workers=CORES, timeout=800, expect_error=False, heap='6g', args=()):
        rc, out = self.tlc.run(module, cfg, workers=workers, timeout=timeout, heap=heap, args=args)
        m = STATES.search(out)
        if m:
            gen, dist = int(m.group(1)), int(m.group(2))
            self.states += dist
            self.transitions += gen
            self.models[name] = {'distinct_states': dist, 'states_generated': gen}
        if rc != 0 or not m:
            raise CheckError('model %s: TLC ended with %d\n%s' % (name, rc, out[-3000:]))
        self.log('model %s: %s distinct states' % (name, dist))

    # ---- behaviours of a generator specification (TLC simulation)
    def behaviours(self, module, cfg, num, depth, seed, timeout=300):
        rc, out = self.tlc.run(module, cfg, args=['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)],
                               timeout=timeout)
        hist = parse_printed(out)
        m = SIMST.search(out)
        if rc != 0 or not hist:
            raise CheckError('generator %s ended with %d\n%s' % (module, rc, out[-3000:]))
        if m:
            self.models.setdefault('generator ' + module, {'states_generated': 0, 'behaviours': 0})
            self.models['generator ' + module]['states_generated'] += int(m.group(1))
            self.models['generator ' + module]['behaviours'] += len(hist)
            self.transitions += int(m.group(1))
        return hist

    def all_behaviours(self, module, cfg, timeout=600, workers=1):
        """every behaviour of a finite generator specification (TLC breadth first)"""
        # in memory: the rationals of spec/Rat.java cannot be written to disk
        rc, out = self.tlc.run(module, cfg, timeout=timeout, workers=workers, heap='6g', java=['-Dtlc2.tool.queue.IStateQueue=MemStateQueue'])
        m = STATES.search(out)
        if rc != 0 or not m:
            raise CheckError('generator %s ended with %d\n%s' % (module, rc, out[-3000:]))
        self.states += int(m.group(2))
        self.transitions += int(m.group(1))
        hist = parse_printed(out)
        self.models.setdefault('exhaustive ' + module, {'distinct_states': 0, 'behaviours': 0})
        self.models['exhaustive ' + module]['distinct_states'] += int(m.group(2))
        self.models['exhaustive ' + module]['behaviours'] += len(hist)
        return hist

    # ---- replay on the real code
    def replay(self, driver, scenarios, seconds=10, args=(), env=None):
        """scenarios: list of (id, [lines]). Runs them on the real code, returns {id: trace line (dict)}"""
        exe = build_driver(driver)
        shards = [scenarios[i::CORES] for i in range(CORES)]
        shards = [s for s in shards if s]

        def one(k):
            sf = os.path.join(self.dir, 'script-%s-%d-%d' % (driver, id(scenarios), k))
            with open(sf, 'w') as f:
                for sid, lines in shards[k]:
                    f.write('scenario %s\n' % sid + '\n'.join(lines) + '\nend\n')
            e = dict(os.environ)
            e.update(env or {})
            r = subprocess.run([exe, sf, sf + '.json', str(seconds)] + list(args), capture_output=True, text=True, env=e, cwd=self.dir)
            if r.returncode:
                raise CheckError('driver %s: exit %d %s' % (driver, r.returncode, r.stderr[-1000:]))
            with open(sf + '.json') as f:
                res = [json.loads(x) for x in f]
            os.unlink(sf)
            os.unlink(sf + '.json')
            return res
        out = {}
        with cf.ThreadPoolExecutor(CORES) as ex:
            for res in ex.map(one, range(len(shards))):
                for t in res:
                    out[t['id']] = t
        return out

    def validate_traces(self, module, cfg, traces, timeout=840):
        """traces: list of dicts. Returns {id: index of the first event which the specification does not explain}"""
        if not traces:
            return {}
        size = lambda t: sum(len(json.dumps(e)) for e in t['ev'])
        order = sorted(traces, key=size, reverse=True)
        k = min(CORES, len(order))
        shards = [[] for _ in range(k)]
        load = [0] * k
        for t in order:
            i = load.index(min(load))
            shards[i].append(t)
            load[i] += size(t) + 200

        def tlc(ts, tag):
            f = os.path.join(self.dir, 'trace-%d-%s' % (id(traces), tag))
            with open(f, 'w') as o:
                for t in ts:
                    o.write(json.dumps(t) + '\n')
            rc, out = self.tlc.run(module, cfg, env={'TRACE': f}, timeout=timeout)
            os.unlink(f)
            return rc, out

        def one(i):
            """results of a shard; where TLC cannot evaluate the specification on a recorded state (an index out of range
            because sizes do not fit, say), the scenarios are judged one by one and such a scenario is rejected"""
            rc, out = tlc(shards[i], str(i))
            if '"SCENARIOS", %d' % len(shards[i]) in out and STATES.search(out):
                return [(rc, out, {})]
            if rc == 124:
                raise CheckError('trace validation ran out of time\n' + out[-1500:])
            res = []
            for k, t in enumerate(shards[i]):
                rc, out = tlc([t], '%d-%d' % (i, k))
                m = STATES.search(out)
                if '"SCENARIOS", 1' in out and m:
                    res.append((rc, out, {}))
                elif 'rror' in out and rc not in (124, 137, -9) and 'OutOfMemory' not in out and m and (
                        'evaluat' in out or 'Attempted' in out):
                    res.append((rc, out, {t['id']: max(1, int(m.group(2)))}))
                else:
                    raise CheckError('trace validation of %s ended with %d\n%s' % (t['id'], rc, out[-3500:]))
            return res
        bad = {}
        with cf.ThreadPoolExecutor(k) as ex:
            for rs in ex.map(one, range(k)):
                for rc, out, errs in rs:
                    m = STATES.search(out)
                    self.states += int(m.group(2))
                    self.transitions += int(m.group(1))
                    bad.update(errs)
                    for x in re.finditer(r'<<"REJECTED", "([^"]*)", (\d+)>>', out):
                        bad[x.group(1)] = int(x.group(2))
                    for x in re.finditer(r'<<"SKIPPED", "([^"]*)", (\d+)>>', out):
                        self.skipped += 1
        return bad

    def check_scenarios(self, driver, module, cfg, scenarios, seconds=10, args=(), env=None, limit=3, prepare=None):
        """Replays scenarios on the code and lets the specification judge the recorded traces."""
        prepare = prepare or PREPARE.get(driver) or (lambda t: t)
        env = env or (ENV[driver]() if driver in ENV else None)
        traces = {k: prepare(t) for k, t in self.replay(driver, scenarios, seconds, args, env).items()}
        bad = self.validate_traces(module, cfg, list(traces.values()))
        self.traces += len(traces)
        for t in traces.values():
            self.events += len(t['ev'])
            for e in t['ev']:
                self.opcount[e['op']] = self.opcount.get(e['op'], 0) + 1
        by = dict(scenarios)
        if bad:      # confirm: again from the start, one by one
            again = [s for s in scenarios if s[0] in bad]
            again = again[:12]
            t2 = {k: prepare(t) for k, t in self.replay(driver, again, max(seconds, 20), args, env).items()}
            bad2 = self.validate_traces(module, cfg, list(t2.values()))
            shown = 0
            for sid, _ in again:
                if sid in bad2:
                    tr, i = t2[sid], bad2[sid]
                elif any(e.get('op') == 'Died' for e in traces[sid]['ev']):     # the watchdog, on a busy machine
                    self.log('scenario %s ended early once and was accepted when repeated: not reported' % sid)
                    continue
                else:                   # depends on chance; the recorded execution is the proof
                    tr, i = traces[sid], bad[sid]
                ev = tr['ev']
                e = ev[i - 1] if i <= len(ev) else {}
                what = 'scenario %s, event %d of %d is not a step of %s: %s' % (sid, i, len(ev), module, json.dumps(e)[:1500])
                shown += 1
                if shown <= limit:
                    self.violation(what, {'driver': driver, 'script': 'scenario %s\n' % sid + '\n'.join(by[sid]) + '\nend\n',
                                          'trace.json': json.dumps(tr) + '\n', 'module': module, 'cfg': cfg})
        if scenarios and len(self.samples) < 4:
            self.samples.append({'scenario': scenarios[0][0], 'script': [x[:300] for x in scenarios[0][1][:12]]})
        self.log('%s: %d scenarios, %d events, %d rejected, %d skipped' % (
            module, len(traces), sum(len(t['ev']) for t in traces.values()), len(bad), self.skipped))
        return traces, bad

    def known_findings(self, driver, module, cfg, scenarios, seconds=4, args=(), env=None, prepare=None):
        """scenarios: {id: lines} of the findings listed for this property. A listed scenario that fails at the listed event
        is a known finding; at any other event it is a violation; it may also pass (when the defect is gone)."""
        listed = {x['id']: x for x in self.findings}
        run = [(k, v) for k, v in scenarios.items()]
        prepare = prepare or PREPARE.get(driver) or (lambda t: t)
        env = env or (ENV[driver]() if driver in ENV else None)
        traces = {k: prepare(t) for k, t in self.replay(driver, run, seconds, args, env).items()}
        bad = self.validate_traces(module, cfg, list(traces.values()))
        for sid, lines in run:
            if sid not in bad:
                continue
            if sid in listed and listed[sid]['event'] == bad[sid]:
                self.known.append(listed[sid]['text'])
            else:
                e = traces[sid]['ev'][bad[sid] - 1] if bad[sid] <= len(traces[sid]['ev']) else {}
                self.violation('scenario %s, event %d: %s' % (sid, bad[sid], json.dumps(e)[:1500]),
                               {'driver': driver, 'script': 'scenario %s\n' % sid + '\n'.join(lines) + '\nend\n',
                                'trace.json': json.dumps(traces[sid]) + '\n', 'module': module, 'cfg': cfg})

    def evidence(self, level, assumptions):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'events_validated': self.events, 'samples': self.samples or ['none'], 'models': self.models,
               'operations': self.opcount, 'scenarios_cut_at_unmet_precondition': self.skipped}
        if self.notes:
            cov['notes'] = self.notes
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def parse_printed(out):
    """JSON values printed by PrintT(ToJson(..))"""
    res = []
    for line in out.splitlines():
        if line.startswith('"[') or line.startswith('"{'):
            res.append(json.loads(json.loads(line)))
    return res
