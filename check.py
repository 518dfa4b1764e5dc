#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N]   decides one property on the current tree of /repo
   check.py --setup                                 compiles the TLC module override and the drivers
   check.py --replay DIR                            repeats a reported violation"""
import argparse
import json
import os
import re
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import fw          # noqa: E402
import registry    # noqa: E402


def findings(prop):
    """open: property=C09 id=<scenario> event=<number> <what fails>"""
    out = []
    with open(os.path.join(fw.VERIF, 'known-findings.txt')) as h:
        for line in h:
            m = re.match(r'open: property=(\S+) id=(\S+) event=(\d+) (.*)', line)
            if m and m.group(1) == prop:
                out.append({'id': m.group(2), 'event': int(m.group(3)), 'text': m.group(4)})
    return out


def replay(d):
    def rd(n):
        with open(os.path.join(d, n)) as h:
            return h.read()
    ctx = fw.Ctx('replay', 'quick', 1)
    lines = [x for x in rd('script').splitlines() if x]
    sid = lines[0].split()[1]
    meta = json.loads(rd('args')) if os.path.exists(os.path.join(d, 'args')) else {}
    t, bad = ctx.check_scenarios(rd('driver'), rd('module'), rd('cfg'), [(sid, lines[1:-1])], seconds=20, **meta)
    ctx.close()
    print('rejected at event %d' % bad[sid] if bad else 'accepted')
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.setup:
        fw.java_classes()
        for d in fw.DRIVERS:
            fw.build_driver(d)
        return 0
    if a.replay:
        return replay(a.replay)
    fn = registry.CHECKS[a.id]
    ctx = fw.Ctx(a.id, a.tier, a.seed)
    ctx.findings = findings(a.id)
    try:
        fn(ctx)
        for text in ctx.known:
            print('KNOWN-FINDING: property=%s %s' % (a.id, text))
        ctx.evidence('model_checking', registry.ASSUMPTIONS)
        ctx.log('%d states, %d transitions, %d traces, %d events, %d violations' % (
            ctx.states, ctx.transitions, ctx.traces, ctx.events, len(ctx.violations)))
        return 1 if ctx.violations else 0
    except fw.CheckError as e:
        print('check could not run: %s' % e)
        return 1 if ctx.violations else 2
    except Exception:
        traceback.print_exc()
        return 1 if ctx.violations else 2
    finally:
        ctx.close()


if __name__ == '__main__':
    sys.exit(main())
