#!/usr/bin/env python3
"""Decide one property: check.py Cxx [quick|thorough].

Exit 0: every obligation held (undecided ones are listed in the evidence).
Exit 1: a line 'VIOLATION property=<id> replay=<path>' per violated obligation.
Exit 2: the check itself could not run."""
import fcntl
import hashlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
sys.path.insert(0, HERE)


def inputs():
    r = []
    for d in (REPO + '/src', VERIF + '/driver/src', VERIF + '/harness/src'):
        for base, dirs, files in os.walk(d):
            dirs.sort()
            r += [os.path.join(base, f) for f in sorted(files)]
    for f in (REPO + '/Cargo.toml', REPO + '/Cargo.lock', VERIF + '/driver/Cargo.toml', VERIF + '/harness/Cargo.toml',
              VERIF + '/harness/Cargo.lock', VERIF + '/tools/dump.sh'):
        if os.path.exists(f):
            r.append(f)
    return r


def fingerprint():
    h = hashlib.sha256()
    for f in inputs():
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:20]


def dump(partial=False):
    """Directory with the compiler's view of the current tree."""
    build = os.path.join(VERIF, 'build')
    os.makedirs(build, exist_ok=True)
    with open(os.path.join(build, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(build, 'dump')
        fp = fingerprint()
        stamp = os.path.join(out, 'stamp')
        if os.path.exists(stamp) and open(stamp).read() == fp:
            return out, fp
        if os.path.exists(stamp):
            os.unlink(stamp)
        r = subprocess.run(['bash', os.path.join(VERIF, 'tools', 'dump.sh'), out], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 and partial and os.path.exists(os.path.join(out, 'facts.json')):
            return out, fp
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-6000:])
            print('cannot build the analysed program')
            sys.exit(2)
        with open(stamp, 'w') as f:
            f.write(fp)
        return out, fp


def known():
    """Known findings: property -> set of keys."""
    r = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property='):
                f = l[len('known: property='):].split(None, 1)
                r.setdefault(f[0], {})[f[1].split(' | ')[0]] = f[1]
    return r


def main():
    start = time.monotonic()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from registry import CHECKS
    chk = CHECKS[prop]
    d, fp = dump(chk.get('facts', False))
    from report import Report
    import interp
    from interp import Program, Unsupported
    interp.DEADLINE[0] = start + (660 if tier == 'quick' else 2700)
    rep = Report(prop, tier, REPO)
    mono = os.path.join(d, 'mono.json')
    p = Program(mono) if os.path.exists(mono) else None
    facts = json.load(open(os.path.join(d, 'facts.json')))
    for fn in chk['run']:
        try:
            fn(rep, p, facts) if fn.__code__.co_argcount == 3 else fn(rep, p)
        except Unsupported as e:
            rep.unsure('%s: %s' % (fn.__name__, e))
        except Exception as e:          # a construct the analysis was not written for
            rep.unsure('%s: internal %s %s' % (fn.__name__, type(e).__name__, str(e)[:200]))
            if os.environ.get('VP_DEBUG'):
                raise
    kn = known().get(prop, {})
    bad = []
    for k, text in rep.violations:
        if k in kn:
            print('KNOWN-FINDING: property=%s %s' % (prop, kn[k]))
        else:
            bad.append((k, text))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = rep.evidence(seed, {'source_fingerprint': fp})
    ev['violations'] = len(bad)
    if rep.obligations < chk.get('floor', 1):
        rep.unsure('only %d obligations were generated, %d expected' % (rep.obligations, chk.get('floor', 1)))
        ev['coverage']['undecided_items'] = rep.undecided[:40]
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s %s: %d obligations, %d discharged, %d undecided, %d functions, %d paths' % (
        prop, tier, rep.obligations, rep.discharged, len(rep.undecided), len(rep.fns), rep.paths))
    for t in rep.undecided[:20]:
        print('  undecided: ' + t[:400])
    if not bad:
        return 0
    rd = os.path.join(VERIF, 'build', 'replay')
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, prop + '.txt')
    with open(path, 'w') as f:
        for k, text in bad:
            f.write('%s\n    %s\n' % (k, text))
    for k, text in bad[:20]:
        print('  %s: %s' % (k, text[:1500]))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


if __name__ == '__main__':
    sys.exit(main())
