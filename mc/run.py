#!/usr/bin/env python3
"""Runs the check of one property:  run.py <ID> [--tier quick|thorough] [--replay FILE]

Builds what the check needs from /repo's working tree, explores, re-executes every reported history in a
fresh process, filters the committed known findings, writes /verif/evidence/<ID>.json.
exit 0: held; 1: VIOLATION line printed; 2: the check itself could not run.
"""
import sys, os, json, time, subprocess, fnmatch, re, shutil, hashlib, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
import checks as C

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known(prop):
    out = []
    if not os.path.exists(KNOWN):
        return out
    for l in open(KNOWN):
        l = l.strip()
        if not l.startswith('finding:'):
            continue
        m = re.match(r'finding: property=(\S+) sig=(\S.*?) msg=/(.*?)/ :: (.*)$', l)
        if not m:
            raise SystemExit('bad known finding line: ' + l)
        props, sig, msg, what = m.groups()
        if prop in props.split(','):
            out.append((sig, re.compile(msg), what))
    return out


def sigmatch(sig, pat):
    # only * is special
    return re.fullmatch('.*'.join(re.escape(x) for x in pat.split('*')), sig, re.S) is not None


def sh(cmd, timeout, out=None, env=None):
    """run with output to a file; never lets harness output leak to our stdout"""
    e = dict(os.environ)
    e.update(env or {})
    with open(out or os.devnull, 'w') as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e, start_new_session=True)
        try:
            return p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            return 'timeout'


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    a = sys.argv[2:]
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = os.path.join(B.OUT, 'run', prop + '.%d' % os.getpid())
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        return run(prop, tier, seed, t0, scratch, a)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, seed, t0, scratch, a):
    jobs = C.jobs(prop, tier)
    for j in jobs:
        j['out'] = os.path.join(scratch, re.sub(r'[^A-Za-z0-9_.]', '_', j['name']))
    try:
        C.build(jobs)
    except B.BuildError as e:
        print('BUILD FAILED: ' + str(e))
        return 2
    if '--replay' in a:
        f = a[a.index('--replay') + 1]
        txt = open(f).read()
        m = re.search(r'^# job: (.*)$', txt, re.M)
        j = [x for x in jobs if x['name'] == m.group(1)][0]
        rc, rep = replay(j, f, os.path.join(scratch, 'rp'))
        print(open(os.path.join(scratch, 'rp.log'), errors='replace').read())
        return 1 if rep else 0
    kn = known(prop)
    with open(os.path.join(scratch, 'known'), 'w') as o:
        for (pat, rx, what) in kn:
            o.write(pat + '\t' + rx.pattern + '\n')
    os.environ['MC_KNOWN'] = os.path.join(scratch, 'known')
    limit = (C.LIMIT_QUICK if tier == 'quick' else C.LIMIT_THOROUGH)

    def runjob(j):
        ts = time.time()
        left = limit - (time.time() - t0)
        j['rc'] = 'skipped' if left < 5 else sh(C.command(j, max(5, left - 20)), left, j['out'] + '.log', j.get('env'))
        j['wall'] = time.time() - ts
        return j
    with ThreadPoolExecutor(C.PAR) as ex:
        list(ex.map(runjob, jobs))
    tot = {'states': 0, 'transitions': 0, 'items': 0, 'evaluations': 0, 'distinct_results': 0}
    samples, per, broken, cands, notes = [], [], [], [], []
    for j in jobs:
        s = None
        try:
            s = json.loads(open(j['out'] + '.sum').read(), strict=False)
        except Exception:
            pass
        if s is None:
            if j['rc'] in ('timeout', 'skipped'):
                notes.append('%s: out of time' % j['name'])
            else:
                broken.append('%s: no summary (exit %s): %s' % (j['name'], j['rc'], open(j['out'] + '.log', errors='replace').read()[-600:] if os.path.exists(j['out'] + '.log') else ''))
        else:
            for k in tot:
                tot[k] += s.get(k, 0)
            samples += [x for x in s.pop('samples', [])][:1]
            per.append(dict(s, job=j['name'], wall=round(j['wall'], 1)))
        vf = j['out'] + '.viol'
        seen = set()
        if os.path.exists(vf):
            for l in open(vf, errors='replace'):
                try:
                    v = json.loads(l, strict=False)
                except ValueError:
                    continue
                if v['sig'] in seen:
                    continue
                seen.add(v['sig'])
                cands.append((j, v))
    hits, todo = {}, []
    for j, v in cands:
        for (pat, rx, what) in kn:
            if sigmatch(v['sig'], pat) and rx.search(v['msg']):
                hits.setdefault(what, []).append((j, v))
                break
        else:
            todo.append((j, v))
    # re-execute in a fresh process
    confirmed, unrep = [], []
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)

    def conf(jv):
        j, v = jv
        h = hashlib.sha256((j['name'] + v['sig'] + v['art']).encode()).hexdigest()[:12]
        f = os.path.join(VERIF, 'replays', '%s_%s.txt' % (prop, h))
        with open(f, 'w') as o:
            o.write('# property: %s\n# job: %s\n# sig: %s\n# msg: %s\n' % (prop, j['name'], v['sig'].replace('\n', ' '), v['msg'].replace('\n', ' ')) + v['art'])
        rc, rep = replay(j, f, os.path.join(scratch, 'rp_' + h))
        return (j, v, f, rc, rep)
    # a few of every bucket
    pick, cnt = [], {}
    for j, v in todo:
        k = (j['name'], v['bucket'])
        if cnt.get(k, 0) < 3:
            cnt[k] = cnt.get(k, 0) + 1
            pick.append((j, v))
    pick = pick[:40]
    with ThreadPoolExecutor(8) as ex:
        for (j, v, f, rc, rep) in ex.map(conf, pick):
            if rep:
                confirmed.append((j, v, f))
            else:
                unrep.append((j, v, f))
    if not confirmed and unrep:
        # depends on what the process did before: the whole (deterministic) exploration is the replay
        byjob = {}
        for j, v, f in unrep:
            byjob.setdefault(j['name'], (j, []))[1].append((v, f))
        for name, (j, vs) in byjob.items():
            if time.time() - t0 > limit:
                break
            o = j['out']
            j2 = dict(j, out=o + '.again')
            sh(C.command(j2, max(5, limit - (time.time() - t0) - 5)), limit - (time.time() - t0) + 20, j2['out'] + '.log', j.get('env'))
            again = set()
            if os.path.exists(j2['out'] + '.viol'):
                for l in open(j2['out'] + '.viol', errors='replace'):
                    try:
                        again.add(json.loads(l, strict=False)['sig'])
                    except ValueError:
                        pass
            for v, f in vs:
                if v['sig'] in again:
                    confirmed.append((j, v, f))
    for what, l in hits.items():
        print('KNOWN-FINDING: property=%s %s (%d observed, e.g. %s)' % (prop, what, len(l), l[0][1]['sig'][:160].replace('\n', ' ')))
    keepf = set(f for _, _, f in confirmed)
    for _, _, f in unrep:
        if f not in keepf and os.path.exists(f):
            os.unlink(f)
    cov = {'states': tot['states'], 'transitions': tot['transitions'], 'traces_validated_against_impl': tot['items'],
           'evaluations': tot['evaluations'], 'distinct_nontrivial': tot['distinct_results'],
           'rule': 'states: distinct (implementation representation, dimensions) reached by breadth-first search; transitions: operations executed on the real library and compared with the reference; traces_validated_against_impl: (state, operation or query or pair) items all executed on the implementation itself; distinct_nontrivial: different results seen',
           'samples': samples[:6] or ['none'], 'jobs': per, 'notes': notes, 'unreproduced': len(unrep) if not confirmed else 0,
           'known_findings_observed': {k: len(v) for k, v in hits.items()}}
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': C.ASSUME, 'wall_s': round(time.time() - t0, 1), 'violations': len(confirmed)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', prop + '.json.tmp%d' % os.getpid())
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    print('%s %s: %d states, %d transitions, %d items, %d candidates, %d known, %d confirmed, %d unreproduced, %.1fs' % (prop, tier, tot['states'], tot['transitions'], tot['items'], len(cands), sum(len(v) for v in hits.values()), len(confirmed), len(unrep), time.time() - t0))
    for j, v, f in confirmed[:12]:
        print('  %s\n     %s' % (v['sig'].replace('\n', ' '), v['msg'][:700].replace('\n', ' ')))
    if confirmed:
        j, v, f = confirmed[0]
        print('VIOLATION property=%s replay=%s' % (prop, f))
        return 1
    if broken:
        print('\n'.join(broken))
        return 2
    return 0


def replay(j, f, outp):
    rc = sh(C.replay_command(j, f, outp), 150, outp + '.log', j.get('env'))
    txt = open(outp + '.log', errors='replace').read()
    rep = rc == 'timeout' or (isinstance(rc, int) and rc < 0) or 'REPRODUCED\t' in txt or (isinstance(rc, int) and rc not in (0, 1, 3))
    return rc, rep


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
