#!/usr/bin/env python3
"""seed.py ID...   try planted bugs of /verif/seeded in scratch copies of /repo: build, tests, demonstration, check"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TMP = os.environ.get('RG_TMP', '/tmp/seed')
SEEDED = os.environ.get('RG_SEEDED', V + '/seeded')


def ns(tree, cmd, **kw):
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (tree, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(sid, demo_clean=True, check=True):
    d = SEEDED + '/' + sid
    prop = json.load(open(d + '/meta.json'))['property']
    r = {'id': sid, 'prop': prop}
    t = TMP + '/' + sid
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(TMP, exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', t])
    try:
        if demo_clean:
            x = ns(t, 'bash %s/demo.sh' % d)
            r['clean'] = x.returncode
            if x.returncode:
                r['clean_out'] = x.stdout[-1500:]
        subprocess.check_call(['git', '-C', t, 'apply', d + '/patch.diff'])
        x = ns(t, 'bash /opt/vp/build.sh >%s.log 2>&1 || exit 9; bash /opt/vp/test.sh %s.json >/dev/null 2>&1' % (t, t))
        if x.returncode == 9:
            r['build'] = open(t + '.log').read()[-1500:]
            return r
        o = json.load(open(t + '.json'))
        r['tests'] = '%d/%d' % (len(o['passed']), len(o['passed']) + len(o['failed']))
        if o['failed']:
            r['failed'] = o['failed']
        x = ns(t, 'bash %s/demo.sh' % d)
        r['demo'] = x.returncode
        r['demo_out'] = x.stdout.strip().splitlines()[-2:]
        if check:
            env = dict(os.environ, RG_REPO=t, RG_BUILD=TMP + '/b_' + sid, VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
            x = subprocess.run([sys.executable, V + '/run.py', prop, 'quick'], env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, cwd=V)
            v = [l for l in x.stdout.splitlines() if l.startswith('VIOLATION property=%s ' % prop)]
            r['check'] = x.returncode
            r['caught'] = x.returncode == 1 and bool(v)
            if not r['caught']:
                r['check_out'] = x.stdout[-800:]
            else:
                r['why'] = [l for l in x.stdout.splitlines() if l.strip()][-6:]
    finally:
        shutil.rmtree(t, ignore_errors=True)
        shutil.rmtree(TMP + '/b_' + sid, ignore_errors=True)
    return r


if __name__ == '__main__':
    args = sys.argv[1:]
    check = '--nocheck' not in args
    ids = [a for a in args if not a.startswith('-')] or sorted(os.listdir(SEEDED))
    for i in ids:
        r = one(i, check=check)
        ok = r.get('clean', 0) == 0 and r.get('demo') not in (0, None) and not r.get('failed') and 'build' not in r
        print('%-28s %s clean=%s tests=%s demo=%s %s' % (i, r['prop'], r.get('clean'), r.get('tests'), r.get('demo'),
              ('CAUGHT' if r.get('caught') else 'MISSED') if check else ''), '' if ok else '  <-- NOT VALID', flush=True)
        with open(TMP + '/results.jsonl', 'a') as f:
            f.write(json.dumps(r) + '\n')
        for k in ('clean_out', 'build', 'failed', 'demo_out', 'check_out', 'why'):
            if k in r and (k not in ('demo_out', 'why') or '-v' in args or not ok):
                print('   ', k, r[k], flush=True)
