#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]   decide one property on /repo's working tree
   run.py --build BINARY               build one harness, print its path
   run.py --replay FILE                rerun one replay file
   run.py --list"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('RG_REPO', '/repo')
BUILD = os.environ.get('RG_BUILD', os.path.join(V, 'build'))
sys.path.insert(0, V)
import registry

INC = ['-I' + V + '/harness/config', '-I' + V + '/harness/mock', '-I' + REPO,
       '-I' + REPO + '/share/thirdParty/cameron314/concurrentqueue/include']
TSAN = ['-std=c++17', '-O1', '-gline-tables-only', '-fsanitize=thread', '-w', '-DREDGRAPES_VERIF=1']
PLAIN = ['-std=c++17', '-O1', '-w']
ASAN = ['-std=c++17', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function,alignment',
        '-fno-sanitize-recover=undefined', '-w', '-DREDGRAPES_VERIF=1']
LIBS = ['-lboost_context', '-lfmt', '-lspdlog', '-lhwloc', '-lpthread', '-ldl']
WRAP = ['-Wl,--wrap=_ZN9redGrapes6memory9Allocator8allocateEm',
        '-Wl,--wrap=_ZN9redGrapes6memory9Allocator10deallocateENS0_5BlockE']
CXX = 'clang++'


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for f in ('run.py', 'registry.py'):
        h.update(open(os.path.join(V, f), 'rb').read())
    for base in [REPO + '/redGrapes', REPO + '/share/thirdParty/cameron314', V + '/engine', V + '/harness']:
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.hpp', '.cpp', '.h', '.hh', '.ipp', '.tpp', '.inl')):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


def compile_one(job):
    out, src, flags = job
    tmp = out + '.tmp%d.o' % os.getpid()
    r = subprocess.run([CXX] + flags + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return src, r.stdout
    os.rename(tmp, out)
    return None


def lib_sources():
    return sorted(glob.glob(REPO + '/redGrapes/**/*.cpp', recursive=True))


def chunk(srcs, n):
    # cost estimate: heavier translation units first, into the emptiest chunk
    bins = [[0, []] for _ in range(n)]
    # calls into the allocator are redirected by the linker (--wrap), which only works across translation units
    alone = [s for s in srcs if s.endswith('memory/allocator.cpp')]
    srcs = [s for s in srcs if s not in alone]
    for s in sorted(srcs, key=lambda s: -os.path.getsize(s)):
        b = min(bins, key=lambda b: b[0])
        b[0] += 20000 + os.path.getsize(s)
        b[1].append(s)
    return [b[1] for b in bins if b[1]] + [[s] for s in alone]


def build(name):
    b = registry.BINARIES[name]
    d = os.path.join(BUILD, tree_hash())
    os.makedirs(d, exist_ok=True)
    # drop builds of other trees
    olds = sorted((p for p in glob.glob(BUILD + '/*') if os.path.isdir(p) and p != d), key=os.path.getmtime)
    for old in olds[:-int(os.environ.get('RG_KEEP', '1'))]:
        if time.time() - os.path.getmtime(old) > 900:
            subprocess.run(['rm', '-rf', old])
    exe = os.path.join(d, name)
    if os.path.exists(exe):
        return exe
    cov = ['-fprofile-instr-generate', '-fcoverage-mapping'] if os.environ.get('RG_COV') else []
    flags = {'tsan': TSAN, 'asan': ASAN, 'plain': PLAIN}[b.get('lib', 'tsan')] + INC + b.get('flags', []) + cov
    tag = hashlib.sha256(repr(flags).encode()).hexdigest()[:8]
    jobs, objs = [], []
    for s in b['inst']:
        o = os.path.join(d, '%s-%s.o' % (os.path.basename(s), tag))
        jobs.append((o, os.path.join(V, s), flags))
        objs.append(o)
    for s in b['plain']:
        o = os.path.join(d, os.path.basename(s) + '-plain.o')
        jobs.append((o, os.path.join(V, s), PLAIN))
        objs.append(o)
    chunks = []
    if b.get('lib_sources', True):
        for i, c in enumerate(chunk(lib_sources(), b.get('chunks', 4))):
            u = os.path.join(d, 'unity%d-%s.cpp' % (i, tag))
            open(u, 'w').write(''.join('#include "%s"\n' % s for s in c))
            chunks.append((u[:-4] + '.o', u, flags, c))
    with cf.ThreadPoolExecutor(int(os.environ.get('RG_JOBS', '8'))) as ex:
        js = [ex.submit(compile_one, j) for j in jobs if not os.path.exists(j[0])]
        cs = [(c, ex.submit(compile_one, c[:3]) if not os.path.exists(c[0]) else None) for c in chunks]
        extra = []
        for c, f in cs:
            if f is None or f.result() is None:
                objs.append(c[0])
                continue
            for s in c[3]:  # the sources do not go together in one unit: one by one
                o = os.path.join(d, '%s-%s.o' % (hashlib.sha256(s.encode()).hexdigest()[:12], tag))
                objs.append(o)
                if not os.path.exists(o):
                    extra.append(ex.submit(compile_one, (o, s, flags)))
        for f in js + extra:
            e = f.result()
            if e:
                raise BuildError('%s:\n%s' % (e[0], e[1][-6000:]))
    link = cov + (['-fsanitize=address,undefined'] if b.get('lib', 'tsan') == 'asan' else [])
    wrap = WRAP if b.get('wrap', b.get('lib', 'tsan') == 'tsan') else []
    tmp = exe + '.tmp%d' % os.getpid()
    r = subprocess.run([CXX, '-o', tmp] + link + objs + wrap + ['-rdynamic'] + b.get('libs', []) + LIBS,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(r.stdout[-6000:])
    os.rename(tmp, exe)
    return exe


def known_findings(prop):
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def main():
    if sys.argv[1:2] == ['--list']:
        for p, cs in registry.CHECKS.items():
            print(p, [c['name'] for c in cs])
        return 0
    if sys.argv[1:2] == ['--build']:
        print(build(sys.argv[2]))
        return 0
    if sys.argv[1:2] == ['--replay']:
        chk = [l.split()[1] for l in open(sys.argv[2]) if l.startswith('check ')][0]
        for cs in registry.CHECKS.values():
            for c in cs:
                if c['name'] == chk:
                    return subprocess.run([build(c['bin']), '--replay', sys.argv[2]]).returncode
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    t0 = time.time()
    os.makedirs(V + '/evidence', exist_ok=True)
    os.makedirs(V + '/replays', exist_ok=True)
    ev = os.path.join(V, 'evidence', prop + '.json')
    if os.path.exists(ev):
        os.unlink(ev)
    checks = registry.CHECKS[prop]
    bins = {}
    try:
        for n in dict.fromkeys(c['bin'] for c in checks):
            bins[n] = build(n)
    except BuildError as e:
        print('build failed: %s' % e)
        return 2
    print('[build] %.1f s' % (time.time() - t0), flush=True)
    parts, status, replay = [], 0, None
    scale = float(os.environ.get('RG_TIME', '1'))
    for c in checks:
        t = c['thorough_s'] if tier == 'thorough' else c['quick_s']
        out = os.path.join(BUILD, 'out-%s-%s.json' % (prop, c['name']))
        rp = os.path.join(V, 'replays', '%s-%s.txt' % (prop, c['name']))
        for f in (out, rp):
            if os.path.exists(f):
                os.unlink(f)
        args = [bins[c['bin']], '--check', c['name'], '--tier', tier, '--seed', seed, '--time', str(t * scale),
                '--out', out, '--replay-out', rp]
        r = subprocess.run(args)
        if not os.path.exists(out):
            print('check %s gave no result (exit %d)' % (c['name'], r.returncode))
            return 2
        parts.append(json.load(open(out)))
        os.unlink(out)
        if r.returncode == 1:
            status, replay = 1, rp
            break
        if r.returncode != 0:
            print('check %s ended with %d' % (c['name'], r.returncode))
            status = 2
            break
    cov = {
        'evaluations': sum(p['coverage']['evaluations'] for p in parts),
        'distinct_nontrivial': sum(p['coverage']['distinct_nontrivial'] for p in parts),
        'rule': '; '.join('%s: %s' % (p['coverage']['check'], p['coverage']['rule']) for p in parts),
        'samples': [s for p in parts for s in p['coverage']['samples'][:2]],
        'checks': [p['coverage'] for p in parts],
    }
    for p in cov['checks']:
        p.pop('samples', None)
    e = {'property': prop, 'tier': tier, 'seed': int(seed), 'level': 'exploration', 'coverage': cov,
         'assumptions': list(dict.fromkeys(a for p in parts for a in p['assumptions'])),
         'wall_s': round(time.time() - t0, 1), 'violations': 1 if status == 1 else 0}
    with open(ev + '.tmp', 'w') as f:
        json.dump(e, f, indent=1)
    os.rename(ev + '.tmp', ev)
    for k in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if status == 1:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    return status


if __name__ == '__main__':
    sys.exit(main())
