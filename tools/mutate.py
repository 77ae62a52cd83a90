#!/usr/bin/env python3
"""mutate.py [-n N] [-s SEED] [-j JOBS] [FILE...]   how many small random changes of the library do the checks notice?
Changes which the stable tests notice are not counted.  Results: $RG_TMP/mutants.jsonl"""
import argparse, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TMP = os.environ.get('RG_TMP', '/tmp/mut')
PROG = 'P01 P02 P04 P21 P07 P08 P05 P03 P06 P09 P17 P22 P19 P18 P16 P23'.split()
MAP = {
    'redGrapes/resource/access/': 'P10 P01 P08 P09 P02'.split(),
    'redGrapes/resource/fieldresource.hpp': 'P11 P10 P01'.split(),
    'redGrapes/resource/ioresource.hpp': 'P11 P10 P01'.split(),
    'redGrapes/resource/resource.': 'P11 P10 P01 P02 P09 P08 P21 P19'.split(),
    'redGrapes/util/chunked_list.hpp': 'P12 P21 P19 P01'.split(),
    'redGrapes/util/atomic_list.hpp': 'P12 P13 P21 P19'.split(),
    'redGrapes/memory/': 'P13 P19 P21'.split(),
    'redGrapes/util/bitfield.hpp': 'P14 P18'.split(),
    'redGrapes/sync/cv': 'P15 P04'.split(),
    'redGrapes/scheduler/tag_match': 'P16'.split(),
    'redGrapes/dispatch/mpi/': 'P20'.split(),
    'redGrapes/dispatch/thread/worker_pool': 'P14 P18 P04 P19'.split() + PROG,
}
FILES = '''task/task_space.cpp task/task_space.hpp task/property/graph.cpp task/property/graph.hpp scheduler/event.cpp scheduler/event_ptr.cpp scheduler/event.hpp
dispatch/thread/execute.cpp dispatch/thread/worker.cpp dispatch/thread/worker.hpp dispatch/thread/worker_pool.cpp dispatch/thread/worker_pool.hpp
scheduler/default_scheduler.cpp scheduler/tag_match.hpp scheduler/tag_match_property.hpp redGrapes.cpp redGrapes.hpp resource/resource_user.cpp
resource/resource.cpp resource/resource.hpp resource/access/io.hpp resource/access/area.hpp resource/access/combine.hpp resource/access/field.hpp
resource/fieldresource.hpp resource/ioresource.hpp task/property/resource.hpp task/property/id.hpp task/property/label.hpp task/property/inherit.hpp
task/future.hpp task/task_builder.hpp task/task.hpp task/task_base.hpp task/queue.hpp util/chunked_list.hpp util/atomic_list.hpp util/bitfield.hpp
sync/cv.cpp sync/spinlock.hpp memory/chunked_bump_alloc.hpp memory/bump_allocator.cpp memory/allocator.cpp memory/allocator.hpp memory/block.hpp memory/hwloc_alloc.hpp dispatch/mpi/request_pool.hpp'''.split()
SUBST = [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '),
         (r' && ', ' || '), (r' \|\| ', ' && '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' \+ 1\b', ''), (r' - 1\b', ''),
         (r' \+ ', ' - '), (r' - ', ' + '), (r'\(!', '('), (r'\bif\((?!!)', 'if(!'), (r'\bcontinue;', 'break;'), (r'\bbreak;', ';'),
         (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\+\+', '--'), (r'\bstd::move\(', '('), (r'\brbegin\b', 'rend'), (r' & ', ' | '), (r' \* ', ' + ')]


def sites(f):
    out, lines, comment = [], open('/repo/' + f).read().split('\n'), False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('/*'):
            comment = True
        if comment:
            if '*/' in s:
                comment = False
            continue
        if not s or s[0] in '#/*{}' or re.search(r'SPDLOG|TRACE_EVENT|fmt::|spdlog|format|template|using |operator->|assert|static_assert|namespace|explicit', s):
            continue
        code = l.split('//')[0]
        for a, b in SUBST:
            for m in re.finditer(a, code):
                new = code[:m.start()] + b + code[m.end():]
                out.append((i, l, new))
        # drop a statement
        if re.match(r'^\s+[\w:>.\-\*\(\)\+]+(\(.*\)|\+\+|--| [-+|&]?= .*);\s*$', code) and not re.match(r'^\s*(return|auto|if|for|while|const|std::[a-z_]+<|unsigned|int|bool|size_t)\b', s):
            out.append((i, l, re.match(r'\s*', l).group(0) + ';'))
        if re.match(r'^\s+std::(unique_lock|lock_guard)<', code):
            out.append((i, l, re.match(r'\s*', l).group(0) + ';'))
    return [(f,) + x for x in out]


def ns(tree, cmd, t=600):
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (tree, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def props(f):
    for k, v in MAP.items():
        if f.startswith(k):
            return list(dict.fromkeys(v))
    return PROG


def one(k, mut, jobs):
    f, i, old, new = mut
    t = TMP + '/m%d' % k
    r = dict(k=k, file=f, line=i + 1, old=old.strip(), new=new.strip())
    shutil.rmtree(t, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', t])
    try:
        p = t + '/' + f
        ls = open(p).read().split('\n')
        ls[i] = new
        open(p, 'w').write('\n'.join(ls))
        try:
            x = ns(t, 'bash /opt/vp/build.sh >%s.log 2>&1 || exit 9; bash /opt/vp/test.sh %s.json >/dev/null 2>&1' % (t, t))
        except subprocess.TimeoutExpired:
            r['res'] = 'tests'
            return r
        if x.returncode == 9:
            r['res'] = 'build'
            return r
        o = json.load(open(t + '.json'))
        if o['failed']:
            r['res'] = 'tests'
            return r
        env = dict(os.environ, RG_REPO=t, RG_BUILD=t + '_b', VERIF_SEED='1', RG_JOBS=str(jobs), RG_TIME=os.environ.get('RG_TIME', '0.35'))
        r['quiet'] = []
        for pr in props(f):
            x = subprocess.run([sys.executable, V + '/run.py', pr, 'quick'], env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, cwd=V)
            if x.returncode == 1:
                r['res'] = pr
                r['why'] = [l for l in x.stdout.splitlines() if l.strip()][-4:]
                return r
            if x.returncode != 0:
                r['res'] = 'noanswer ' + pr
                r['why'] = x.stdout[-600:]
                return r
            r['quiet'].append(pr)
        r['res'] = 'SURVIVED'
        return r
    except Exception as e:
        r['res'] = 'error %r' % e
        return r
    finally:
        for d in (t, t + '_b', t + '.log', t + '.json'):
            subprocess.run(['rm', '-rf', d])


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('-n', type=int, default=50)
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-j', type=int, default=2)
    ap.add_argument('--list', action='store_true')
    ap.add_argument('files', nargs='*')
    a = ap.parse_args()
    rnd = random.Random(a.s)
    fs = a.files or ['redGrapes/' + f for f in FILES]
    pool = {f: sites(f) for f in fs if os.path.exists('/repo/' + f)}
    for v in pool.values():
        rnd.shuffle(v)
    if a.list:
        print({f: len(v) for f, v in pool.items()}, sum(map(len, pool.values())))
        sys.exit(0)
    done = set()
    os.makedirs(TMP, exist_ok=True)
    res = TMP + '/mutants.jsonl'
    if os.path.exists(res):
        for l in open(res):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['new']))
    # files in turn, proportionally to the square root of their size
    allm = []
    for f, v in pool.items():
        for i, m in enumerate(v):
            allm.append(((i + rnd.random()) / (len(v) ** 0.6), m))
    allm = [m for _, m in sorted(allm, key=lambda x: x[0]) if (m[0], m[1] + 1, m[3].strip()) not in done][:a.n]
    with cf.ThreadPoolExecutor(a.j) as ex:
        for r in ex.map(lambda km: one(km[0], km[1], max(2, 8 // a.j)), enumerate(allm)):
            with open(res, 'a') as fo:
                fo.write(json.dumps(r) + '\n')
            print('%-10s %s:%d  %s  -->  %s' % (r['res'], r['file'], r['line'], r['old'][:70], r['new'][:70]), flush=True)
