#!/usr/bin/env python3
"""Driver of the deterministic simulation checks.

  run.py build [GROUP...]        build the simulation binaries (content addressed, from /repo's working tree)
  run.py check PROP [--tier T]   seeded search; exit 0 held, 1 violation, 2 the check itself failed
  run.py replay FILE             replay a violation file in a fresh process
"""
import sys, os, json, hashlib, subprocess, time, shutil, re
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
import groups as G
REPO = G.REPO
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, 'build'))
NPROC = os.cpu_count() or 4

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:32]

_hdr = {}
def tree_hash(dirs, exts=('.h', '.hpp', '.hh', '.inl')):
    key = tuple(dirs)
    if key in _hdr: return _hdr[key]
    h = hashlib.sha256()
    for d in dirs:
        for dp, dn, fn in os.walk(d):
            dn.sort()
            if '_build' in dn: dn.remove('_build')
            for f in sorted(fn):
                if f.endswith(exts) or 'snap/' in dp + '/' and f.endswith('.cpp') and 'snap-core' not in dp:
                    p = os.path.join(dp, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    _hdr[key] = h.hexdigest()
    return _hdr[key]

def hdrs_repo():
    return tree_hash([REPO + '/include', REPO + '/rdf3x/include', REPO + '/rdf3x/src', REPO + '/rapidjson/include'] + [REPO + '/snap/snap-core', REPO + '/snap/glib-core', REPO + '/src'])
def hdrs_sim():
    return tree_hash([ROOT + '/sim/rt', ROOT + '/sim/harness', ROOT + '/sim/kognac_standin'])

def compile_one(job):
    src, flags, cwd, out = job
    if os.path.exists(out): return None
    tmp = out + '.tmp%d' % os.getpid()
    cmd = ['g++', '-c'] + flags + [src, '-o', tmp]
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return '%s:\n%s' % (src, p.stdout[-3000:])
    if src.startswith(ROOT + '/sim/rt/'):
        # The runtime must not share its inline functions and templates with the instrumented code (the linker
        # would keep only one copy, and an instrumented copy would re-enter the scheduler): make them local.
        q = subprocess.run('ld -r --force-group-allocation -o %s.r %s && nm --defined-only %s.r' % (tmp, tmp, tmp), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if q.returncode != 0: return 'ld -r: ' + q.stdout[-2000:]
        weak = [w[2] for w in (l.split() for l in q.stdout.split('\n')) if len(w) == 3 and w[1] in 'WVu']
        if weak:
            open(tmp + '.l', 'w').write('\n'.join(weak) + '\n')
            q = subprocess.run(['objcopy', '--localize-symbols=' + tmp + '.l', tmp + '.r', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            os.unlink(tmp + '.l')
            if q.returncode != 0: return 'objcopy (%d): %s' % (q.returncode, q.stdout[-2000:])
        os.unlink(tmp + '.r')
    os.rename(tmp, out)
    return None

def plan(group):
    d = G.GROUPS[group]
    os.makedirs(BUILD + '/obj', exist_ok=True)
    jobs, objs = [], []
    base = G.BASE + d.get('flags', [])
    hr, hs = hdrs_repo(), hdrs_sim()
    def add(src, flags, cwd, dep):
        ap = src if src.startswith('/') else os.path.join(cwd, src)
        o = '%s/obj/%s.o' % (BUILD, sha(open(ap, 'rb').read(), ' '.join(flags), dep, src if src.startswith('/') else 'repo:' + src))
        jobs.append((src, flags, cwd, o)); objs.append(o)
    for s in d['repo']():
        add(s, base, REPO, hr + hs)
    for s, fl in d.get('repo_special', lambda: [])():
        add(s, base + fl, REPO, hr + hs)
    if d.get('kognac', True):
        add(ROOT + '/sim/kognac_standin/kognac.cpp', base, REPO, hs)
    for s in d['harness']:
        add(ROOT + '/sim/harness/' + s, base + d.get('hflags', []), REPO, hr + hs)
    rt = ['-O2', '-fno-gnu-unique', '-U_FORTIFY_SOURCE', '-g', '-std=c++17', '-w', '-I' + ROOT + '/sim/rt']
    for s in ['simrt.cpp', 'simtsan.cpp', 'simnet.cpp' if d.get('net') else 'simnet_stub.cpp'] + d.get('rt', []):
        add(ROOT + '/sim/rt/' + s, rt, REPO, hs)
    return d, jobs, objs

def build(grps, quiet=False):
    t0 = time.time()
    plans = {g: plan(g) for g in grps}
    uniq = {}
    for g in plans:
        for j in plans[g][1]: uniq[j[3]] = j
    todo = [j for j in uniq.values() if not os.path.exists(j[3])]
    # long ones first
    todo.sort(key=lambda j: -os.path.getsize(j[0] if j[0].startswith('/') else os.path.join(j[2], j[0])))
    with ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(compile_one, todo) if e]
    if errs:
        sys.stderr.write('BUILD FAILED\n' + '\n'.join(errs) + '\n')
        return None
    bins = {}
    for g in plans:
        d, jobs, objs = plans[g]
        b = '%s/sim_%s_%s' % (BUILD, g, sha(*objs, *d['libs'])[:16])
        if not os.path.exists(b):
            for f in os.listdir(BUILD):
                if f.startswith('sim_%s_' % g): os.unlink(os.path.join(BUILD, f))
            cmd = ['g++', '-rdynamic', '-o', b + '.tmp'] + objs + d['libs'] + ['-llz4', '-lz', '-ldl', '-lpthread']
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                sys.stderr.write('LINK FAILED %s\n%s\n' % (g, p.stdout[-4000:])); return None
            os.rename(b + '.tmp', b)
        bins[g] = b
    if not quiet:
        print('built %s: %d of %d objects compiled in %.1f s' % (','.join(grps), len(todo), len(uniq), time.time() - t0)); sys.stdout.flush()
    return bins

def prune():
    """keep the object cache bounded"""
    d = BUILD + '/obj'
    if not os.path.isdir(d): return
    fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
    tot = sum(os.path.getsize(f) for f in fs)
    while tot > 1500e6 and fs:
        f = fs.pop(0); tot -= os.path.getsize(f); os.unlink(f)

def known():
    p = ROOT + '/known-findings.txt'
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m: out.append((m.group(1), m.group(2), m.group(3)))
    return out

TIERS = {'quick': 25, 'thorough': 600}
ENV = dict(GLIBC_TUNABLES='glibc.malloc.arena_max=1:glibc.malloc.hugetlb=1')

def check(prop, tier, seed, seconds=None, nobuild=False):
    t0 = time.time()
    prop_meta = None
    for l in open(ROOT + '/properties.jsonl'):
        m = json.loads(l)
        if m['id'] == prop: prop_meta = m
    grp = G.group_of(prop)
    os.makedirs(BUILD, exist_ok=True)
    prune()
    bins = build([grp])
    if bins is None:
        print('the simulation of %s does not build from this tree' % prop); return 2
    b = bins[grp]
    gd = G.GROUPS[grp]
    secs = seconds or gd.get('seconds', {}).get(tier) or TIERS[tier]
    out = os.path.join(ROOT, 'replays'); os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        if f.startswith(prop + '-'): os.unlink(os.path.join(out, f))
    tb = time.time()
    env = dict(os.environ); env.update(ENV)
    procs = []
    for w in range(NPROC):
        cmd = ['setarch', '-R', b, '--prop', prop, '--seed', str(seed), '--worker', str(w), '--workers', str(NPROC), '--seconds', str(secs), '--out', out]
        if tier == 'thorough': cmd.append('--thorough')
        if not USE_SETARCH: cmd = cmd[2:]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env))
    stats, viols, problems = [], [], []
    with ThreadPoolExecutor(NPROC) as ex:
        outs = list(ex.map(lambda p: p.communicate(), procs))
    for p, (o, e) in zip(procs, outs):
        got = False
        for l in o.splitlines():
            try: m = json.loads(l)
            except ValueError: problems.append('unparsable: ' + l[:200]); continue
            if m['type'] == 'stats': stats.append(m); got = True
            elif m['type'] == 'violation': viols.append(m)
            else: problems.append('%s %s' % (m['type'], json.dumps(m)[:1500]))
        if not got: problems.append('worker ended without statistics, rc %s: %s' % (p.returncode, e[-500:]))
    search_s = time.time() - tb
    # every reported violation is replayed in a fresh process first
    kn = known(); reported, matched = {}, {}
    for v in viols:
        k = next(((i, t) for (pp, i, t) in kn if pp == prop and v['key'] == i), None)
        if k: matched[k[0]] = k[1]; continue
        if v['key'] in reported: continue
        if not v['replayed']:
            problems.append('violation could not be replayed from its trace: %s' % json.dumps(v)[:800]); continue
        ok = 0
        for _ in range(2):
            r = replay_run(b, v['file'])
            if r and r.get('viol') and r.get('same_key') and r.get('same_hash'): ok += 1
        if ok == 2: reported[v['key']] = v
        else: problems.append('violation did not replay identically in a fresh process: %s %s' % (json.dumps(r), json.dumps(v)[:800]))
    for v in viols:
        if v['key'] not in reported and os.path.exists(v['file']): 
            try: os.unlink(v['file'])
            except OSError: pass
    write_evidence(prop, tier, seed, grp, stats, search_s, time.time() - t0, reported, matched, problems, prop_meta)
    tot = sum(s['runs'] for s in stats)
    print('%s %s seed=%d: %d simulated runs in %.1f s of search (%.0f/h), %d distinct interleavings/histories, faults: %s' % (prop, tier, seed, tot, search_s, tot / max(search_s, .001) * 3600, sum(s['distinct'] for s in stats), json.dumps(merge(stats, 'faults'))))
    for k, t in matched.items(): print('KNOWN-FINDING: property=%s %s' % (prop, t))
    for p in problems[:10]: print('PROBLEM: ' + p)
    if reported:
        for k, v in reported.items():
            print('  violation [%s]: %s' % (k, v['msg'][:600]))
            print('VIOLATION property=%s replay=%s' % (prop, v['file']))
        return 1
    if problems: return 2
    if tot == 0: print('no simulated run completed'); return 2
    return 0

def have_setarch():
    try: return subprocess.run(['setarch', '-R', 'true'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    except OSError: return False
USE_SETARCH = have_setarch()

def replay_run(b, f, trace=False):
    env = dict(os.environ); env.update(ENV)
    cmd = (['setarch', '-R'] if USE_SETARCH else []) + [b, '--replay', f] + (['--trace'] if trace else [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
    if trace: sys.stdout.write(p.stdout)
    for l in p.stdout.splitlines():
        if l.startswith('{"type":"replay"'): return json.loads(l)
    return None

def merge(stats, k):
    o = {}
    for s in stats:
        for a, n in s[k].items(): o[a] = o.get(a, 0) + n
    return o

def write_evidence(prop, tier, seed, grp, stats, search_s, wall, reported, matched, problems, meta):
    gd = G.GROUPS[grp]
    S = lambda k: sum(s[k] for s in stats)
    funcs = bytearray(8192)
    for s in stats:
        for i, c in enumerate(bytes.fromhex(s['funcs'])): funcs[i] |= c
    info = G.INFO.get(prop, {}) if hasattr(G, 'INFO') else {}
    cov = dict(
        evaluations=S('runs'), distinct_nontrivial=S('distinct'),
        rule=info.get('rule', 'One evaluation is one simulated run: a workload, a schedule and a fault sequence drawn from one seed. A run is non-trivial when it reached the operations the property is about. Distinct counts different trace hashes (every scheduling decision, file and network operation, fault and observation is mixed in) among the non-trivial runs of each worker; workers use disjoint seeds.'),
        samples=[x for s in stats for x in s['samples'][:1]][:4] or ['none'],
        nontrivial_runs=S('nontrivial'), distinct_observed_histories=S('distinct_obs'),
        runs_per_hour=int(S('runs') / max(search_s, .001) * 3600), seeds_per_hour=int(S('runs') / max(search_s, .001) * 3600), search_seconds=round(search_s, 1),
        simulated_seconds=round(S('sim_ns') / 1e9, 3), memory_access_steps=S('steps'), scheduling_decisions=S('sched_decisions'), context_switches=S('switches'), simulated_process_lifetimes=S('phases'), threads_created=S('threads'),
        mutating_file_operations=S('file_ops'), faults_injected=merge(stats, 'faults'), scenario_runs=merge(stats, 'scenarios'), workload_counts=merge(stats, 'counts'),
        instrumented_functions_reached=sum(bin(x).count('1') for x in funcs), double_run_determinism_checks=S('gate'), nondeterministic_runs=S('nondet'),
        real_components=info.get('real', ['the sources of /repo listed for group %s in groups.py (%d files)' % (grp, len(gd['repo']()))]),
        stub_components=info.get('stub', []) + ['KOGNAC library (absent from the sandbox): functional stand-in in sim/kognac_standin', 'thread scheduling, clocks, sleeping, hardware concurrency, random device: simulator', 'file system calls: real calls on a scratch directory below a fault-injecting seam'],
        known_findings_seen=sorted(matched), problems=problems[:5])
    ev = dict(property=prop, tier=tier, seed=seed, level=info.get('level', 'exploration'), coverage=cov,
        assumptions=info.get('assumptions', []) + ['one thread runs at a time: weak-memory effects are not simulated', 'the process-kill crash model: data handed to the operating system survives, nothing else does (the code never asks for more durability)', 'the KOGNAC stand-in behaves as the real library where trident relies on it'],
        wall_s=round(wall, 1), violations=len(reported))
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (ROOT, prop), 'w'), indent=1)

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == 'build':
        os.makedirs(BUILD, exist_ok=True); prune()
        return 0 if build(a[1:] or list(G.GROUPS)) is not None else 2
    if a[0] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick'); secs = None; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        if '--tier' in a: tier = a[a.index('--tier') + 1]
        if '--seconds' in a: secs = float(a[a.index('--seconds') + 1])
        if '--seed' in a: seed = int(a[a.index('--seed') + 1])
        return check(a[1], tier, seed, secs)
    if a[0] == 'bin':
        bins = build([G.group_of(a[1])], quiet=True); print(list(bins.values())[0]); return 0
    if a[0] == 'one':   # run.py one PROP SEED [args]
        b = list(build([G.group_of(a[1])], quiet=True).values())[0]; env = dict(os.environ); env.update(ENV)
        return subprocess.run((['setarch', '-R'] if USE_SETARCH else []) + [b, '--prop', a[1], '--one', a[2]] + a[3:], env=env).returncode
    if a[0] == 'replay':
        prop = re.search(r'^property (\S+)', open(a[1]).read(), re.M).group(1)
        b = list(build([G.group_of(prop)]).values())[0]
        r = replay_run(b, a[1], trace=True); print(json.dumps(r)); return 1 if r and r.get('viol') else 0
    print(__doc__); return 2
sys.exit(main())
