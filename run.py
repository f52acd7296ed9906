#!/usr/bin/env python3
"""Driver of the checks.

  run.py check ID [--tier quick|thorough]   decide one property (exit 0 / exit 1 + VIOLATION line)
  run.py replay FILE                        run the case of a VIOLATION line again
  run.py setup                              build everything once
"""
import collections, hashlib, json, os, re, subprocess, sys, threading, time, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('TG_REPO', '/repo')
BUILD = os.path.join(V, 'build')
SRC = os.path.join(V, 'src')
SAN = '-fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=all -fno-omit-frame-pointer'
ENVX = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=0:allow_user_segv_handler=1',
        'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1'}

# name: (C compiler, C++ compiler, library flags, harness flags, link flags, also compile deps)
VARIANTS = {
    'opt':     ('gcc', 'g++', '-O2', '-O1', '', False),
    'opt_na':  ('gcc', 'g++', '-O2 -DTG_NOAMALGA', '-O1', '', True),
    'asan':    ('clang', 'clang++', '-O1 ' + SAN, '-O1 ' + SAN, SAN, False),
    'asan_na': ('clang', 'clang++', '-O1 -DTG_NOAMALGA ' + SAN, '-O1 ' + SAN, SAN, True),
    'asan_noatomics': ('clang', 'clang++', '-O1 -DTG_NOATOMICS ' + SAN, '-O1 ' + SAN, SAN, False),
    'ixf64':   ('gcc', 'g++', '-O2 -DTG_IXFLOAT64', '-O1', '', False),
    'no128':   ('gcc', 'g++', '-O2 -U__SIZEOF_INT128__', '-O1', '', False),
    'conc':    ('clang', 'clang++', '-O1 -fsanitize=thread', '-O1', '-lpthread', False),
}
sys.path.insert(0, V)
from checks import CHECKS  # id -> dict(level, technique, level_note, runs=[(harness, variant, extra args)])

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def filehash(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, 'rb') as f: h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()

LOCKS = collections.defaultdict(threading.Lock)
def compile_to(out, key, cmd):
    with LOCKS[out]: compile_to_(out, key, cmd)

def compile_to_(out, key, cmd):
    stamp = out + '.key'
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key: return
    tmp = f'{out}.{os.getpid()}.tmp'
    r = sh(cmd.replace('@OUT@', tmp))
    if r.returncode != 0:
        print(f'build failed: {cmd}\n{r.stdout[-4000:]}', file=sys.stderr); sys.exit(3)
    os.rename(tmp, out)
    with open(stamp, 'w') as f: f.write(key)

def build(harness, variant):
    cc, cxx, lf, hf, ld, deps = VARIANTS[variant]
    os.makedirs(BUILD, exist_ok=True)
    jobs = []; objs = []
    srcs = [f'{REPO}/tg.c'] + ([f'{REPO}/deps/json.c', f'{REPO}/deps/fp.c'] if deps else [])
    hdrs = [f'{REPO}/tg.h'] + ([f'{REPO}/deps/json.h', f'{REPO}/deps/fp.h'] if deps else [])
    for s in srcs:
        o = f'{BUILD}/{variant}_{os.path.basename(s)}.o'
        c = f'{cc} -g1 -w {lf} -I{REPO} -c {s} -o @OUT@'
        jobs.append((o, filehash(s, *hdrs) + c, c)); objs.append(o)
    hs = f'{SRC}/{harness}.cpp'
    inc = sorted(os.path.join(SRC, f) for f in os.listdir(SRC) if f.endswith('.hpp'))
    ho = f'{BUILD}/{variant}_{harness}.o'
    c = f'{cxx} -g1 -std=c++17 -w {hf} -I{SRC} -I{REPO} -c {hs} -o @OUT@'
    jobs.append((ho, filehash(hs, f'{REPO}/tg.h', *inc) + c, c)); objs.append(ho)
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(lambda j: compile_to(*j), jobs))
    exe = f'{BUILD}/{variant}_{harness}'
    c = f'{cxx} {" ".join(objs)} -o @OUT@ {ld} -lm'
    compile_to(exe, filehash(*objs) + c, c)
    return exe

def known_findings():
    out = []
    p = os.path.join(V, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m: out.append(m.groups())
    return out

def cmdline(exe, pid, tier, args): return [exe, '--prop', pid, '--tier', tier, *args]

def confirm(exe, pid, tier, args, where):
    """replays one case alone; true when it fails again"""
    for _ in range(2):
        r = subprocess.run(cmdline(exe, pid, tier, args) + ['--replay', where], env={**os.environ, **ENVX},
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        if r.returncode == 0: return False, r.stdout
    return True, r.stdout

LIMIT = dict(quick=420, thorough=7200)

def explore(cmd, out, limit):
    if os.path.exists(out): os.unlink(out)
    with open(out + '.err', 'w+') as ef:
        p = subprocess.Popen(cmd, env={**os.environ, **ENVX}, stderr=ef, start_new_session=True)
        try: rc = p.wait(limit)
        except subprocess.TimeoutExpired: rc = 'no answer'
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.wait()
        ef.seek(0); err = ef.read()[-2000:]
    os.unlink(out + '.err')
    if rc == 0 and os.path.exists(out):
        sys.stderr.write(err)
        d = json.load(open(out)); os.unlink(out); return d, ''
    if rc == 2: print(err, file=sys.stderr); sys.exit(3)  # wrong arguments, no memory
    return None, f'the harness ended with {rc}: ' + ' | '.join(l for l in err.splitlines() if re.search('ERROR|runtime error|SUMMARY|#[0-4] |ssert', l))[:1500]

def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    c = CHECKS[pid]
    tot = dict(states=0, transitions=0, cases=0, nontrivial=0)
    spaces = {}; samples = []; counters = {}; violations = []; unrepro = []; complete = True; knownhits = {}
    known = [k for k in known_findings() if k[0] == pid]
    exes = {}
    runs = [r for r in c['runs'] if len(r) < 4 or r[3] == 'both' or r[3] == tier]
    with cf.ThreadPoolExecutor(4) as ex:
        fut = {(r[0], r[1]): ex.submit(build, r[0], r[1]) for r in {(r[0], r[1]): r for r in runs}.values()}
        for k, f in fut.items():
            exes[k] = f.result()
    os.makedirs(f'{V}/evidence', exist_ok=True)
    os.makedirs(f'{V}/replays', exist_ok=True)
    t1 = time.time()
    for run in runs:
        harness, variant, args = run[0], run[1], list(run[2])
        exe = exes[(harness, variant)]
        out = f'{BUILD}/out_{pid}_{harness}_{variant}_{os.getpid()}.json'
        ka = []
        for k in known: ka += ['--known', k[1]]
        d = None; why = ''
        for attempt in range(2):
            d, why = explore(cmdline(exe, pid, tier, args) + ka + ['--limit', str(LIMIT[tier]), '--out', out], out, LIMIT[tier] + 120)
            if d is not None: break
        if d is None:  # twice: the library brings the harness itself down before or between the cases
            hit = dict(key='harness', where='run', desc=f'{harness} {variant} {" ".join(args)}', msg=why)
            path = f'{V}/replays/{pid}_{harness}_{variant}_run.json'
            json.dump(dict(property=pid, harness=harness, variant=variant, tier=tier, args=args, **hit, others=0), open(path, 'w'), indent=1)
            violations.append((path, hit)); complete = False; continue
        for k in tot: tot[k] += d[k]
        complete = complete and d['complete'] and d['cases'] + 0 >= d['total'] - len([f for f in d['fails'] if f['key'] in ('crash', 'hang')])
        tag = f'{harness}/{variant}'
        for k, v in d['spaces'].items(): spaces[f'{tag}/{k}'] = v
        for k, v in d['counters'].items(): counters[k] = counters.get(k, 0) + v
        samples += [f'{tag}/{s}' for s in d['samples']]
        for k in d['known']: knownhits.setdefault(k['key'], k)
        bykey = {}
        for f in d['fails']: bykey.setdefault(f['key'], []).append(f)
        for key, fs in bykey.items():
            hit = None
            for f in fs[:3]:
                ok, log = confirm(exe, pid, tier, args, f['where'])
                if not ok and f['key'] in ('crash', 'hang') and f['msg'].startswith('after the cases before it'):
                    ok = True  # was reproduced in a fresh process by the explorer itself
                if ok: hit = f; break
            if not hit: unrepro.append((tag, fs[0])); continue
            path = f'{V}/replays/{pid}_{harness}_{variant}_{re.sub(r"[^A-Za-z0-9]+", "_", key)}.json'
            json.dump(dict(property=pid, harness=harness, variant=variant, tier=tier, args=args, **hit, others=len(fs) - 1), open(path, 'w'), indent=1)
            violations.append((path, hit))
    for k in known:
        if k[1] in knownhits:
            print(f'KNOWN-FINDING: property={pid} {k[2]} (e.g. {knownhits[k[1]]["desc"][:160]})')
    for tag, f in unrepro:
        print(f'not reproduced, not reported: {tag} {f["where"]} {f["key"]} {f["msg"][:200]}', file=sys.stderr)
    cov = dict(spaces=spaces, exhaustive=complete, samples=samples[:24], counters=counters)
    if c['level'] == 'model_checking':
        cov.update(states=tot['states'], transitions=tot['transitions'], traces_validated_against_impl=tot['cases'])
    else:
        cov.update(evaluations=tot['cases'], distinct_nontrivial=tot['nontrivial'], rule=c.get('rule', ''), states=tot['states'])
    ev = dict(property=pid, tier=tier, seed=seed, level=c['level'], coverage=cov,
              assumptions=c.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    tmp = f'{V}/evidence/{pid}.json.tmp'
    json.dump(ev, open(tmp, 'w'), indent=1); os.rename(tmp, f'{V}/evidence/{pid}.json')
    print(f'{pid} {tier}: {tot["cases"]} executions, {tot["states"]} states, {tot["transitions"]} transitions, '
          f'{len(spaces)} spaces{"" if complete else " (stopped early)"}, build {t1-t0:.1f}s, total {time.time()-t0:.1f}s')
    for path, f in violations:
        print(f'  {f["key"]}: {f["msg"][:300]}\n    {f["desc"][:300]}')
        print(f'VIOLATION property={pid} replay={path}')
    sys.stdout.flush()
    sys.exit(1 if violations else 0)

def replay(path):
    d = json.load(open(path))
    exe = build(d['harness'], d['variant'])
    if d['where'] == 'run':
        r, why = explore(cmdline(exe, d['property'], d['tier'], d['args']) + ['--out', f'{BUILD}/replay.json'], f'{BUILD}/replay.json', 600)
        print(why or 'no failure'); sys.exit(1 if r is None else 0)
    r = subprocess.run(cmdline(exe, d['property'], d['tier'], d['args']) + ['--replay', d['where']], env={**os.environ, **ENVX})
    sys.exit(r.returncode)

def setup():
    todo = {(r[0], r[1]) for c in CHECKS.values() for r in c['runs']}
    with cf.ThreadPoolExecutor(3) as ex: list(ex.map(lambda t: build(*t), sorted(todo)))
    print(f'built {len(todo)} harnesses')

def manifest():
    m = dict(version=1, setup_cmd='python3 run.py setup', checks=[], not_applicable=[], notes='See DESIGN.md. Replay a violation with: python3 run.py replay <path>')
    for pid in sorted(CHECKS):
        c = CHECKS[pid]
        m['checks'].append(dict(property=pid, quick_cmd=f'python3 run.py check {pid} --tier quick', thorough_cmd=f'python3 run.py check {pid} --tier thorough',
            technique=c['technique'], level=c['level'], level_note=c['level_note']))
    for l in open(f'{V}/properties.jsonl'):
        p = json.loads(l)['id']
        if p not in CHECKS: m['not_applicable'].append(dict(property=p, reason='No check for it has been built yet.'))
    json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1); open(f'{V}/MANIFEST.json', 'a').write('\n')

if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == 'check':
        tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
        check(a[1], tier)
    elif a and a[0] == 'replay': replay(a[1])
    elif a and a[0] == 'setup': setup()
    elif a and a[0] == 'manifest': manifest()
    else: print(__doc__); sys.exit(2)
