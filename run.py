#!/usr/bin/env python3
"""Driver: builds the monitored workloads from /repo's working tree, runs them, judges what the monitors saw.

  run.py <property>            one check (tier from VERIF_TIER, seed from VERIF_SEED)
  run.py --replay <file>       run the case recorded in a replay file again
  run.py --setup               verify that the tool chain works
  run.py --run <unit> <cfgs> <mode or -> <first> <count>   one workload under some configurations, unjudged
Exit: 0 held on everything explored, 1 violation (VIOLATION line), 2 no verdict.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
HARN = os.path.join(VERIF, 'harness')
NPROC = max(2, min(8, os.cpu_count() or 2))
sys.path.insert(0, VERIF)
from checks import CONFIGS, UNITS, CHECKS  # noqa: E402

TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
PRINT_LOCK = threading.Lock()


def log(*a):
    with PRINT_LOCK:
        print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- build
def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'include'), HARN):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    h.update(json.dumps(CONFIGS, sort_keys=True).encode())
    h.update(REPO.encode())
    return h.hexdigest()[:20]


QUICK_SCALE = 6   # quick tier: case counts of the registry times this
CPU_CASE = 25    # seconds of processor time for one case; the slowest legitimate one takes about 3


class BuildError(Exception):
    def __init__(self, what, text, toolchain):
        super().__init__(what)
        self.what, self.text, self.toolchain = what, text, toolchain


def run_cmd(cmd, timeout, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')


def obj_list(unit, cfg):
    c = CONFIGS[cfg]
    srcs = list(UNITS[unit])
    if c.get('shim'):
        srcs.append(('ctxshim.cpp', ()))
    return srcs


def compile_obj(bdir, cfg, src, defs):
    c = CONFIGS[cfg]
    name = src.replace('.cpp', '') + ''.join(d.replace('-D', '_').replace('=', '') for d in defs) + '.o'
    out = os.path.join(bdir, cfg, name)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d.%d' % (os.getpid(), threading.get_ident())
    cmd = [c['cxx']] + c['flags'] + list(defs) + ['-w', '-MD', '-MF', tmp + '.d', '-I' + os.path.join(REPO, 'include'),
                                                   '-c', os.path.join(HARN, src), '-o', tmp]
    rc, o, e = run_cmd(cmd, 600)
    if rc is None:
        raise BuildError('compiler timeout %s %s' % (cfg, src), e, True)
    if rc != 0:
        tool = 'internal compiler error' in e or 'No space left' in e or 'Killed' in e or 'cannot execute' in e
        raise BuildError('%s does not compile (%s)' % (src, cfg), e[:6000], tool)
    deps = open(tmp + '.d').read()
    if '/usr/include/boost/coroutine2' in deps:
        raise BuildError('build picked up the system boost/coroutine2 instead of %s' % REPO, '', True)
    os.unlink(tmp + '.d')
    os.rename(tmp, out)
    return out


def build(pairs, pool):
    """pairs: (unit,cfg) -> {pair: binary or BuildError}"""
    th = tree_hash()
    base = os.path.join(VERIF, 'build')
    bdir = os.path.join(base, th)
    os.makedirs(bdir, exist_ok=True)
    os.utime(bdir)
    olds = sorted((d for d in os.listdir(base) if d != th), key=lambda d: os.path.getmtime(os.path.join(base, d)))
    for d in olds[:-3]:
        if time.time() - os.path.getmtime(os.path.join(base, d)) < 1200:
            continue      # perhaps in use by another run
        shutil.rmtree(os.path.join(base, d), ignore_errors=True)
    # one job per distinct object; heavy configurations first
    jobs = {}
    for unit, cfg in pairs:
        for src, defs in obj_list(unit, cfg):
            jobs[(cfg, src, tuple(defs))] = None
    order = sorted(jobs, key=lambda k: -CONFIGS[k[0]].get('cost', 1))
    futs = {k: pool.submit(compile_obj, bdir, *k) for k in order}
    errors = {}
    for k, f in futs.items():
        try:
            jobs[k] = f.result()
        except BuildError as ex:
            errors[k] = ex

    def link(pair):
        unit, cfg = pair
        for src, defs in obj_list(unit, cfg):
            if (cfg, src, tuple(defs)) in errors:
                return errors[(cfg, src, tuple(defs))]
        out = os.path.join(bdir, cfg, unit + '.bin')
        if os.path.exists(out):
            return out
        c = CONFIGS[cfg]
        tmp = out + '.%d.%d' % (os.getpid(), threading.get_ident())
        cmd = [c['cxx']] + c['flags'] + [jobs[(cfg, s, tuple(d))] for s, d in obj_list(unit, cfg)] + ['-o', tmp, '-lboost_context', '-pthread']
        rc, o, e = run_cmd(cmd, 300)
        if rc != 0:
            return BuildError('%s does not link (%s)' % (unit, cfg), e[:4000], False)
        os.rename(tmp, out)
        return out
    return dict(zip(pairs, pool.map(link, pairs)))


# ---------------------------------------------------------------- run
SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=99:halt_on_error=1:allocator_may_return_null=1:handle_segv=1:max_allocation_size_mb=8192',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1',
}


CLK = os.sysconf('SC_CLK_TCK')


def cpu_of(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            p = f.read().rsplit(')', 1)[1].split()
        return (int(p[11]) + int(p[12]) + int(p[13]) + int(p[14])) / CLK
    except (OSError, ValueError, IndexError):
        return None


def watched(cmd, env, work, tag, prog, wall, cpu_case, idle, stop):
    """runs a workload; ends it when one case has used cpu_case seconds of processor time ('hang'), when it
    makes no progress and uses no processor time for idle seconds ('hang'), when the wall limit is over
    ('slow') or when the check has its verdict already ('stopped'). Processor time, so that a busy machine
    cannot turn a slow case into a hanging one."""
    fo, fe = os.path.join(work, tag + '.o'), os.path.join(work, tag + '.e')
    with open(fo, 'wb') as o, open(fe, 'wb') as e:
        p = subprocess.Popen(cmd, stdout=o, stderr=e, stdin=subprocess.DEVNULL, env=env, start_new_session=True)
    why, t0, case, base, last_cpu, last_move = None, time.time(), None, 0.0, 0.0, time.time()
    pause = 0.005
    while p.poll() is None:
        time.sleep(pause)
        pause = min(0.2, pause * 1.5)
        now, c = time.time(), cpu_of(p.pid)
        try:
            with open(prog) as f:
                k = f.read(200)      # the number of the case and, for very long ones, how far it is
        except (OSError, IndexError):
            k = None
        if c is not None:
            if k != case:
                case, base = k, c
                last_move = now
            if c - last_cpu > 0.05:
                last_cpu, last_move = c, now
            if c - base > cpu_case or now - last_move > idle:
                why = 'hang'
        if now - t0 > wall:
            why = why or 'slow'
        if stop is not None and stop.is_set():
            why = why or 'stopped'
        if why:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            break
    txt = []
    for f in (fo, fe):
        with open(f, 'rb') as fh:
            txt.append(fh.read(4000000).decode('utf-8', 'replace'))
        os.unlink(f)
    return why, p.returncode, txt[0], txt[1]


class Outcome:
    """verdict of one process: kind in ok, fail, timeout, harness"""
    def __init__(self, kind, code='', case=None, detail='', data=None, output=''):
        self.kind, self.code, self.case, self.detail, self.data, self.output = kind, code, case, detail, data, output
        self.findings = []


def classify(rc, out, err, prog_path, data, why=None):
    both = out + '\n' + err
    m = re.search(r'^FAIL code=(\S+) case=(\d+) desc=\[(.*?)\] detail=(.*)$', out, re.M)
    if m:
        return Outcome('fail', m.group(1), int(m.group(2)), m.group(3) + ': ' + m.group(4), output=both)
    case = None
    try:
        with open(prog_path) as f:
            case = int(f.read(200).split()[0])
    except (OSError, ValueError, IndexError):
        pass
    if rc is None:
        return Outcome(why, why, case, 'no answer within the time limit', output=both)
    s = re.search(r'(ERROR: AddressSanitizer: \S+|runtime error: .*|WARNING: ThreadSanitizer: [a-z -]+|ERROR: ThreadSanitizer: \S+)', both)
    if s and (rc != 0):
        t = s.group(1)
        code = 'san.asan' if 'AddressSan' in t else 'san.tsan' if 'ThreadSan' in t else 'san.ubsan'
        return Outcome('fail', code, case, t[:300], output=both)
    if rc == 97:
        v = re.search(r'==\d+== (?!Memcheck|Copyright|Using|Command|For|Rerun|HEAP|LEAK)(.*)', err)
        return Outcome('fail', 'san.valgrind', case, v.group(1) if v else 'valgrind error', output=both)
    if rc == 0 and data is not None:
        return Outcome('ok', data=data, output=both)
    if rc in (3, 126, 127):
        return Outcome('harness', 'harness', case, 'exit %s: %s' % (rc, both[-400:]), output=both)
    if rc == 0:
        # ended with exit status 0 without finishing its cases (somebody called exit)
        return Outcome('fail', 'crash.exit0', case, 'process ended early with status 0', output=both)
    if rc == -9:
        # killed from outside (out of memory): cannot blame the code under test on this evidence alone
        return Outcome('harness', 'killed', case, 'process killed (SIGKILL)', output=both)
    name = 'signal %d' % -rc if rc < 0 else 'exit %d' % rc
    t = re.search(r'terminate called.*', both)
    return Outcome('fail', 'crash', case, name + (' ' + t.group(0) if t else ''), output=both)


def run_proc(binp, cfg, mode, seed, first, count, timeout, tag, extra=(), stop=None, cpu=CPU_CASE):
    work = os.path.join(VERIF, 'out', 'tmp.%d' % os.getpid())
    os.makedirs(work, exist_ok=True)
    outp = os.path.join(work, tag + '.json')
    prog = os.path.join(work, tag + '.prog')
    for p in (outp, prog):
        if os.path.exists(p):
            os.unlink(p)
    env = dict(os.environ)
    env.update(SAN_ENV)
    cmd = [binp, '--seed', str(seed), '--first', str(first), '--count', str(count), '--out', outp, '--progress', prog]
    if mode:
        cmd += ['--mode', mode]
    cmd += list(extra)
    if CONFIGS[cfg].get('valgrind'):
        cmd = ['valgrind', '-q', '--error-exitcode=97', '--exit-on-first-error=yes', '--track-origins=no'] + cmd
    k = (10 if CONFIGS[cfg].get('valgrind') else 1) * (10 if mode == 'deep' else 1)
    why, rc, o, e = watched(cmd, env, work, tag, prog, timeout, cpu * k, 100, stop)
    if why:
        rc = None
    data = None
    if rc == 0 and os.path.exists(outp):
        try:
            data = json.load(open(outp))
        except ValueError:
            data = None
    res = classify(rc, o, e, prog, data, why)
    res.findings = re.findall(r'^FINDING key=(\S+) (.*)$', o, re.M)
    for p in (outp, prog):
        if os.path.exists(p):
            os.unlink(p)
    return res


class Job:
    def __init__(self, unit, cfg, mode, first, count, timeout, extra=()):
        self.unit, self.cfg, self.mode, self.first, self.count, self.timeout, self.extra = unit, cfg, mode, first, count, timeout, tuple(extra)


def owns(prop, code, unit=None):
    """does an observation with this code refute this property?"""
    spec = CHECKS[prop]
    if unit not in ('engine', 't_counts', 't_types') and not code.startswith('harness'):
        return True
    if code.startswith(('crash', 'san.', 'hang', 'assert', 'build')):
        return True
    if code.startswith('harness'):
        return False
    rules = spec.get('own')
    if rules is None:
        return True
    return any(code == r or code.startswith(r + '.') for r in rules)


def run_job(prop, binp, job, idx, stop):
    """runs the range of a job, restarting after observations that belong to other properties"""
    res = {'evaluations': 0, 'hashes': set(), 'counters': {}, 'samples': [], 'viol': [], 'foreign': [], 'bad': [], 'findings': [], 'trace': {}, 'done': 0}
    first, end = job.first, job.first + job.count
    restarts = 0
    while first < end and not stop.is_set():
        tag = 'j%d_%d' % (idx, restarts)
        r = run_proc(binp, job.cfg, job.mode, SEED, first, end - first, job.timeout, tag, job.extra, stop)
        if r.kind == 'stopped':
            break
        if r.kind == 'hang' and r.case is not None:
            # once more, alone and with more time, before drawing any conclusion
            r3 = run_proc(binp, job.cfg, job.mode, SEED, r.case, 1, 400, tag + 's', job.extra, stop, CPU_CASE * 2)
            if r3.kind == 'stopped':
                break
            r = r3 if r3.kind == 'fail' else Outcome('fail', 'hang', r.case, 'does not terminate') if r3.kind == 'hang' else Outcome('harness', 'slow', r.case, 'too slow')
        elif r.kind in ('harness', 'slow', 'hang'):
            r = run_proc(binp, job.cfg, job.mode, SEED, first, end - first, job.timeout * 2, tag + 'r', job.extra, stop)
            if r.kind == 'stopped':
                break
            if r.kind in ('slow', 'hang'):
                r = Outcome('harness', 'slow', r.case, 'too slow')
        res['findings'] += r.findings
        if r.kind == 'ok':
            d = r.data
            res['evaluations'] += d['evaluations']
            res['hashes'].update(d['hashes'])
            for k, v in d['counters'].items():
                res['counters'][k] = max(res['counters'].get(k, 0), v) if k.startswith('max_') else res['counters'].get(k, 0) + v
            res['samples'] += d['samples']
            for k, v in d.get('trace', []):
                res['trace'][k] = v
            res['done'] += end - first
            break
        if r.kind == 'harness':
            res['bad'].append((job, r))
            break
        case = r.case if r.case is not None else first
        if owns(prop, r.code, job.unit):
            res['viol'].append((job, r, case))
            break
        res['foreign'].append((job, r, case))
        res['done'] += max(0, case - first)
        res['evaluations'] += max(0, case - first)
        first = case + 1
        restarts += 1
        if restarts > 12:
            break
    return res


def make_jobs(prop):
    jobs = []
    spec = CHECKS[prop]
    for ent in spec[TIER] if TIER in spec else spec['quick']:
        unit, cfgs, mode, count, chunk = ent[:5]
        opts = ent[5] if len(ent) > 5 else {}
        for cfg in cfgs:
            n = max(1, int(count * CONFIGS[cfg].get('scale', 1.0))) if not opts.get('fixed') else count
            ch = max(1, int(chunk * CONFIGS[cfg].get('scale', 1.0))) if not opts.get('fixed') else chunk
            if TIER == 'quick' and not opts.get('fixed'):
                n *= QUICK_SCALE
            f = 0
            while f < n:
                k = min(ch, n - f)
                jobs.append(Job(unit, cfg, mode, f, k, opts.get('timeout', 250), opts.get('extra', ())))
                f += k
    return jobs


def known_findings():
    ks = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m:
                ks.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return ks


def write_replay(prop, n, job, r, case):
    os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
    path = os.path.join(VERIF, 'out', '%s-%d.json' % (prop, n))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'unit': job.unit if job else None, 'cfg': job.cfg if job else None, 'mode': job.mode if job else None,
                   'extra': list(job.extra) if job else [], 'seed': SEED, 'case': case, 'first': job.first if job else 0,
                   'code': r.code, 'detail': r.detail, 'output': r.output[-8000:],
                   'replay': 'python3 %s --replay %s' % (os.path.join(VERIF, 'run.py'), path)}, f, indent=1)
    return path


def evidence(prop, t0, cov, viol, extra_assump=()):
    spec = CHECKS[prop]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    e = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': spec['level'], 'coverage': cov,
         'assumptions': spec.get('assumptions', []) + list(extra_assump), 'wall_s': round(time.time() - t0, 2), 'violations': viol}
    tmp = os.path.join(VERIF, 'evidence', prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(e, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))


def toolchain_ok():
    src = os.path.join(VERIF, 'out', 'tc%d.cpp' % os.getpid())
    os.makedirs(os.path.dirname(src), exist_ok=True)
    with open(src, 'w') as f:
        f.write('#include <boost/context/fiber.hpp>\n#include <boost/version.hpp>\n#include <map>\nint main() { return 0; }\n')
    ok = True
    for cxx in ('g++', 'clang++'):
        rc, o, e = run_cmd([cxx, '-std=c++17', src, '-o', src + '.bin', '-lboost_context'], 120)
        ok = ok and rc == 0
    for p in (src, src + '.bin'):
        if os.path.exists(p):
            os.unlink(p)
    return ok


def cleanup():
    shutil.rmtree(os.path.join(VERIF, 'out', 'tmp.%d' % os.getpid()), ignore_errors=True)


def check(prop):
    t0 = time.time()
    spec = CHECKS[prop]
    jobs = make_jobs(prop)
    pairs = sorted({(j.unit, j.cfg) for j in jobs})
    cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': spec['rule'], 'samples': []}
    with cf.ThreadPoolExecutor(NPROC) as pool:
        bins = build(pairs, pool)
        errs = {k: v for k, v in bins.items() if isinstance(v, BuildError)}
        if errs:
            # The legal programs of the workloads must be accepted. Which configurations the sources compile in is
            # the subject of the checks that own compilation; elsewhere the remaining configurations are judged.
            first = errs[sorted(errs)[0]]
            dead = sorted({u for u, c in errs if all((u, c2) in errs for u2, c2 in pairs if u2 == u)})
            for k in sorted(errs):
                print('NOTE: %s' % errs[k].what)
            log(first.text[:3000])
            if any(e.toolchain for e in errs.values()) or not toolchain_ok():
                print('ERROR property=%s %s' % (prop, first.what))
                cov['samples'] = ['no build']
                evidence(prop, t0, cov, 0)
                return 2
            if spec.get('compile_owner') or dead:
                ex = errs[min(k for k in errs if not dead or k[0] in dead)]
                path = write_replay(prop, 0, None, Outcome('fail', 'build', None, ex.what, output=ex.text), None)
                cov['samples'] = [ex.what]
                evidence(prop, t0, cov, 1)
                print('VIOLATION property=%s replay=%s' % (prop, path))
                print('  legal program rejected: %s' % ex.what)
                return 1
            jobs = [j for j in jobs if (j.unit, j.cfg) not in errs]
        tb = time.time() - t0
        stop = threading.Event()
        # spread: long jobs first
        order = sorted(range(len(jobs)), key=lambda i: -jobs[i].count * CONFIGS[jobs[i].cfg].get('cost', 1))
        futs = {}
        for i in order:
            futs[pool.submit(run_job, prop, bins[(jobs[i].unit, jobs[i].cfg)], jobs[i], i, stop)] = i
        results = {}
        for f in cf.as_completed(futs):
            i = futs[f]
            results[i] = f.result()
            if results[i]['viol']:
                stop.set()
    viol, foreign, bad, findings = [], [], [], []
    hashes, counters, per = {}, {}, {}
    evals = done = 0
    traces = {}
    for i in sorted(results):
        r, j = results[i], jobs[i]
        viol += r['viol']; foreign += r['foreign']; bad += r['bad']
        findings += [(j, k, d) for k, d in r['findings']]
        evals += r['evaluations']; done += r['done']
        hashes.setdefault((j.unit, j.mode), set()).update(r['hashes'])
        for k, v in r['counters'].items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith('max_') else counters.get(k, 0) + v
        k = '%s:%s:%s' % (j.unit, j.mode or '-', j.cfg)
        per[k] = per.get(k, 0) + r['evaluations']
        for s in r['samples']:
            if len(cov['samples']) < 6 and s not in cov['samples']:
                cov['samples'].append(s)
        if r['trace']:
            traces.setdefault((j.unit, j.mode), {}).setdefault(j.cfg, {}).update(r['trace'])
    if spec.get('compare') and not viol:
        # same program, different configuration: the event traces must be identical
        ncmp = 0
        for (unit, mode), by in sorted(traces.items()):
            cfgs = sorted(by)
            for c in cfgs[1:]:
                common = sorted(set(by[cfgs[0]]) & set(by[c]))
                ncmp += len(common)
                for k in common:
                    if by[cfgs[0]][k] != by[c][k]:
                        jj = Job(unit, c, mode, k, 1, 60, ('--trace', '1'))
                        viol.append((jj, Outcome('fail', 'config.divergence', k, 'unit %s mode %s program %d: trace %s under %s but %s under %s' % (
                            unit, mode, k, by[cfgs[0]][k], cfgs[0], by[c][k], c)), k))
                        break
        counters['trace_comparisons'] = ncmp
    known = known_findings().get(prop, {})
    seen_known = {}
    for j, k, d in findings:
        if k in known:
            seen_known[k] = d
        else:
            viol.append((j, Outcome('fail', k, j.first, d), j.first))
    total = sum(j.count for j in jobs)
    cov['evaluations'] = evals
    cov['distinct_nontrivial'] = sum(len(s) for s in hashes.values())
    cov['observed'] = counters
    cov['runs_per_workload_and_configuration'] = per
    cov['configurations'] = {c: CONFIGS[c]['desc'] for c in sorted({j.cfg for j in jobs})}
    cov['build_s'] = round(tb, 1)
    if foreign:
        cov['observations_for_other_properties'] = ['%s case %s %s: %s' % (j.unit, c, r.code, r.detail[:200]) for j, r, c in foreign[:10]]
    if seen_known:
        cov['known_findings_seen'] = sorted(seen_known)
    if not cov['samples']:
        cov['samples'] = ['%s %s cases %d..%d' % (jobs[0].unit, jobs[0].mode, jobs[0].first, jobs[0].first + jobs[0].count - 1)]
    evidence(prop, t0, cov, len(viol))
    cleanup()
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    if viol:
        for n, (j, r, case) in enumerate(viol[:3]):
            path = write_replay(prop, n, j, r, case)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  %s [%s %s cfg=%s case=%s] %s' % (r.code, j.unit, j.mode, j.cfg, case, r.detail[:600]))
        return 1
    if bad:
        for j, r in bad[:3]:
            print('ERROR property=%s %s %s cfg=%s: %s %s' % (prop, j.unit, j.mode, j.cfg, r.code, r.detail[:300]))
        return 2
    for j, r, c in foreign[:3]:
        print('NOTE: observation for another property: %s [%s cfg=%s case=%s] %s' % (r.code, j.unit, j.cfg, c, r.detail[:300]))
    if done * 2 < total or evals == 0 or cov['distinct_nontrivial'] == 0:
        print('INCONCLUSIVE property=%s only %d of %d cases explored' % (prop, done, total))
        return 2
    for k, lo in spec.get('floors', {}).items():
        if counters.get(k, 0) < lo and not foreign:
            print('INCONCLUSIVE property=%s observed %s=%d, expected at least %d' % (prop, k, counters.get(k, 0), lo))
            return 2
    print('HELD property=%s tier=%s seed=%d executions=%d distinct=%d wall=%.1fs (build %.1fs)' % (
        prop, TIER, SEED, evals, cov['distinct_nontrivial'], time.time() - t0, tb))
    return 0


def replay(path):
    d = json.load(open(path))
    if not d.get('unit'):
        print(d['detail']); print(d['output']); return 1
    global SEED
    SEED = d['seed']
    with cf.ThreadPoolExecutor(NPROC) as pool:
        b = build([(d['unit'], d['cfg'])], pool)[(d['unit'], d['cfg'])]
    if isinstance(b, BuildError):
        print(b.what, b.text)
        return 1
    for first, n in ((d['case'], 1), (d['first'], d['case'] - d['first'] + 1)):
        r = run_proc(b, d['cfg'], d['mode'], SEED, first, n, 600, 'replay', tuple(d.get('extra', ())))
        print('replay cases %d..%d: %s %s %s' % (first, first + n - 1, r.kind, r.code, r.detail))
        if r.kind != 'ok':
            print(r.output[-6000:])
            cleanup()
            return 1
    cleanup()
    return 0


def run_unit(unit, cfgs, mode, first, count):
    with cf.ThreadPoolExecutor(NPROC) as pool:
        t0 = time.time()
        bins = build([(unit, c) for c in cfgs], pool)
        print('build %.1fs' % (time.time() - t0))

        def one(c):
            b = bins[(unit, c)]
            if isinstance(b, BuildError):
                return '%s: %s\n%s' % (c, b.what, b.text)
            t = time.time()
            r = run_proc(b, c, '' if mode == '-' else mode, SEED, int(first), int(count), 900, 'run' + c)
            return '%s: %s %s %s %.1fs %s' % (c, r.kind, r.code, r.detail if r.kind != 'ok' else '', time.time() - t, json.dumps(r.data['counters']) if r.data else r.output[-3000:])
        for x in pool.map(one, cfgs):
            print(x, flush=True)
    cleanup()
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 3
    if sys.argv[1] == '--setup':
        ok = toolchain_ok()
        print('toolchain', 'ok' if ok else 'BROKEN')
        return 0 if ok else 1
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    if sys.argv[1] == '--run':
        return run_unit(*sys.argv[2:7])
    if sys.argv[1] not in CHECKS:
        print('unknown property', sys.argv[1])
        return 3
    try:
        return check(sys.argv[1])
    except Exception:
        import traceback
        traceback.print_exc()
        print('ERROR property=%s internal error of the check' % sys.argv[1])
        cleanup()
        return 2


if __name__ == '__main__':
    sys.exit(main())
