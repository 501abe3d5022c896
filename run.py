#!/usr/bin/env python3
"""Driver of the runtime monitors.

  run.py check <PROP> [--thorough]     run one check (VERIF_SEED / VERIF_TIER from the environment)
  run.py replay <FILE>                 re-run the single case of a recorded violation, verbosely
  run.py build                         compile every harness (setup_cmd)

Exit 0: held on everything observed.  Exit 1 + "VIOLATION property=.. replay=..": violated.
Exit 2: the check itself could not give an answer (harness error, inconclusive, observed nothing).
"""
import sys, os, json, subprocess, hashlib, time, re, tempfile, shutil, struct, signal, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import PROPS
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, '_build')
NPROC = 8
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')

BASE = ['-std=c++17', '-g1', '-O1', '-fno-omit-frame-pointer', '-Wno-array-bounds', '-D_FILE_OFFSET_BITS=64', '-D__ABC__LINUX=1', '-D__ABC__OPENSSL=1', '-D_GLIBCXX_ASSERTIONS', '-I', os.path.join(HERE, 'harness')]
VARIANTS = {
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=alignment'],
    'tsan': ['-fsanitize=thread'],
    'plain': [],
}
ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:handle_abort=1:allocator_may_return_null=1:symbolize=1:strict_string_checks=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=77',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:history_size=4:second_deadlock_stack=1:report_signal_unsafe=0',
    'TZ': 'UTC', 'LC_ALL': 'C.UTF-8',
}

def log(*a):
    print(*a, flush=True)

def err(msg):
    log('ERROR: ' + msg)
    sys.exit(2)

def tree_hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.h'), recursive=True)) + sorted(glob.glob(os.path.join(HERE, 'harness', '*'))) + sorted(glob.glob(os.path.join(REPO, 'samples', '**', '*.h'), recursive=True)) + sorted(glob.glob(os.path.join(REPO, 'samples', '**', '*.cpp'), recursive=True))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]

def compile_one(src, variant, extra=(), prop=''):
    os.makedirs(BUILD, exist_ok=True)
    tag = hashlib.sha256((tree_hash() + src + variant + prop + ' '.join(extra) + ' '.join(BASE) + ' '.join(VARIANTS[variant]) + REPO).encode()).hexdigest()[:16]
    stem = '%s-%s.%s' % (src.replace('.cpp', ''), prop, variant)
    exe = os.path.join(BUILD, '%s.%s' % (stem, tag))
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(BUILD, stem + '.*')):
        try: os.remove(old)
        except OSError: pass
    tmp = exe + '.tmp%d' % os.getpid()
    flags = BASE + VARIANTS[variant] + ['-I', os.path.join(REPO, 'src'), '-I', REPO, '-DREPO_DIR="%s"' % REPO, '-D' + prop]
    path = os.path.join(HERE, 'harness', src)
    nparts = max([0] + [int(x) for x in re.findall(r'VH_IS_PART\((\d+)\)', open(path).read().split('#ifdef ' + prop + '\n')[-1].split('#endif // ' + prop)[0])]) + 1
    def obj(k):
        o = '%s.%d.o' % (tmp, k)
        p = subprocess.run(['g++'] + flags + ['-DVH_PART=%d' % k, '-c', path, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return o, p.returncode, p.stdout.decode(errors='replace')
    with ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(obj, range(nparts)))
    bad = next((x for x in objs if x[1] != 0), None)
    if not bad:
        p = subprocess.run(['g++'] + flags + [x[0] for x in objs] + ['-o', tmp, '-lpthread', '-lm', '-lssl', '-lcrypto', '-ldl'] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    for x in objs:
        if os.path.exists(x[0]): os.remove(x[0])
    if bad: err('cannot compile %s:\n%s' % (src, bad[2][:2500]))
    if p.returncode != 0: err('cannot link %s:\n%s' % (src, p.stdout.decode(errors='replace')[:2500]))
    os.rename(tmp, exe)
    return exe

# ---------------------------------------------------------------- crash output -> key
def norm_fn(f):
    f = re.sub(r'\[abi:\w+\]', '', f)
    # drop template arguments and parameters
    out = ''; depth = 0
    f = f.replace('operator<<', 'operator_shl').replace('operator>>', 'operator_shr').replace('operator->', 'operator_arrow').replace('operator<', 'operator_lt').replace('operator>', 'operator_gt')
    for c in f:
        if c == '<': depth += 1
        elif c == '>': depth = max(0, depth - 1)
        elif c == '(' and depth == 0: break
        elif depth == 0: out += c
    return out.strip().split(' ')[-1]

def frames(text):
    res = []
    for m in re.finditer(r'^\s*#\d+ 0x[0-9a-f]+ in (.*)$', text, re.M):
        res.append(m.group(1))
    return res

def repo_frame(text):
    for f in frames(text):
        if (REPO + '/src/') in f:
            return norm_fn(f)
    for f in frames(text):
        if '/harness/' in f:
            return norm_fn(f)
    fr = frames(text)
    return norm_fn(fr[0]) if fr else '?'

def crash_key(rc, text):
    m = re.search(r'terminate called after throwing an instance of \'([^\']+)\'', text)
    if m:
        w = re.search(r'what\(\):\s*(.*)', text)
        what = re.sub(r'[^A-Za-z_:()<>. -]', '', w.group(1))[:60].strip() if w else ''
        return 'terminate:%s:%s' % (re.sub(r'<.*', '', m.group(1)), what)
    if 'terminate called' in text:
        return 'terminate:' + repo_frame(text)
    m = re.search(r'runtime error: (.*)', text)
    if m:
        return 'ubsan:%s@%s' % (re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(1))[:80], repo_frame(text))
    m = re.search(r'ERROR: AddressSanitizer:? (\S+)', text)
    if m:
        return 'asan:%s@%s' % (m.group(1), repo_frame(text))
    m = re.search(r'Assertion .* failed', text)
    if m:
        return 'assert:' + repo_frame(text)
    if rc < 0:
        try: n = signal.Signals(-rc).name
        except ValueError: n = str(-rc)
        return 'signal:%s@%s' % (n, repo_frame(text))
    return 'exit:%d@%s' % (rc, repo_frame(text))

def tsan_keys(text):
    keys = {}
    for blk in re.split(r'={10,}', text):
        m = re.search(r'WARNING: ThreadSanitizer: ([^(\n]*)', blk)
        if not m: continue
        kind = m.group(1).strip().replace(' ', '-')
        # the stacks of the two accesses
        stacks = re.split(r'\n\s*\n', blk)
        tops = []
        for s in stacks[:3]:
            for f in re.findall(r'^\s*#\d+ (.*)$', s, re.M):
                if (REPO + '/src/') in f:
                    tops.append(norm_fn(f)); break
        keys['tsan:%s@%s' % (kind, '|'.join(sorted(set(tops[:2]))))] = blk[:3000]
    return keys

# ---------------------------------------------------------------- running
class Shard:
    pass

def read_progress(path):
    try:
        b = open(path, 'rb').read(24)
        return struct.unpack('QQQ', b)
    except Exception:
        return (0, 0, 0)

def run_proc(cmd, logf, progress, hang_s, hard_deadline):
    """Run; return (rc, hung). hung if the progress word does not change for hang_s seconds."""
    env = dict(os.environ); env.update(ENV)
    with open(logf, 'wb') as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, start_new_session=True)
    last = None; t0 = time.time(); nap = 0.01
    while True:
        rc = p.poll()
        if rc is not None:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            return rc, False
        cur = read_progress(progress)[2]
        now = time.time()
        if cur != last:
            last = cur; t0 = now
        limit = hard_deadline()
        if now - t0 > hang_s or now > limit or os.path.getsize(logf) > 200000000:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.wait()
            return None, (now <= limit)
        time.sleep(nap); nap = min(0.2, nap * 1.3)

class Stop:
    """Once a case is confirmed to hang, the verdict is known: the other shards get a little more time, and then nothing more is run."""
    def __init__(self, deadline): self.deadline = deadline; self.last = deadline + 30; self.found = False
    def __call__(self): return self.deadline
    def hang_found(self): self.found = True; self.deadline = min(self.deadline, time.time() + 30)

def shard_worker(exe, prop, cfg, seed, ncases, sh, nsh, workdir, thorough, deadline):
    viols = []; stats = []; inconclusive = []; start = sh; restarts = 0
    hang_s = cfg.get('hang_s', 40)
    while start < ncases:
        out = os.path.join(workdir, 'o%d.%d' % (sh, restarts)); scr = os.path.join(workdir, 's%d.%d' % (sh, restarts)); os.makedirs(scr, exist_ok=True)
        cmd = [exe, '--prop', prop, '--seed', str(seed), '--cases', str(ncases), '--start', str(start), '--stride', str(nsh), '--out', out, '--scratch', scr] + (['--thorough'] if thorough else [])
        rc, hung = run_proc(cmd, out + '.log', out + '.progress', hang_s, deadline)
        prog = read_progress(out + '.progress')
        text = open(out + '.log', 'rb').read(4000000).decode(errors='replace')
        if os.path.exists(out + '.viol'):
            for l in open(out + '.viol'):
                try:
                    v = json.loads(l); viols.append((v['key'], v['case'], v['msg']))
                except ValueError: pass
        if os.path.exists(out + '.stats'):
            try: stats.append((json.load(open(out + '.stats')), open(out + '.sigs', 'rb').read()))
            except ValueError: pass
        shutil.rmtree(scr, ignore_errors=True)
        if 'WARNING: ThreadSanitizer' in text:
            for k, blk in tsan_keys(text).items():
                viols.append((k, prog[0], blk))
        if rc == 0 or (rc == 66 and 'ThreadSanitizer' in text and prog[1] == 2):
            break
        if rc == 99 or 'HARNESS-ERROR' in text:
            inconclusive.append('harness error: ' + text[-800:]); break
        if prog[1] != 1:
            inconclusive.append('harness did not start: rc=%s %s' % (rc, text[-800:])); break
        case = prog[0]
        if rc is None and not hung:
            if not deadline.found: inconclusive.append('run exceeded its total time')
            break
        if rc is None:
            # no progress: confirm alone, with a longer limit, before calling it a hang
            limit2 = min(time.time() + hang_s * 2 + 5, deadline.last)
            out2 = out + '.re'; scr2 = scr + '.re'; os.makedirs(scr2, exist_ok=True)
            rc2, hung2 = run_proc([exe, '--prop', prop, '--seed', str(seed), '--cases', str(ncases), '--only', str(case), '--out', out2, '--scratch', scr2] + (['--thorough'] if thorough else []), out2 + '.log', out2 + '.progress', hang_s * 2, lambda: deadline() if deadline.found else max(deadline(), limit2))
            shutil.rmtree(scr2, ignore_errors=True)
            if rc2 is None and hung2:
                viols.append(('hang', case, 'no progress within %d s, twice' % hang_s)); deadline.hang_found()
            elif deadline.found:
                break
            elif rc2 == 0 or rc2 is None:
                inconclusive.append('case %d stalled once and finished when repeated' % case)
            else:
                t2 = open(out2 + '.log', 'rb').read(4000000).decode(errors='replace')
                viols.append((crash_key(rc2, t2), case, t2[-3000:]))
            if os.path.exists(out2 + '.viol'):
                for l in open(out2 + '.viol'):
                    v = json.loads(l); viols.append((v['key'], v['case'], v['msg']))
        else:
            m = re.search(r'(terminate called|runtime error|ERROR: AddressSanitizer)', text)
            frag = text[max(0, m.start() - 200):m.start() + 3500] if m else text[-3000:]
            viols.append((crash_key(rc, text), case, frag))
        start = case + nsh; restarts += 1
        if restarts > cfg.get('max_restarts', 6) or deadline.found:
            break
    return viols, stats, inconclusive

def load_known():
    known = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)$', l.strip())
            if m: known.append((m.group(1), m.group(2), m.group(3)))
    return known

def write_evidence(prop, cfg, tier, wall, evals, sigs, counters, distinct, samples, nviol, exes):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    cov = {'evaluations': evals, 'distinct_nontrivial': len(sigs), 'rule': cfg['rule'], 'samples': samples[:6], 'observed': counters, 'observed_distinct': {k: len(v) for k, v in distinct.items()}, 'builds': exes}
    json.dump({'property': prop, 'tier': tier, 'seed': SEED, 'level': cfg.get('level', 'exploration'), 'coverage': cov, 'assumptions': cfg.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': nviol},
              open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)

def check(prop, thorough):
    t0 = time.time()
    cfg = PROPS[prop]
    tier = 'thorough' if thorough else 'quick'
    evp = os.path.join(HERE, 'evidence', prop + '.json')
    if os.path.exists(evp): os.remove(evp)
    workdir = tempfile.mkdtemp(prefix='vh.%s.' % prop, dir=os.environ.get('TMPDIR', '/tmp'))
    os.chmod(workdir, 0o755)
    deadline = Stop(t0 + (3 * 3600 if thorough else 800))
    viols = []; incon = []; counters = {}; distinct = {}; sigs = set(); samples = []; evals = 0; exes = []
    try:
        for run in cfg['runs']:
            if deadline.found: break
            exe = compile_one(run['src'], run.get('variant', 'asan'), run.get('extra', ()), run.get('prop', prop))
            exes.append('%s/%s' % (run['src'], run.get('variant', 'asan')))
            n = run['thorough'] if thorough else run['quick']
            nsh = min(run.get('shards', NPROC), n)
            wd = os.path.join(workdir, run['src'] + run.get('variant', 'asan')); os.makedirs(wd)
            with ThreadPoolExecutor(nsh) as ex:
                res = list(ex.map(lambda sh: shard_worker(exe, run.get('prop', prop), dict(cfg, **run), SEED, n, sh, nsh, wd, thorough, deadline), range(nsh)))
            for v, st, inc in res:
                viols += [(k, c, m, run) for k, c, m in v]; incon += inc
                for s, b in st:
                    evals += s['evals']
                    for k, x in s['counters'].items(): counters[k] = counters.get(k, 0) + x
                    for k, x in s['distinct'].items(): distinct.setdefault(k, set()).update(x)
                    samples += s['samples'][:1]
                    sigs.update(b[i:i + 8] for i in range(0, len(b), 8))
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    # verdict
    known = load_known()
    new = {}; hit = {}
    for k, c, m, run in viols:
        kf = next((x for x in known if x[0] == prop and x[1] == k), None)
        if kf: hit.setdefault(kf[1], kf)
        else: new.setdefault(k, (c, m, run))
    for x in known:
        if x[0] == prop: log('KNOWN-FINDING: property=%s %s' % (prop, x[2]))
    write_evidence(prop, cfg, tier, time.time() - t0, evals, sigs, counters, distinct, samples, len(new), exes)
    if new:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        for k, (c, m, run) in sorted(new.items()):
            f = os.path.join(HERE, 'replays', '%s-%s.json' % (prop, hashlib.sha256(k.encode()).hexdigest()[:8]))
            json.dump({'property': prop, 'key': k, 'case': c, 'seed': SEED, 'tier': tier, 'run': {kk: vv for kk, vv in run.items()}, 'message': m}, open(f, 'w'), indent=1)
            log('--- %s (case %s): %s' % (k, c, m[:1500]))
            log('VIOLATION property=%s replay=%s' % (prop, f))
        return 1
    missing = [(k, n, counters.get(k, 0)) for k, n in cfg.get('require', {}).items() if counters.get(k, 0) < n]
    if incon:
        # a single stall that did not repeat is reported but decides nothing
        hard = [i for i in incon if 'finished when repeated' not in i]
        for i in incon: log('INCONCLUSIVE: ' + i)
        if hard: return 2
    if missing:
        log('ERROR: the run observed too little: ' + ', '.join('%s %d<%d' % (k, h, n) for k, n, h in missing)); return 2
    if evals == 0 or not sigs:
        log('ERROR: nothing was evaluated'); return 2
    log('OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs %s' % (prop, tier, SEED, evals, len(sigs), time.time() - t0, json.dumps(counters)))
    return 0

def replay(f):
    r = json.load(open(f)); run = r['run']
    exe = compile_one(run['src'], run.get('variant', 'asan'), run.get('extra', ()), run.get('prop', r['property']))
    wd = tempfile.mkdtemp(prefix='vh.replay.'); os.makedirs(wd + '/s')
    env = dict(os.environ); env.update(ENV)
    cmd = [exe, '--prop', run.get('prop', r['property']), '--seed', str(r['seed']), '--cases', '100000000', '--only', str(r['case']), '--verbose', '--out', wd + '/o', '--scratch', wd + '/s'] + (['--thorough'] if r['tier'] == 'thorough' else [])
    print(' '.join(cmd))
    try:
        p = subprocess.run(cmd, env=env)
        ok = p.returncode == 0 and not os.path.exists(wd + '/o.viol')
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    print('replay: %s' % ('no violation' if ok else 'violation reproduced'))
    return 0 if ok else 1

def build_all():
    todo = []
    for p, cfg in PROPS.items():
        for run in cfg['runs']:
            t = (run['src'], run.get('variant', 'asan'), tuple(run.get('extra', ())), run.get('prop', p))
            if t not in todo: todo.append(t)
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda t: compile_one(*t), todo))
    log('built %d harnesses' % len(todo))
    return 0

if __name__ == '__main__':
    a = sys.argv[1:]
    if not a: sys.exit(__doc__)
    if a[0] == 'check':
        sys.exit(check(a[1], '--thorough' in a or (os.environ.get('VERIF_TIER') == 'thorough')))
    elif a[0] == 'replay': sys.exit(replay(a[1]))
    elif a[0] == 'build': sys.exit(build_all())
    elif a[0] == 'list': print(' '.join(PROPS))
    else: sys.exit(__doc__)
