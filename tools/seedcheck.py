"""seedcheck.py [id ...] [--props P01,C01]: run the check of each planted bug's property against a copy of /repo with the bug. Several seeds with SEEDS=1,2,3."""
import sys, os, json, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir('/verif/seeded'))
seeds = os.environ.get('SEEDS', '1').split(','); par = int(os.environ.get('PAR', '3'))
def run(i):
    w = tempfile.mkdtemp(prefix='sc.', dir='/tmp'); repo = w + '/repo'; res = []
    try:
        prop = json.load(open('/verif/seeded/%s/meta.json' % i))['property']
        props = next((a[8:].split(',') for a in sys.argv if a.startswith('--props=')), [prop])
        subprocess.check_call(['cp', '-a', '/repo', repo]); subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '--', '.'])
        subprocess.check_call(['git', '-C', repo, 'apply', '/verif/seeded/%s/patch.diff' % i])
        v = w + '/verif'; os.makedirs(v)
        for n in ('run.py', 'registry.py', 'harness', 'known-findings.txt'):
            (shutil.copytree if os.path.isdir('/verif/' + n) else shutil.copy)('/verif/' + n, v + '/' + n)
        for p in props:
            for s in seeds:
                r = subprocess.run(['unshare', '-Urmn', 'bash', '-c', 'ip link set lo up; mount --bind "%s" /repo && cd %s && VERIF_SEED=%s VERIF_TIER=quick timeout 900 python3 run.py check %s' % (repo, v, s, p)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                t = r.stdout.decode(errors='replace'); vi = [l[4:90] for l in t.split('\n') if l.startswith('--- ')]
                res.append('%s seed=%s %s %s' % (p, s, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'NO-ANSWER rc=%d %s' % (r.returncode, t[-300:])), vi[:2]))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return i + ': ' + '; '.join(res)
with ThreadPoolExecutor(par) as ex:
    for r in ex.map(run, ids): print(r, flush=True)
