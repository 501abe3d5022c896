"""plant.py SPEC.py [id ...]: make, confirm and store planted bugs.
SPEC.py defines BUGS = [dict(id, prop, file, edits=[(old,new)...] (or edits=[(file,old,new)]), demo=<C++ text>, needs, breaks, libs?, flags?)].
Each is applied to a scratch copy of /repo which is bind-mounted over /repo in a private namespace; kept only if it builds, passes
the stable tests, and the demo is 0 without and nonzero with it."""
import re, sys, os, json, subprocess, tempfile, shutil, runpy
from concurrent.futures import ThreadPoolExecutor
DEMO_SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -O1 -g %(flags)s -D__ABC__LINUX=1 -D__ABC__OPENSSL=1 -I "$PWD/src" "$here/demo.cpp" -o "$d/demo" -lpthread -lssl -lcrypto || exit 98
cp "$here"/*.pem "$d"/ 2>/dev/null
cd "$d" || exit 97
timeout %(timeout)s ./demo
'''
def ns(cmd, repo):
    return subprocess.run(['unshare', '-Urmn', 'bash', '-c', 'ip link set lo up; mount --bind "%s" /repo && cd /repo && %s' % (repo, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
def plant(b):
    w = tempfile.mkdtemp(prefix='plant.', dir='/tmp'); repo = w + '/repo'
    try:
        subprocess.check_call(['cp', '-a', '/repo', repo]); subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '--', '.'])
        d = w + '/demo'; os.makedirs(d)
        if 'demo' in b: open(d + '/demo.cpp', 'w').write(b['demo'])
        for n, t in b.get('files', {}).items(): open(d + '/' + n, 'w').write(t)
        open(d + '/demo.sh', 'w').write(b.get('sh') or DEMO_SH % dict(flags=b.get('flags', ''), timeout=b.get('timeout', 120)))
        os.chmod(d + '/demo.sh', 0o755)
        p = ns('bash %s/demo.sh' % d, repo)
        if p.returncode != 0: return '%s: demo fails on clean tree rc=%d\n%s' % (b['id'], p.returncode, p.stdout.decode(errors='replace')[-1500:])
        for e in b['edits']:
            f, old, new = e if len(e) == 3 else (b['file'],) + tuple(e)
            s = open(repo + '/' + f, newline='').read()
            m = list(re.finditer(r'\s+'.join(re.escape(w) for w in old.split()), s))
            if len(m) != 1: return '%s: edit matches %d times: %s' % (b['id'], len(m), old[:100])
            open(repo + '/' + f, 'w', newline='').write(s[:m[0].start()] + (new.strip('\n').replace('\n', '\r\n') if '\r\n' in s else new.strip('\n')) + s[m[0].end():])
        diff = subprocess.check_output(['git', '-C', repo, 'diff'])
        # removed lines must be original
        base = subprocess.check_output(['git', '-C', repo, 'rev-list', '--max-parents=0', 'HEAD']).decode().split()[0]
        own = 0; tot = 0
        for f in set(l[6:] for l in diff.decode().split('\n') if l.startswith('--- a/')):
            hunks = subprocess.check_output(['git', '-C', repo, 'diff', '-U0', '--', f]).decode()
            bl = subprocess.check_output(['git', '-C', repo, 'blame', '-s', '-l', 'HEAD', '--', f]).decode().split('\n')
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', hunks, re.M):
                a = int(m.group(1)); n = int(m.group(2) or 1)
                for i in range(a, a + n):
                    tot += 1; own += not bl[i - 1].lstrip('^').startswith(base[:39])
        if own or not tot: return '%s: touches %d own of %d removed lines' % (b['id'], own, tot)
        warn = '' if tot and own == 0 else '  (touches %d own of %d removed lines)' % (own, tot)
        p = ns('bash /opt/vp/build.sh >/tmp/null.$$ 2>&1 || { tail -20 /tmp/null.$$; rm -f /tmp/null.$$; exit 1; }; rm -f /tmp/null.$$; bash /opt/vp/test.sh %s/t.json >/dev/null 2>&1; true' % w, repo)
        if p.returncode != 0: return '%s: does not build\n%s' % (b['id'], p.stdout.decode(errors='replace')[-1500:])
        t = json.load(open(w + '/t.json')); bl = json.load(open('/opt/vp/BASELINE.json'))
        miss = [x for x in bl['stable'] if x not in t['passed']]
        if miss: return '%s: tests catch it: %s' % (b['id'], miss[:4])
        p = ns('bash %s/demo.sh' % d, repo)
        if p.returncode == 0 or p.returncode in (98, 97, 99): return '%s: demo rc=%d with the bug\n%s' % (b['id'], p.returncode, p.stdout.decode(errors='replace')[-800:])
        out = '/verif/seeded/' + b['id']; shutil.rmtree(out, ignore_errors=True); shutil.copytree(d, out)
        open(out + '/patch.diff', 'wb').write(diff)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(out + '/meta.json', 'w'), indent=1)
        return '%s: planted (demo rc=%d)%s' % (b['id'], p.returncode, warn)
    finally:
        shutil.rmtree(w, ignore_errors=True)
if __name__ == '__main__':
    B = runpy.run_path(sys.argv[1])['BUGS']; want = sys.argv[2:]
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(plant, [b for b in B if not want or b['id'] in want]): print(r, flush=True)
