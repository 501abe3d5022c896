"""mutate.py FILE COUNT SEED [PROPS] : random small changes to FILE (relative to /repo/src); those that build and pass the stable tests are
given to the checks of PROPS (in order, until one reports a violation). Prints one line per change; survivors are for a person to judge."""
import re, sys, os, json, subprocess, tempfile, shutil, random
from concurrent.futures import ThreadPoolExecutor
MAP = {'x/vmem_pool.x.h': 'P03,P01,P02,P04,P05', 'x/vmem_container.x.h': 'C01,C03,C02,P06,C05', 'x/vmem_iterator.x.h': 'C01,C04,C03', 'x/vmem_linked.x.h': 'C04,P02,C01,P06', 'x/vmem_map.x.h': 'C03,P06', 'x/vmem_string.x.h': 'C05',
 'json.h': 'J02,J01,J03,J04', 'http.h': 'H01,H02,H03,H04,H05', 'socket.h': 'S01,S04,S02,S05', 'openssl_socket.h': 'S03,S04,S05', 'endpoint.h': 'E01,E02,E04,E03', 'log.h': 'L02', 'table.h': 'L01,L03', 'multifile.h': 'L04', 'timestamp.h': 'T01',
 'ascii.h': 'A01', 'buffer_streambuf.h': 'B01', 'stream.h': 'B01,J01,H01', 'test.h': 'K01'}
def spots(text):
    """(start, end, replacement) candidates outside comments, log calls, strings and declarations"""
    out = []; pos = 0; depth_log = 0; fn = ''
    for line in text.split('\n'):
        s = line.strip(); here = pos; pos += len(line) + 1
        if not s or s.startswith(('//', '#', '/*', '*', 'template', 'inline', 'using', 'namespace', 'static_assert')) or '_log' in s or 'log->' in s or 'diag->' in s or 'throw ' in s or 'static_cast<void>' in s or '"' in s and s.startswith('"'):
            continue
        if not re.search(r'[;({]', s) and not re.search(r'[=<>&|]', s): continue
        code = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])\'', lambda m: 'Q' * len(m[0]), line)
        code = re.sub(r'//.*', lambda m: ' ' * len(m[0]), code)
        ind = len(code) - len(code.lstrip())
        if ind == 0 or re.match(r'\s*(const |constexpr |)?(inline|struct|class|template)', code): continue
        def add(m, r, g=0): out.append((here + m.start(g), here + m.end(g), r))
        for a, bs in {' < ': [' <= '], ' <= ': [' < '], ' > ': [' >= '], ' >= ': [' > '], ' == ': [' != '], ' != ': [' == '], ' && ': [' || '], ' || ': [' && '], ' + ': [' - '], ' - ': [' + '], ' += ': [' -= '], ' -= ': [' += '], ' & ': [' | '], ' | ': [' & '], ' * ': [' + ']}.items():
            for m in re.finditer(re.escape(a), code):
                if 'template' in code or 'operator' in code: continue
                for b in bs: add(m, b)
        for m in re.finditer(r'\b(true|false)\b', code): add(m, 'false' if m[0] == 'true' else 'true')
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.x])', code):
            add(m, str(int(m[0]) + 1))
            if int(m[0]) > 0: add(m, str(int(m[0]) - 1))
        for m in re.finditer(r'\+\+', code): add(m, '--')
        if re.match(r'\s*(if|while) \(', code) and code.rstrip().endswith('{'):
            m = re.match(r'(\s*(?:if|while) \()(.*)(\) \{)\s*$', code)
            if m: out.append((here + m.start(2), here + m.end(2), ('!(' , ')'))); out.append((here + m.start(2), here + m.end(2), 'false'))
        if s.endswith(';') and not re.match(r'(return|break|continue|[\w:<>,*& ]+ [\w*&]+( =|;|\())', s): out.append((here + ind, here + len(line.rstrip()), ';'))
        elif s in ('break;',): pass
    return out
def ns(cmd, repo, timeout=1000):
    return subprocess.run(['unshare', '-Urmn', 'bash', '-c', 'ip link set lo up; mount --bind "%s" /repo && cd /repo && %s' % (repo, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
def one(job):
    f, text, (a, b, r), props = job
    new = text[:a] + (r[0] + text[a:b] + r[1] if isinstance(r, tuple) else r) + text[b:]
    ln = text.count('\n', 0, a); ol = text.split('\n')[ln].strip(); nl = new.split('\n')[ln].strip(); name = '%s:%d  %s  ==>  %s' % (f, ln + 1, ol, nl)
    w = tempfile.mkdtemp(prefix='mu.', dir='/tmp'); repo = w + '/repo'
    try:
        subprocess.check_call(['cp', '-a', '/repo', repo]); subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '--', '.'])
        open(repo + '/src/' + f, 'w', newline='').write(new)
        try: p = ns('timeout 200 bash /opt/vp/build.sh >/dev/null 2>&1 || exit 3; timeout 100 bash /opt/vp/test.sh %s/t.json >/dev/null 2>&1; true' % w, repo)
        except subprocess.TimeoutExpired: return 'TESTS ' + name
        if p.returncode == 3: return 'NOBUILD ' + name
        try: t = json.load(open(w + '/t.json'))
        except Exception: return 'TESTS ' + name
        if [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in t['passed']]: return 'TESTS ' + name
        v = w + '/verif'; os.makedirs(v)
        for n in ('run.py', 'registry.py', 'harness', 'known-findings.txt'): (shutil.copytree if os.path.isdir('/verif/' + n) else shutil.copy)('/verif/' + n, v + '/' + n)
        for p in props:
            r = ns('cd %s && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py check %s' % (v, p), repo)
            if r.returncode == 1: return 'CAUGHT %s %s' % (p, name)
            if r.returncode != 0: return 'NOANSWER %s rc=%d %s %s' % (p, r.returncode, name, r.stdout.decode(errors='replace')[-300:].replace('\n', ' / '))
        return 'SURVIVED ' + name
    finally:
        shutil.rmtree(w, ignore_errors=True)
f = sys.argv[1]; n = int(sys.argv[2]); seed = int(sys.argv[3]); props = (sys.argv[4] if len(sys.argv) > 4 else MAP.get(f, 'G01,G02,G03')).split(',')
text = open('/repo/src/' + f, newline='').read(); sp = spots(text); random.Random(seed).shuffle(sp)
print('# %s: %d candidates' % (f, len(sp)), flush=True)
with ThreadPoolExecutor(int(os.environ.get('PAR', '4'))) as ex:
    for r in ex.map(one, [(f, text, s, props) for s in sp[:n]]): print(r, flush=True)
