#!/usr/bin/env python3
# development aid (no check uses it): runs each planted bug's property check on a copy of /repo with the bug applied; prints a table
import json, os, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = V + '/seeded'
def one(n):
    d = '/tmp/seedtable/' + n; shutil.rmtree(d, ignore_errors=True); os.makedirs('/tmp/seedtable', exist_ok=True)
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True); subprocess.run(['git', '-C', d, 'apply', '%s/%s/patch.diff' % (S, n)], check=True)
    m = json.load(open('%s/%s/meta.json' % (S, n))); e = dict(os.environ, LMC_REPO=d)
    r = subprocess.run([V + '/bin/check', m['property'], '--no-evidence'], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    f = re.findall(r'^FAIL scenario=(\S+) kind=(\S+)', r.stdout, re.M); shutil.rmtree(d, ignore_errors=True)
    return n, m, r.returncode, f
names = sys.argv[1:] or sorted(os.listdir(S))
with ThreadPoolExecutor(2) as ex:
    for n, m, rc, f in ex.map(one, names):
        kn = [x for x in f if x != ('free_few_blocks', 'livelock')]
        print('| %s | %s | %s | %s |' % (n, m['needs'].replace('|', '/'), m['property'] if rc == 1 else m['property'] + ': MISSED rc %d' % rc, ', '.join(sorted({a for a, b in kn})) or '-')); sys.stdout.flush()
