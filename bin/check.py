#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] | --replay FILE | --list
Builds the checkers of one property from /repo's current working tree and runs them.
exit 0: held on everything explored; 1: VIOLATION line printed; other: the check itself failed."""
import argparse, glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LMC_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'bin'))
from props import PROPS

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class BuildError(Exception): pass

class Builder:
    """Compiles repository sources, harnesses and runtimes; every object once."""
    def __init__(self, dir):
        self.dir = dir; self.jobs = {}; self.pool = ThreadPoolExecutor(8)
        inc = os.path.join(dir, 'inc'); os.makedirs(inc, exist_ok=True)
        if not os.path.exists(os.path.join(REPO, 'include', 'version.h')):
            with open(os.path.join(inc, 'version.h'), 'w') as f:
                f.write('#pragma once\n#define LEARNLOG_VERSION_MAJOR 0\n#define LEARNLOG_VERSION_MINOR 0\n#define LEARNLOG_VERSION_PATCH 0\n')
        self.inc = ['-I' + REPO, '-I' + REPO + '/include', '-I' + inc, '-I' + V + '/rt', '-I' + V + '/harness']
    FL = {
        'lmc': ['-std=gnu++11', '-O1', '-g', '-fsanitize=thread', '-U__SANITIZE_THREAD__', '-Wno-tsan', '-DNDEBUG', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-pie'],
        'seq': ['-std=gnu++11', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-DNDEBUG', '-fno-pie'],
        'fast': ['-std=gnu++11', '-O1', '-g', '-DNDEBUG', '-fno-pie'],
    }
    def obj(self, src, kind, tls=True, plain=False, extra=()):
        key = (src, kind, tls, plain, tuple(extra))
        if key not in self.jobs: self.jobs[key] = self.pool.submit(self._cc, key)
        return self.jobs[key]
    def _cc(self, key):
        src, kind, tls, plain, extra = key
        o = os.path.join(self.dir, '%s.%s.%d.%d.o' % (re.sub(r'\W', '_', os.path.relpath(src, '/')), kind, tls, abs(hash(extra)) % 100000))
        if plain == 'rt': fl = ['-std=gnu++17', '-O2', '-g', '-fno-builtin', '-fno-pie'] if kind == 'lmc' else ['-std=gnu++17', '-O1', '-g', '-fno-pie']
        elif plain: fl = ['-std=gnu++11', '-O1', '-DNDEBUG', '-fno-pie']
        else: fl = self.FL[kind]
        cmd = ['g++'] + fl + self.inc + ['-w', '-DLEARNLOG_USE_BUNDLED_FMT'] + (['-DLEARNLOG_USE_TLS'] if tls else []) + list(extra) + ['-c', src, '-o', o]
        r = sh(cmd)
        if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stdout[-6000:])
        return o
    def lib(self, kind, tls, extra=()):
        srcs = sorted(glob.glob(REPO + '/base/*.cpp') + glob.glob(REPO + '/src/*.cpp') + glob.glob(REPO + '/sinks/*.cpp') + glob.glob(REPO + '/sinks/*/*.cpp'))
        return [self.obj(s, kind, tls, False, extra) for s in srcs] + [self.obj(s, kind, True, True) for s in sorted(glob.glob(REPO + '/base/fmt/*.cc'))]
    def start(self, unit):
        kind = unit.get('kind', 'lmc'); tls = unit.get('tls', True)
        fut = [self.obj(os.path.join(V, 'harness', s), kind, tls, False, unit.get('cflags', ())) for s in unit['src']]
        fut += [self.obj(os.path.join(V, 'rt', 'lmc.cpp' if kind == 'lmc' else 'seq.cpp'), kind, True, 'rt', unit.get('rtflags', ()))]
        fut += [self.obj(os.path.join(V, 'rt', s), kind, True, 'rt') for s in unit.get('rt', ())]
        if unit.get('lib', True): fut += self.lib(kind, tls, unit.get('libflags', ()))
        return fut
    def link(self, unit, fut, name):
        kind = unit.get('kind', 'lmc'); exe = os.path.join(self.dir, name)
        objs = [f.result() for f in fut]
        san = ['-fsanitize=address,undefined'] if kind == 'seq' else []
        r = sh(['g++', '-no-pie'] + san + objs + ['-o', exe, '-ldl', '-lpthread'] + list(unit.get('ldflags', ())))
        if r.returncode: raise BuildError('link %s\n%s' % (name, r.stdout[-6000:]))
        return exe

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=1', TZ='UTC', LC_ALL='C')

def known_findings():
    out = []
    p = os.path.join(V, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) unit=(\S+) scenario=(\S+) kind=(\S+) msg=/(.*?)/ -- (.*)', l.strip())
            if m: out.append(dict(zip(('property', 'unit', 'scenario', 'kind', 're', 'what'), m.groups())))
    return out

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay'); ap.add_argument('--list', action='store_true'); ap.add_argument('--time', type=float); ap.add_argument('--keep', action='store_true'); ap.add_argument('--scenario'); ap.add_argument('--unit'); ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    if a.list:
        for p in sorted(PROPS): print(p, ' '.join(u['name'] for u in PROPS[p]['units']))
        return 0
    if a.replay:
        head = open(a.replay).read(); m = re.search(r'^property (\S+) unit (\S+)$', head, re.M); a.prop, a.unit = m.group(1), m.group(2)
    P = PROPS[a.prop]; t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % a.prop); os.chmod(tmp, 0o755)
    env = dict(ENV, TMPDIR=tmp)
    shm = None
    if os.access('/dev/shm', os.W_OK):      # scratch directories of the enumerations: on a memory file system where there is one
        try: shm = tempfile.mkdtemp(prefix='verif-%s-' % a.prop, dir='/dev/shm'); os.chmod(shm, 0o755); env['TMPDIR'] = shm
        except OSError: shm = None
    try:
        units = [u for u in P['units'] if (not a.unit or u['name'] == a.unit) and (a.tier == 'thorough' or not u.get('thorough_only'))]
        b = Builder(tmp); futs = [b.start(u) for u in units]
        try: exes = [b.link(u, f, u['name']) for u, f in zip(units, futs)]
        except BuildError as e:
            print('check: build failed\n%s' % e); return 2
        tb = time.time() - t0
        if a.replay: return subprocess.run([exes[0], '--replay', a.replay], env=env).returncode
        rdir = os.path.join(V, 'replays', a.prop); os.makedirs(rdir, exist_ok=True)
        known = [k for k in known_findings() if k['property'] == a.prop]
        total = a.time or P.get('thorough_time' if a.tier == 'thorough' else 'quick_time', 600 if a.tier == 'thorough' else 120)
        wsum = sum(u.get('weight', 1) for u in units); left = total
        scen, viols, found, errs = [], [], [], []
        for i, (u, exe) in enumerate(zip(units, exes)):
            t1 = time.time(); share = left * u.get('weight', 1) / sum(x.get('weight', 1) for x in units[i:])
            out = os.path.join(tmp, u['name'] + '.json'); urd = os.path.join(rdir, u['name']); os.makedirs(urd, exist_ok=True)
            cmd = [exe, '--tier', a.tier, '--time', '%.1f' % share, '--workers', str(os.cpu_count() or 8), '--out', out, '--replay-dir', urd] + (['--scenario', a.scenario] if a.scenario else [])
            try: r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=share + 400)
            except subprocess.TimeoutExpired: errs.append('%s: did not stop' % u['name']); continue
            print('== %s\n%s' % (u['name'], r.stdout), end=''); sys.stdout.flush()
            left -= time.time() - t1
            if r.returncode not in (0, 1): errs.append('%s: exit %d' % (u['name'], r.returncode)); continue
            for s in json.load(open(out), strict=False)['scenarios']:
                s['unit'] = u['name']; scen.append(s)
                if not s['violation']:
                    if s['note'].startswith(('internal', 'unconfirmed')): errs.append('%s/%s: %s' % (u['name'], s['name'], s['note']))
                    continue
                with open(s['replay']) as f: body = f.read()
                with open(s['replay'], 'w') as f: f.write('property %s unit %s\n%s' % (a.prop, u['name'], body))
                k = [k for k in known if k['unit'] == u['name'] and k['scenario'] == s['name'] and k['kind'] == s['kind'] and re.search(k['re'], s['msg'] + '\n' + s.get('stack', ''))]
                if k: found.append(k[0]); print('KNOWN-FINDING: property=%s %s' % (a.prop, k[0]['what']))
                else: viols.append(s); print('VIOLATION property=%s replay=%s' % (a.prop, s['replay']))
        ex = sum(s['executions'] for s in scen)
        samples = ['%s/%s: %s' % (s['unit'], s['name'], x) for s in scen for x in s['samples'][:2]][:12] or ['(none recorded)']
        cov = dict(states=sum(s['states'] for s in scen), transitions=sum(s['transitions'] for s in scen), traces_validated_against_impl=ex, evaluations=ex + sum(s.get('comparisons', 0) for s in scen),
                   distinct_nontrivial=sum(s['outcomes'] for s in scen), rule=P['rule'], exhaustive=all(s['complete'] for s in scen if not s['violation']) and not viols and not errs, samples=samples,
                   scenarios=[{k: s[k] for k in s if k not in ('samples', 'stack', 'replay')} for s in scen], known_findings=[k['what'] for k in found], build_s=round(tb, 1), errors=errs)
        ev = dict(property=a.prop, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking', coverage=cov, assumptions=P['assumptions'], wall_s=round(time.time() - t0, 2), violations=len(viols))
        if not a.no_evidence:
            os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
            with open(os.path.join(V, 'evidence', a.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        print('%s %s: %d scenarios, %d executions, %d states, %d transitions, build %.1fs, total %.1fs%s' % (a.prop, a.tier, len(scen), ex, cov['states'], cov['transitions'], tb, time.time() - t0, '' if cov['exhaustive'] else ' (not all bounds completed)'))
        for e in errs: print('check error:', e)
        if viols: return 1
        return 2 if errs else 0
    finally:
        if a.keep: print('kept', tmp)
        else:
            for d in (tmp, shm):
                if d: subprocess.run(["rm", "-rf", "--", d])
sys.exit(main())
