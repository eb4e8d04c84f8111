#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--replay FILE] [--cases N]
Builds the monitor of one property against /repo's working tree, runs its workload, and reports.
exit 0: held on everything explored; exit 1: VIOLATION line(s) printed; exit 2: the check itself failed."""
import sys, os, json, time, hashlib, subprocess, tempfile, shutil, mmap, struct, re, fcntl, glob

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
JOBS = 8
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
COMMON = ['core', 'gen', 'oracle', 'adapt', 'embedcase']
# extra: additional harness sources; variant: how the library is compiled
SPEC = {
    'C10': {'variant': 'count', 'level': 'exploration'},
    'M02': {'script': 'm02script', 'also': 'msan'},
    'M01': {'level': 'fault_enumeration'}, 'I06': {'level': 'fault_enumeration'},
    'U01': {'cli': True, 'extra': ['clirun']}, 'U02': {'cli': True, 'extra': ['clirun']},
    'U05': {'cli': True, 'extra': ['clirun']}, 'U06': {'cli': True, 'climsan': True, 'extra': ['clirun'], 'level': 'fault_enumeration'}, 'U07': {'cli': True, 'extra': ['clirun']},
    'U08': {'cli': True, 'extra': ['clirun']}, 'U03': {'cli': True, 'extra': ['clirun']}, 'U04': {'cli': True, 'extra': ['clirun']},
}
ASSUME = ['the reference oracles and generators in /verif/harness are right (they are cross-checked by certificates where one exists)',
          'clang 18 AddressSanitizer/UndefinedBehaviorSanitizer report what they are documented to report']

def die(msg, code=2):
    print('check error: ' + msg); sys.stdout.flush(); os._exit(code)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def fhash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.relpath(p, '/').encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

def variant_flags(variant):
    if variant == 'count':
        return ['-O1', '-g', '-w', '-fsanitize-coverage=trace-pc-guard', '-fno-builtin', '-DVF_COUNT']
    if variant == 'msan':
        return ['-O1', '-g', '-w', '-fsanitize=memory', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
    return ['-O1', '-g', '-w'] + SAN

class Builder:
    def __init__(self):
        os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True); os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
        src = os.path.join(REPO, 'c')
        self.lib = sorted(p for p in glob.glob(src + '/graphLib/**/*.c', recursive=True))
        self.app = sorted(p for p in glob.glob(src + '/planarityApp/**/*.c', recursive=True))
        self.hdr = sorted(glob.glob(src + '/**/*.h', recursive=True))
        if not self.lib or not self.app: die('no sources under ' + src)
        self.hh = [os.path.join(HERE, 'harness', x) for x in ('common.hpp', 'vfhook.h', 'textgen.hpp', 'clirun.hpp', 'clihook.h')]
        self.todo = {}
    def obj(self, src, flags, cxx=False):
        key = fhash([src] + self.hdr + (self.hh if True else []), ' '.join(flags) + src)
        out = os.path.join(BUILD, 'obj', os.path.basename(src) + '.' + key + '.o')
        if not os.path.exists(out): self.todo[out] = ['clang++' if cxx else 'clang'] + (['-std=c++17'] if cxx else []) + flags + ['-c', src, '-o']
        else: os.utime(out)
        return out
    def compile(self):
        procs = []; items = list(self.todo.items()); bad = None
        while items or procs:
            while items and len(procs) < JOBS:
                out, cmd = items.pop(0); tmp = out + '.%d.tmp' % os.getpid()
                procs.append((subprocess.Popen(cmd + [tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace'), tmp, out))
            p, tmp, out = procs.pop(0); o, _ = p.communicate()
            if p.returncode: bad = bad or (out, o)
            else: os.rename(tmp, out)
        if bad: die('compiling %s failed:\n%s' % (bad[0], bad[1][-3000:]))
        self.todo = {}
    def link(self, name, objs, flags):
        key = hashlib.sha256(('\n'.join(objs) + ' '.join(flags)).encode()).hexdigest()[:20]
        out = os.path.join(BUILD, 'bin', name + '.' + key)
        if os.path.exists(out): os.utime(out); return out
        tmp = out + '.%d.tmp' % os.getpid()
        r = sh(['clang++'] + flags + objs + ['-o', tmp, '-lm'])
        if r.returncode: die('linking %s failed:\n%s' % (name, r.stdout[-3000:]))
        os.rename(tmp, out); return out
    def prune(self):
        for d, keep in (('obj', 900), ('bin', 120)):
            fs = [os.path.join(BUILD, d, f) for f in os.listdir(os.path.join(BUILD, d))]
            if len(fs) > keep:
                for f in sorted(fs, key=lambda f: os.path.getmtime(f))[:len(fs) - keep]:
                    try: os.unlink(f)
                    except OSError: pass

def build(pids):
    b = Builder(); plans = []
    inc = ['-I' + REPO + '/c/graphLib', '-I' + os.path.join(HERE, 'harness')]
    hook = ['-include', os.path.join(HERE, 'harness', 'vfhook.h')]
    for pid in pids:
        sp = SPEC.get(pid, {}); H = lambda f: os.path.join(HERE, 'harness', f); alts = []
        for var in [sp.get('variant', 'asan')] + ([sp['also']] if 'also' in sp else []):
            vf = variant_flags(var)
            libo = [b.obj(s, vf + inc + hook) for s in b.lib]
            if 'script' in sp: libo.append(b.obj(H(sp['script'] + '.c'), vf + inc))
            libo.append(b.obj(H('vfhook.c'), vf if var == 'msan' else ['-O2', '-g']))
            alts.append((var, libo, [x for x in vf if x.startswith('-fsanitize') and 'coverage' not in x]))
        ho = []
        for f in COMMON + sp.get('extra', []) + [pid.lower()]:
            ho.append(b.obj(H(f + '.cpp'), ['-O2', '-g', '-Wno-everything'] + inc, cxx=True))
        cli = None
        if sp.get('cli'):
            f2 = variant_flags('asan') + ['-I' + REPO + '/c/graphLib', '-I' + REPO + '/c', '-I' + os.path.join(HERE, 'harness')]
            ch = ['-include', os.path.join(HERE, 'harness', 'clihook.h')]
            cli = [b.obj(s, f2 + ch) for s in b.lib + b.app] + [b.obj(H(x), ['-O2', '-g', '-I' + os.path.join(HERE, 'harness')]) for x in ('vfhook.c', 'clihook.c')]
        clim = None
        if sp.get('climsan'):
            f3 = variant_flags('msan') + f2[len(variant_flags('asan')):]
            clim = [b.obj(s, f3 + ch) for s in b.lib + b.app] + [b.obj(H(x), variant_flags('msan') + ['-I' + os.path.join(HERE, 'harness')]) for x in ('vfhook.c', 'clihook.c')]
        plans.append((pid, ho, alts, cli, clim))
    b.compile(); res = {}
    for pid, ho, alts, cli, clim in plans:
        env = {}
        if cli: env['VF_PLANARITY'] = b.link('planarity', cli, SAN); env['VF_SAMPLES'] = REPO + '/c/samples'
        if clim: env['VF_PLANARITY_MSAN'] = b.link('planarity-msan', clim, ['-fsanitize=memory'])
        res[pid] = ([b.link(pid if var == 'asan' else pid + '-' + var, ho + objs, lf) for var, objs, lf in alts], env)
    b.prune(); return res

def known():
    p = os.path.join(HERE, 'known_findings.json')
    return [k for k in json.load(open(p)) if k['status'] == 'open'] if os.path.exists(p) else []

def match_known(kf, pid, f):
    for k in kf:
        if k['property'] != pid: continue
        if re.fullmatch(k['key'], f['key']) and re.search(k.get('detail', ''), f['detail'], re.S) and re.search(k.get('note', ''), f.get('note', ''), re.S): return k
    return None

def crash_key(rc, err):
    m = re.search(r'SUMMARY: (\w+): (\S+) (\S+?):\d+(?::\d+)? in (\S+)', err)
    where = ''
    fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S+)', err)
    for fn, loc in fr:
        if '/c/graphLib/' in loc or '/c/planarityApp/' in loc: where = fn; break
    m2 = re.search(r'(\S+):(\d+):\d+: runtime error: (.*)', err)
    if m2: return 'undefined-behaviour:%s' % (where or os.path.basename(m2.group(1))), m2.group(0)
    if m: return 'memory:%s:%s' % (m.group(2), where or m.group(4)), m.group(0)
    m = re.search(r'ERROR: (\w+): (\S+)', err)
    if m: return 'memory:%s:%s' % (m.group(2), where), m.group(0)
    return 'crash:exit%d' % rc, err[-500:]

def main():
    args = [a for a in sys.argv[1:]]
    if not args: die('usage')
    if args[0] == '--setup':
        ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
        ids = [i for i in ids if os.path.exists(os.path.join(HERE, 'harness', i.lower() + '.cpp'))]
        build(ids); print('built', len(ids)); return 0
    pid = args.pop(0); tier = os.environ.get('VERIF_TIER', 'quick'); replay = None; ncases = None; seed = int(os.environ.get('VERIF_SEED', '1') or 1); only = None
    while args:
        a = args.pop(0)
        if a in ('quick', 'thorough'): tier = a
        elif a == '--replay': replay = json.load(open(args.pop(0)))
        elif a == '--cases': ncases = int(args.pop(0))
        elif a == '--seed': seed = int(args.pop(0))
        else: die('unknown argument ' + a)
    t0 = time.time(); sp = SPEC.get(pid, {}); level = sp.get('level', 'exploration')
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX); exes, env = build([pid])[pid]; exe = exes[0]
    tb = time.time() - t0
    info = json.loads(sh([exe, '--info', '1']).stdout)
    total = ncases or (info['quick'] if tier == 'quick' else info['thorough'])
    cases_from, stride_all = 0, None
    unusable = []
    for x in exes[1:]:   # a second kind of instrumentation may not be able to start everywhere
        if sh([x, '--info', '1']).returncode: unusable.append(os.path.basename(x).split('.')[0]); exes.remove(x)
    if replay: seed = replay['seed']; tier = replay['tier']
    e = dict(os.environ); e.update(env)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:exitcode=97:detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=4096'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
    e['MSAN_OPTIONS'] = 'exitcode=97:handle_abort=1:allocator_may_return_null=1:poison_in_dtor=0'
    e['LC_ALL'] = 'C'
    tmp = tempfile.mkdtemp(prefix='vf-%s-' % pid)
    budget = 780 if tier == 'quick' else 6 * 3600
    fails = []; inconclusive = []; crashes = 0
    class W: pass
    def start(w, frm, to, stride, scale=1):
        w.log = open(w.err, 'w'); w.frm = frm
        w.p = subprocess.Popen([w.exe, '--from', str(frm), '--to', str(to), '--stride', str(stride), '--seed', str(seed), '--progress', w.prog, '--out', w.out, '--scratch', w.scr, '--thorough', '1' if tier == 'thorough' else '0', '--cpuscale', str(scale)], stdout=w.log, stderr=w.log, stdin=subprocess.DEVNULL, env=e, cwd=w.scr)
    def prog(w):
        try:
            b = open(w.prog, 'rb').read(); i, st = struct.unpack('qq', b[:16]); return i, st, b[16:].split(b'\0')[0].decode('latin1')
        except Exception: return -1, 0, ''
    def mk(i, exe=exe):
        w = W(); w.i = i; w.exe = exe; w.prog = '%s/prog%s' % (tmp, i); w.out = '%s/out%s' % (tmp, i); w.err = '%s/err%s' % (tmp, i); w.scr = '%s/scr%s' % (tmp, i); os.makedirs(w.scr); w.done = False; return w
    def handle_end(w, single=False):
        """returns the case to restart after, or None when the worker finished"""
        nonlocal crashes
        rc = w.p.returncode; w.log.close()
        if rc == 0: return None
        err = open(w.err, errors='replace').read(); i, st, note = prog(w)
        if i < 0 or st == 0: die('worker ended with %s outside a case:\n%s' % (rc, err[-2000:]))
        crashes += 1
        if rc == 98 or st == 2:
            if single: return 'hang'
            s = mk('re%d' % crashes, w.exe); start(s, i, i + 1, 1, 3); s.p.wait()
            if handle_end(s, True) == 'hang': fails.append({'case': i, 'key': 'hang', 'detail': 'the case did not finish within three times its CPU limit', 'note': note})
            else: inconclusive.append(i)
            return i
        k, d = crash_key(rc, err)
        fails.append({'case': i, 'key': k, 'detail': d + '\n' + err[:2500], 'note': note})
        return i
    try:
        ws = []
        if replay:
            for n, x in enumerate(exes): w = mk(n, x); start(w, replay['case'], replay['case'] + 1, 1); w.to = replay['case'] + 1; w.st = 1; ws.append(w)
        else:
            for n, x in enumerate(exes):
                for i in range(JOBS): w = mk(n * JOBS + i, x); w.to = total; w.st = JOBS; start(w, i, total, JOBS); ws.append(w)
        late = False; looked = time.time()
        while any(not w.done for w in ws):
            time.sleep(0.03)
            for w in ws:
                if w.done or w.p.poll() is None: continue
                at = handle_end(w)
                if at is None or at + w.st >= w.to or crashes > 60: w.done = True
                else: start(w, at + w.st, w.to, w.st)
            enough = False
            if time.time() - t0 > (100 if tier == 'quick' else 900) and time.time() - looked > 5:   # a violation is known: no need to explore to the end
                looked = time.time(); kf0 = known(); seen = list(fails)
                for f in glob.glob(tmp + '/out*'):
                    for l in open(f, errors='replace'):
                        if '"t":"fail"' in l.replace(' ', ''):
                            try: seen.append(json.loads(l))
                            except ValueError: pass
                enough = any(not match_known(kf0, pid, f) for f in seen)
            if enough or time.time() - t0 > budget:
                for w in ws:
                    if w.p.poll() is None: w.p.kill()
                late = True; break
        counters, maxima, distinct, samples = {}, {}, set(), []
        for f in glob.glob(tmp + '/out*'):
            for l in open(f, errors='replace'):
                try: r = json.loads(l)
                except ValueError: continue
                if r['t'] == 'fail': fails.append(r)
                else:
                    for k, v in r['counters'].items(): counters[k] = counters.get(k, 0) + v
                    for k, v in r['maxima'].items(): maxima[k] = max(v, maxima.get(k, 0))
                    distinct.update(r['distinct']); samples += r['samples']
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    kf = known(); real = []; seen_known = {}
    for f in fails:
        k = match_known(kf, pid, f)
        if k: seen_known.setdefault(k['what'], 0); seen_known[k['what']] += 1
        else: real.append(f)
    for k in kf:
        if k['property'] == pid: print('KNOWN-FINDING: property=%s %s (seen %d times in this run)' % (pid, k['what'], seen_known.get(k['what'], 0)))
    if late and not real: die('out of time after %d s' % (time.time() - t0))
    if replay:
        for f in real: print('replayed: case %d %s\n%s' % (f['case'], f['key'], f['detail']))
        print('VIOLATION property=%s replay=%s' % (pid, 'same') if real else 'replay: no violation'); return 1 if real else 0
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True); os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    evals = counters.get('cases', 0) + crashes or len(real)
    if evals == 0 or (not real and not distinct): die('the run observed nothing')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'wall_s': round(time.time() - t0, 2), 'violations': len(real), 'assumptions': ASSUME,
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(distinct), 'rule': info['rule'], 'samples': samples[:4], 'observed': counters, 'maxima': maxima, 'inconclusive_cases': inconclusive, 'known_findings_seen': seen_known, 'build_s': round(tb, 2), 'workers': JOBS, 'instrumentation_unavailable': unusable}}
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    by = {}
    for f in real: by.setdefault(f['key'], []).append(f)
    for key, fs in sorted(by.items()):
        f = min(fs, key=lambda f: (len(f.get('note', '')), f['case']))
        rp = os.path.join(HERE, 'replays', '%s-%s.json' % (pid, re.sub(r'[^A-Za-z0-9]+', '_', key)[:60]))
        json.dump({'property': pid, 'seed': seed, 'tier': tier, 'case': f['case'], 'key': key, 'detail': f['detail'], 'input': f.get('note', ''), 'occurrences': len(fs), 'how': 'python3 /verif/check.py %s --replay %s' % (pid, rp)}, open(rp, 'w'), indent=1)
        print('%s: %s\n  %s\n  input: %s' % (pid, key, f['detail'][:1500].replace('\n', '\n  '), f.get('note', '')[:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    print('%s %s: %d cases, %d distinct non-trivial, %d violations, %.1f s (build %.1f s)' % (pid, tier, evals, len(distinct), len(real), time.time() - t0, tb))
    return 1 if real else 0

if __name__ == "__main__": sys.exit(main())
