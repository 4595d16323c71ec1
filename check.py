#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] : decide one property by symbolic execution of /repo's current source.

1. builds the executor (engine/) and compiles the crates the property needs from /repo's working tree, plus the harness,
   to one LLVM bitcode module (the crates' own code and their dependencies, linked by rustc's LTO);
2. runs every job of the property (props.py) through the executor: inputs, faults, crash points and schedules are
   symbolic, every assertion is an SMT query;
3. replays every counterexample on a native build of the same harness, and validates sampled paths there;
4. writes evidence/PROPERTY.json.
Exit: 0 holds within the bounds, 1 + VIOLATION line: counterexample reproduced natively, 2: no answer."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SYMX_REPO', '/repo')
TC = 'nightly-2019-08-26'
DEPS = '/opt/vp/target/debug/deps'
NPROC = 8
import props
T0 = time.time()
DEBUG = os.environ.get('SYMX_DEBUG')
def log(*a): print('[%6.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)

class BuildError(Exception): pass

class Builder:
    def __init__(self, work):
        self.work = work; self.d = json.load(open(V + '/deps.json')); self.lock = threading.Lock(); self.futs = {}
        self.pool = cf.ThreadPoolExecutor(24); self.out = work + '/lib'; os.makedirs(self.out, exist_ok=True)
        self.env = dict(os.environ, RUSTUP_TOOLCHAIN=TC)
        for k in ('LD_LIBRARY_PATH', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER'): self.env.pop(k, None)
        self.sem = threading.Semaphore(NPROC)
        self.cmdhash = {}
    def vendor(self, name, fname=None):
        if fname is None:
            for c in self.d['crates'].values():
                if name in c['extern'] and name not in self.d['crates'] and c['extern'][name][0] not in '@-': fname = c['extern'][name]; break
            else:
                fname = self.d['vendor'][name][0]
        p = DEPS + '/' + fname
        if not os.path.exists(p):
            stem = fname.rsplit('-', 1)[0]; ext = fname.rsplit('.', 1)[1]
            c = [f for f in os.listdir(DEPS) if f.startswith(stem + '-') and f.endswith('.' + ext)]
            if len(c) != 1: raise BuildError('dependency %s: %d candidates' % (name, len(c)))
            p = DEPS + '/' + c[0]
        return p
    def spec(self, name, stubs):
        """(source file, {extern: file or None for a crate built here})"""
        opt = V + '/stubs/opt/' + name + '.rs'
        if name in stubs and os.path.exists(opt): return opt, self.header(opt)
        if name in stubs or (name not in self.d['crates'] and os.path.exists(V + '/stubs/' + name + '.rs')):
            f = V + '/stubs/' + name + '.rs'; return f, self.header(f)
        if name in ('symrt', 'anyval'):
            return V + '/rt/' + name + '.rs', {n: None for n in ([] if name == 'symrt' else ['symrt', 'protocol', 'bytes', 'num_bigint', 'serde_json'])}
        if name in self.d['crates']: return REPO + '/' + self.d['crates'][name]['src'], self.d['crates'][name]['extern']
        return None, None
    def header(self, f):
        r = {}
        for l in open(f):
            m = re.match(r'//@ deps:(.*)', l)
            if m: r.update({n.split('=')[0]: n.split('=')[1] if '=' in n else None for n in m.group(1).split()})
        return r
    def crate(self, name, stubs, replay):
        """the future of the rlib of a crate built here"""
        key = (name, replay if name in ('symrt', 'anyval') else False)
        with self.lock:
            if key not in self.futs: self.futs[key] = self.pool.submit(self.build_crate, name, stubs, key)
            return self.futs[key]
    def externs(self, ext, stubs, replay):
        args = []; deps = []
        for n, f in ext.items():
            if f and f[0] == '@': deps.append((n, self.crate(f[1:], stubs, replay))); continue
            src, _ = self.spec(n, stubs)
            if src: deps.append((n, self.crate(n, stubs, replay)))
            else: args += ['--extern', n + '=' + self.vendor(n, f)]
        for n, fu in deps: args += ['--extern', n + '=' + fu.result()]
        return args
    def flags(self, replay=False):
        a = ['--edition=2018', '-C', 'debuginfo=1', '-C', 'overflow-checks=on', '-C', 'debug-assertions=on', '--cap-lints', 'allow', '--cfg', 'verif_hooks', '-L', 'dependency=' + DEPS, '-L', 'dependency=' + self.out]
        if replay: a += ['--cfg', 'replay', '-L', 'dependency=' + self.out + '/replay']
        else: a += ['-L', 'dependency=' + self.out + '/sym']
        return a
    def run(self, cmd, what, cwd=None):
        with self.sem:
            t = time.time(); r = subprocess.run(cmd, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd)
        if r.returncode: raise BuildError('%s: %s' % (what, r.stdout.decode(errors='replace')[-6000:]))
        if DEBUG: log('built', what, round(time.time() - t, 1))
    def srchash(self, name, src):
        h = hashlib.sha1()
        fs = [src]
        top = os.path.dirname(src) if name in self.d['crates'] and src.startswith(REPO) else src[:-3]
        if os.path.isdir(top): fs = sorted({src} | {os.path.join(r, f) for r, _, ff in os.walk(top) for f in ff if f.endswith('.rs')})
        for f in fs: h.update(f.encode()); h.update(open(f, 'rb').read())
        return h
    def build_crate(self, name, stubs, key):
        src, ext = self.spec(name, stubs); rp = key[1]
        if name == 'protocol' and 'serde_facade' in stubs: ext = dict(ext, serde='@serde_facade')
        ex = self.externs(ext, stubs, rp)
        od = self.out + (('/replay' if rp else '/sym') if name in ('symrt', 'anyval') else ''); os.makedirs(od, exist_ok=True)
        macro = src.startswith(V + '/stubs/') and '//@ proc-macro' in open(src).read(); out = '%s/lib%s.%s' % (od, name, 'so' if macro else 'rlib')
        h = self.srchash(name, src); cmd = ['rustc', '--crate-name', name, src, '--crate-type', 'proc-macro' if macro else 'lib', '--emit=link' if macro else '--emit=metadata,link', '-C', 'codegen-units=8', '-C', 'metadata=sx', '--out-dir', od] + self.flags(rp) + ex
        h.update(repr(cmd).encode())
        for i, a in enumerate(ex):
            if i % 2 and a.split('=', 1)[1] in self.cmdhash: h.update(self.cmdhash[a.split('=', 1)[1]].encode())
        hx = h.hexdigest(); stamp = out + '.hash'
        if not (os.path.exists(stamp) and open(stamp).read() == hx and os.path.exists(out)):
            self.run(cmd, name); open(stamp, 'w').write(hx)
        self.cmdhash[out] = hx
        return out
    def engine(self):
        d = self.work + '/eng'; os.makedirs(d, exist_ok=True)
        self.run(['make', '-s', '-j2', 'OUT=' + d], 'engine', cwd=V + '/engine'); return d + '/symx'
    def harness(self, h, stubs, replay):
        src = V + '/harness/' + h + '.rs'; ext = self.header(src); ext.update({'symrt': None})
        if 'protocol' in ext: ext['anyval'] = None
        for n in ('bytes', 'num_bigint', 'serde_json'):
            pass
        ex = self.externs(ext, stubs, replay)
        if replay:
            out = '%s/%s.bin' % (self.work, h)
            cmd = ['rustc', '--crate-name', 'verifcrate_' + h, src, '--crate-type', 'bin', '-C', 'opt-level=0', '-o', out] + self.flags(True) + ex
            for p in self.native_dirs(): cmd += ['-L', 'native=' + p]
        else:
            out = '%s/%s.bc' % (self.work, h)
            cmd = ['rustc', '--crate-name', 'verifcrate_' + h, src, '--crate-type', 'cdylib', '--emit=llvm-bc', '-C', 'opt-level=0', '-C', 'lto=fat', '-o', out] + self.flags() + ex
        hh = self.srchash(h, src); hh.update(repr(cmd).encode())
        for i, a in enumerate(ex):
            if i % 2 and a.split('=', 1)[1] in self.cmdhash: hh.update(self.cmdhash[a.split('=', 1)[1]].encode())
        hx = hh.hexdigest(); stamp = out + '.hash'
        if not (os.path.exists(stamp) and open(stamp).read() == hx and os.path.exists(out)):
            self.run(cmd, h + (' (native)' if replay else ' (bitcode)')); open(stamp, 'w').write(hx)
        return out
    def native_dirs(self):
        b = '/opt/vp/target/debug/build'; r = []
        if os.path.isdir(b):
            for x in sorted(os.listdir(b)):
                o = b + '/' + x + '/out'
                if os.path.isdir(o):
                    if any(f.endswith('.a') for f in os.listdir(o)): r.append(o)
                    if os.path.isdir(o + '/lib'): r.append(o + '/lib')
        return r

class Slots:
    def __init__(self, n): self.n = n; self.c = threading.Condition()
    def take(self, k):
        with self.c:
            while self.n < k: self.c.wait()
            self.n -= k
    def give(self, k):
        with self.c: self.n += k; self.c.notify_all()

def native(binf, entry, params, model, work, keepgoing=False, timeout=60):
    """runs the harness natively on a model; (exit code, output)"""
    fd, mf = tempfile.mkstemp(dir=work); os.write(fd, ''.join('%s\t%s\n' % kv for kv in model.items()).encode()); os.close(fd)
    env = dict(os.environ, SYMX_MODEL=mf, RUST_BACKTRACE='0')
    for k, v in params.items(): env['SYMX_PARAM_' + k] = str(v)
    if keepgoing: env['SYMX_KEEPGOING'] = '1'
    try:
        r = subprocess.run([binf, entry], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=work)
        return r.returncode, r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired: return 'timeout', ''
    finally: os.unlink(mf)

def known_findings(pid):
    f = V + '/known_findings.json'
    return [k for k in json.load(open(f))['findings'] if k['property'] == pid] if os.path.exists(f) else []

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'); only = sys.argv[3:] 
    if pid == '--setup':
        work = tempfile.mkdtemp(prefix='symx-')
        try: Builder(work).engine(); print('engine builds'); return 0
        finally: shutil.rmtree(work, ignore_errors=True)
    P = props.PROPS[pid]; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    keep = os.environ.get('SYMX_WORK'); work = keep or tempfile.mkdtemp(prefix='symx-')
    os.makedirs(work, exist_ok=True)
    try: return run(pid, tier, P, seed, work, only)
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)

def run(pid, tier, P, seed, work, only):
    B = Builder(work); stubs = set(P.get('stubs', [])) | {'rocksdb'}
    jobs = [dict(j) for j in P['jobs'] if (tier == 'thorough' or not j.get('thorough_only')) and (not only or j['entry'] in only or any(o in j['entry'] for o in only))]
    for j in jobs:
        j.setdefault('params', {}); j.setdefault('procs', 1); j.setdefault('timeout', 240)
        if tier == 'thorough':
            j['params'] = dict(j['params'], **j.get('thorough', {})); j['timeout'] = j.get('thorough_timeout', 3 * j['timeout'])
    hs = sorted({j['harness'] for j in jobs}); errors = []; viol = []; known_seen = {}
    eng = B.pool.submit(B.engine)
    bcs = {h: B.pool.submit(B.harness, h, stubs, False) for h in hs}; bins = {h: B.pool.submit(B.harness, h, stubs, True) for h in hs}
    known = known_findings(pid)
    slots = Slots(NPROC); res = {}
    def do(j, decisions=None):
        e = eng.result(); bc = bcs[j['harness']].result(); name = j['name']
        out = '%s/res-%s.jsonl' % (work, name)
        cmd = [e, '--entry', j['entry'], '--out', out, '--timeout', str(j['timeout']), '--procs', str(j['procs']), '--samples', str(j.get('samples', 3)), '--all']
        for k, v in j['params'].items(): cmd += ['--param', '%s=%d' % (k, v)]
        for k in known: cmd += ['--known', k['check']]
        if 'preempt' in j: cmd += ['--preempt', str(j['preempt'])]
        if j.get('fork_reads'): cmd += ['--fork-reads']
        if decisions is not None: out += '.again'; cmd[cmd.index('--out') + 1] = out; cmd += ['--decisions', decisions]
        if 'max_insts' in j: cmd += ['--max-insts', str(j['max_insts'])]
        cmd += [bc]
        slots.take(j['procs']); t = time.time()
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=j['timeout'] + 60)
        except subprocess.TimeoutExpired: return [{'kind': 'error', 'msg': 'executor exceeded its time limit'}], time.time() - t
        finally: slots.give(j['procs'])
        recs = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
        if not any(x['kind'] == 'summary' for x in recs): recs.append({'kind': 'error', 'msg': 'executor: exit %s: %s' % (r.returncode, r.stdout.decode(errors='replace')[-1500:])})
        return recs, time.time() - t
    seen = {}
    for j in jobs:
        n = '%s.%s' % (j['harness'], j['entry']); seen[n] = seen.get(n, 0) + 1; j['name'] = n if seen[n] == 1 else '%s.%d' % (n, seen[n])
    jobs.sort(key=lambda j: -j.get('weight', j['procs']))
    futs = {j['name']: B.pool.submit(do, j) for j in jobs}
    tot = dict(paths=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, insts=0, forks=0); fns = set(); checks = {}; covers = {}; samples = []; validated = 0; perjob = []
    for j in jobs:
        try: recs, dt = futs[j['name']].result()
        except BuildError as e: errors.append('build: ' + str(e)); break
        jn = j['name']; summ = next((x for x in recs if x['kind'] == 'summary'), None)
        for x in recs:
            if x['kind'] == 'error': errors.append('%s: %s %s' % (jn, x.get('msg'), x.get('at', '')))
            elif x['kind'] in ('check', 'panic', 'abort', 'deadlock'): viol.append((j, x))
            elif x['kind'] == 'known': known_seen.setdefault(x['id'], []).append((j, x))
        if summ:
            if summ.get('timed_out'): errors.append(jn + ': timed out before exploring every path')
            if summ.get('unknown'): errors.append('%s: %s solver queries undecided' % (jn, summ['unknown']))
            for k in tot: tot[k] += summ.get(k, 0)
            fns |= set(summ['functions'])
            for k, v in summ['checks'].items(): a = checks.setdefault(k, [0, 0]); a[0] += v[0]; a[1] += v[1]
            for k, v in summ['covers'].items(): covers[k] = covers.get(k, 0) + v
            if not any(x['kind'] in ('check', 'panic', 'abort', 'deadlock') for x in recs):
                for c in j.get('covers', []):
                    if not summ['covers'].get(c): errors.append('%s: witness "%s" was not reached' % (jn, c))
                if not summ['checks'] : errors.append(jn + ': no assertion was reached')
            perjob.append({'job': jn, 'params': j['params'], 'paths': summ['paths'], 'queries': summ['queries'], 'sat': summ['sat'], 'unsat': summ['unsat'], 'solver_s': round(summ['solver_s'], 2), 'wall_s': round(dt, 1), 'bounds': j.get('bounds', '')})
            log(jn, 'paths', summ['paths'], 'queries', summ['queries'], 'wall %.1f' % dt)
        # the sampled paths, on the real code
        if j.get('validate', True):
            for x in [x for x in recs if x['kind'] == 'path']:
                try: b = bins[j['harness']].result()
                except BuildError as e: errors.append('build: ' + str(e)); break
                rc, o = native(b, j['entry'], j['params'], x['model'], work)
                cv = [l[6:] for l in o.splitlines() if l.startswith('COVER ')]
                if rc != 0 or 'END' not in o.split('\n') or sorted(set(cv)) != sorted(set(x['covers'])): errors.append('%s: a symbolic path does not match the native run (exit %s, native %s, symbolic %s)\n%s' % (jn, rc, cv, x['covers'], o[-400:]))
                else: validated += 1
                if len(samples) < 6: samples.append({'job': jn, 'covers': x['covers'], 'model': {k: v[:80] for k, v in list(x['model'].items())[:12]}})
    # replay what was found
    confirmed = []; dedupe = set()
    rd = V + '/evidence/replay-' + pid
    def reproduces(j, x):
        b = bins[j['harness']].result(); rc, o = native(b, j['entry'], j['params'], x['model'], work, timeout=30)
        if x['kind'] in ('check', 'known'): ok = ('FAILED ' + x['id']) in o.split('\n') or (x['kind'] == 'known' and rc not in (0, 3))
        elif x['kind'] == 'panic': ok = rc == 101
        elif x['kind'] == 'abort': ok = isinstance(rc, int) and (rc < 0 or rc == 101 or rc == 134)
        else: ok = rc == 'timeout'
        if not ok and x.get('decisions'):  # threads: the native run has a schedule of its own, so the compiled code is executed again along the recorded one
            again, _ = do(j, x['decisions'])
            if any(y['kind'] == x['kind'] and y['id'] == x['id'] for y in again): return True, 'schedule', 'executed again along the recorded schedule: ' + x.get('notes', '')
        return ok, rc, o
    for j, x in viol:
        key = (j['name'], x['kind'], x['id'])
        if key in dedupe: continue
        try: ok, rc, o = reproduces(j, x)
        except BuildError as e: errors.append('build: ' + str(e)); break
        if not ok: errors.append('%s: counterexample to "%s" (%s) does not reproduce natively (exit %s): %s\n%s' % (j['name'], x['id'], x['kind'], rc, json.dumps(x['model'])[:400], o[-600:])); continue
        dedupe.add(key); os.makedirs(rd, exist_ok=True); f = '%s/%d.json' % (rd, len(confirmed) + 1)
        json.dump({'property': pid, 'harness': j['harness'], 'entry': j['entry'], 'params': j['params'], 'kind': x['kind'], 'failed': x['id'], 'at': x.get('at'), 'panic': x.get('panic'), 'model': x['model'], 'notes': x.get('notes', ''), 'decisions': x.get('decisions', '') if rc == 'schedule' else '', 'native_exit': rc, 'native_output': o[-2000:], 'how': 'python3 check.py --replay ' + f}, open(f, 'w'), indent=1)
        confirmed.append((f, j, x))
    for k in known:
        if k['check'] in known_seen:
            j, x = known_seen[k['check']][0]
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if confirmed:
        for f, j, x in confirmed:
            log('violated:', x['kind'], x['id'], 'in', j['name'], x.get('panic', ''))
            print('VIOLATION property=%s replay=%s' % (pid, f))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - T0, 1), 'violations': len(confirmed),
          'assumptions': P.get('assumptions', []) + ['known finding excluded: ' + k['what'] for k in known],
          'coverage': {'states': tot['paths'], 'transitions': tot['insts'], 'traces_validated_against_impl': validated, 'samples': samples or ['none'],
              'paths_explored': tot['paths'], 'ir_instructions_executed': tot['insts'], 'solver_queries': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'], 'unknown': tot['unknown'], 'solver_seconds': round(tot['solver_s'], 2),
              'assertions': {k: {'evaluated': v[0], 'with_symbolic_condition': v[1]} for k, v in sorted(checks.items())}, 'witnesses': covers,
              'jobs': perjob, 'bounds': P.get('bounds', ''), 'functions_encoded': sorted(fns), 'errors': errors,
              'counting': 'states = symbolic paths run to their end (each stands for every input satisfying its path condition); transitions = LLVM IR instructions interpreted symbolically; traces = sampled paths whose solver model was run on the native build with the same observable outcome'}}
    os.makedirs(V + '/evidence', exist_ok=True)
    if not only: json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    for e in errors: print('ERROR', e, file=sys.stderr)
    if confirmed: return 1
    if errors: return 2
    print('OK property=%s paths=%d queries=%d solver=%.1fs validated=%d wall=%.1fs' % (pid, tot['paths'], tot['queries'], tot['solver_s'], validated, time.time() - T0))
    return 0

if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        f = json.load(open(sys.argv[2])); work = tempfile.mkdtemp(prefix='symx-')
        try:
            if f.get('decisions'):
                B = Builder(work); e = B.engine(); bc = B.harness(f['harness'], set(props.PROPS[f['property']].get('stubs', [])) | {'rocksdb'}, False)
                r = subprocess.run([e, '--entry', f['entry'], '--out', work + '/o', '--all', '--decisions', f['decisions']] + [a for k, v in f['params'].items() for a in ('--param', '%s=%d' % (k, v))] + [bc]); print(open(work + '/o').read()[:3000]); sys.exit(0)
            b = Builder(work).harness(f['harness'], set(props.PROPS[f['property']].get('stubs', [])) | {'rocksdb'}, True); rc, o = native(b, f['entry'], f['params'], f['model'], work)
        finally: shutil.rmtree(work, ignore_errors=True)
        print(o); print('exit', rc); sys.exit(0)
    sys.stdout.flush(); rc = main(); sys.stdout.flush(); sys.stderr.flush(); os._exit(rc)
