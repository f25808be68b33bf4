#!/usr/bin/env python3
"""run.py <property id>            run the check of one property (VERIF_SEED, VERIF_TIER)
run.py --replay <file>            rerun the case in a replay file
run.py --setup                    sanity check of the tools
exit 0: held, 1: VIOLATION, 2: the check itself could not give an answer"""
import os, sys, json, re, time, resource, shutil, signal, subprocess, tempfile, mmap, struct, threading, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, HERE)
from checks import conf

MEM = 3500 << 20  # a runaway process must not take the memory of the others

SAN = '-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer'
VARIANTS = {  # name: (compiler, flags, runtime environment)
    'dbg':  ('g++', '-O1', {}),
    'dbg0': ('g++', '-O0', {}),
    'rel':  ('g++', '-O1 -DNDEBUG', {}),
    'rel2': ('g++', '-O2 -DNDEBUG', {}),
    'san':  ('clang++', '-O0 -g1 ' + SAN, {}),
    'sanrel': ('clang++', '-O0 -g1 -DNDEBUG ' + SAN, {}),
    'tsan': ('clang++', '-O1 -g1 -fsanitize=thread -DNDEBUG', {}),
    'tsandbg': ('clang++', '-O1 -g1 -fsanitize=thread', {}),
    'msan': ('clang++', '-O1 -g1 -fsanitize=memory', {}),
}
SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=3500:detect_stack_use_after_return=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99',
    'TSAN_OPTIONS': 'exitcode=98:halt_on_error=1:second_deadlock_stack=1',
    'LC_ALL': 'C',
}
CONFIG = {
    'cppad_link_flags_has_m32': '0', 'compiler_has_conversion_warn': '1', 'cppad_debug_and_release_01': '1',
    'cppad_debug_and_release': '1', 'use_cplusplus_2017_ok': '1', 'cppad_version': '20260430',
    'cppad_has_adolc': '0', 'cppad_has_colpack': '0', 'cppad_has_eigen': '0', 'cppad_has_ipopt': '0',
    'cppad_deprecated_01': '', 'cppad_deprecated': '', 'cppad_boostvector': '0', 'cppad_cppadvector': '1', 'cppad_stdvector': '0',
    'cppad_eigenvector': '0', 'cppad_has_gettimeofday': '1', 'cppad_tape_addr_type': 'unsigned int',
    'cppad_is_same_tape_addr_type_size_t': '0', 'cppad_tape_id_type': 'unsigned int', 'cppad_max_num_threads': '48',
    'cppad_has_mkstemp': '1', 'cppad_has_tmpnam_s': '0', 'cppad_c_compiler_cmd': 'gcc', 'cppad_c_compiler_gnu_flags': '1',
    'cppad_c_compiler_msvc_flags': '0', 'cppad_is_same_unsigned_int_size_t': '0', 'cppad_padding_block_t': '',
}
class Inconclusive(Exception): pass

def write_config(bdir, over):
    v = dict(CONFIG); v.update(over or {})
    src = open(os.path.join(REPO, 'include/cppad/configure.hpp.in')).read()
    def sub(m):
        if m.group(1) not in v:
            return '0'
        return v[m.group(1)]
    txt = re.sub(r'@([A-Za-z0-9_]+)@', sub, src.replace('bradbell@seanet.com', ''))
    d = os.path.join(bdir, 'inc', 'cppad'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'configure.hpp')
    if not (os.path.exists(p) and open(p).read() == txt):
        open(p, 'w').write(txt)

def compile_all(bdir, spec, names, log):
    """compile every variant in parallel; returns {variant: executable}"""
    write_config(bdir, spec.get('config'))
    libs = ['cppad_lib/temp_file.cpp'] + spec.get('lib', [])
    jobs, exes, linkargs = [], {}, {}
    cc = ['ccache'] if os.environ.get('VF_DEV') and shutil.which('ccache') else []
    for name in names:
        vs = spec.get('vdef', {}).get(name)
        base = vs['base'] if vs else name
        comp, flags, _ = VARIANTS[base]
        srcs = (vs or {}).get('src') or spec.get('src') or ['checks/%s.cpp' % spec['id']]
        inc = os.path.join(bdir, 'inc')
        if vs and vs.get('config'):
            sub = os.path.join(bdir, 'cfg_' + name); os.makedirs(sub, exist_ok=True)
            o = dict(spec.get('config') or {}); o.update(vs['config']); write_config(sub, o); inc = os.path.join(sub, 'inc')
        opt = ['-std=' + spec.get('std', 'c++17'), '-w', '-I' + inc, '-I' + os.path.join(REPO, 'include'), '-pthread'] + flags.split() \
            + spec.get('cflags', []) + ((vs or {}).get('cflags', []))
        if os.environ.get('VF_COV'): opt += ['--coverage']
        objs = []
        for s in [os.path.join(HERE, x) for x in srcs] + [os.path.join(REPO, x) for x in libs]:
            o = os.path.join(bdir, name + '_' + os.path.basename(s) + '.o'); objs.append(o)
            jobs.append((cc + [comp] + opt + ['-c', s, '-o', o], name, os.path.getsize(s)))
        exe = os.path.join(bdir, name + '.exe'); exes[name] = exe
        lf = [f for f in flags.split() if f.startswith('-fsan') or f.startswith('-fno-san')]
        if os.environ.get('VF_COV'): lf += ['--coverage']
        linkargs[name] = [comp, '-pthread'] + lf + objs + spec.get('ldflags', []) + ['-ldl', '-o', exe]
    jobs.sort(key=lambda j: -j[2] - (10**9 if 'clang' in ' '.join(j[0][:2]) else 0))
    errs, lock, it = [], threading.Lock(), iter(jobs)
    def work():
        while True:
            with lock:
                j = next(it, None)
            if j is None or errs: return
            r = subprocess.run(j[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                errs.append((' '.join(j[0]), r.stdout.decode(errors='replace')[:6000]))
    th = [threading.Thread(target=work) for _ in range(8)]
    [t.start() for t in th]; [t.join() for t in th]
    if not errs:
        ps = [(n, subprocess.Popen(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for n, a in linkargs.items()]
        for n, p in ps:
            out, _ = p.communicate()
            if p.returncode != 0: errs.append((' '.join(linkargs[n]), out.decode(errors='replace')[:6000]))
    if errs:
        print('BUILD FAILED: ' + errs[0][0]); print(errs[0][1]); raise Inconclusive('build failed')
    return exes

def crash_key(txt, rc):
    m = re.search(r'SUMMARY: (\w+): ([\w-]+)(?: ([^\s]*))?', txt)
    if 'runtime error:' in txt:
        k = re.search(r'([^\s/]+):(\d+):\d+: runtime error: (.*)', txt)
        if k: return 'ubsan:%s:%s' % (k.group(1), re.sub(r'[^a-z]+', '-', re.sub(r"0x\w+|'[^']*'|-?\d[\w.+-]*", '', k.group(3)))[:60].strip('-'))
    if 'ThreadSanitizer' in txt and m:
        return 'tsan:' + m.group(2) + ':' + os.path.basename((m.group(3) or '').split(':')[0])
    if 'AddressSanitizer' in txt and m:
        fr = [f for f in re.findall(r'#\d+ 0x\w+ in .*? (/[^\s:]+):\d+', txt) if '/cppad' in f]
        return 'asan:' + m.group(2) + ':' + (os.path.basename(fr[0]) if fr else '')
    if 'MemorySanitizer' in txt: return 'msan:use-of-uninitialized-value'
    if rc < 0:
        try: return 'signal:' + signal.Signals(-rc).name
        except Exception: return 'signal:%d' % -rc
    return 'exit:%d' % rc

class Shard:
    def __init__(self, ctx, variant, lo, hi, step, tag):
        self.ctx, self.variant, self.lo, self.hi, self.step, self.tag = ctx, variant, lo, hi, step, tag
        self.fails = []      # (key, case, detail)
        self.stats = []
        self.incon = []
    def argv(self, lo, hi, step, out, prog):
        c = self.ctx
        a = [c.exes[self.variant], '--seed', str(c.seed), '--lo', str(lo), '--hi', str(hi), '--step', str(step), '--out', out, '--variant', self.variant]
        if prog: a += ['--progress', prog]
        if c.thorough: a += ['--thorough']
        return a
    def one(self, lo, hi, step, limit):
        """returns (rc, stdout, stderr, current case, hung)"""
        c = self.ctx
        out = os.path.join(c.bdir, self.tag + '.json'); prog = os.path.join(c.bdir, self.tag + '.prog')
        for f in (out, prog):
            if os.path.exists(f): os.unlink(f)
        env = dict(os.environ); env.update(SAN_ENV); env.update(c.spec.get('env', {}))
        env['VF_SCRATCH'] = c.scratch
        so, se = open(prog + '.out', 'w+b'), open(prog + '.err', 'w+b')
        def limits(): resource.setrlimit(resource.RLIMIT_DATA, (MEM, MEM))
        p = subprocess.Popen(self.argv(lo, hi, step, out, prog), stdout=so, stderr=se, env=env, cwd=c.scratch, start_new_session=True,
                             preexec_fn=limits if self.variant in ('dbg', 'dbg0', 'rel', 'rel2') else None)
        last, lastt, hung = None, time.time(), False
        while True:
            try: p.wait(0.05 if last is None else 0.25); break
            except subprocess.TimeoutExpired: pass
            try:
                cur = open(prog, 'rb').read(24)
            except OSError: cur = b''
            if cur != last: last, lastt = cur, time.time()
            if time.time() - lastt > limit or time.time() > c.deadline:
                hung = True
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                p.wait(); break
        try: case = struct.unpack('lll', open(prog, 'rb').read(24))
        except Exception: case = (-1, 0, 0)
        so.seek(0); se.seek(0)
        o, e = so.read().decode(errors='replace'), se.read()[-20000:].decode(errors='replace')
        so.close(); se.close()
        for line in o.splitlines():
            m = re.match(r'FAIL key=(\S+) case=(-?\d+) (.*)', line)
            if m: self.fails.append((m.group(1), int(m.group(2)), m.group(3)))
        try: self.stats.append(json.load(open(out)))
        except Exception: pass
        return p.returncode, o, e, case, hung
    def run(self):
        c = self.ctx; lo = self.lo
        for _ in range(40):
            if lo >= self.hi: return
            rc, o, e, case, hung = self.one(lo, self.hi, self.step, c.spec.get('case_limit', 150))
            if rc == 0 and not hung: return
            if rc == 3: raise Inconclusive('harness: ' + e[-2000:])
            cur = case[0]
            if hung:
                if time.time() > c.deadline: self.incon.append('time is up in case %d of %s' % (cur, self.variant)); return
                rc, o, e, case2, hung2 = self.one(cur, cur + 1, 1, c.spec.get('case_limit', 150))
                if hung2 and time.time() <= c.deadline: self.fails.append(('hang', cur, 'no progress for %d s, twice' % c.spec.get('case_limit', 150)))
                elif rc != 0 and not hung2: self.fails.append((crash_key(e + o, rc), cur, e[:3000].replace('\n', ' | ')))
                else: self.incon.append('case %d of %s was slow' % (cur, self.variant))
            else:
                if rc == -9: self.incon.append('killed (memory?) in case %d of %s' % (cur, self.variant))
                else: self.fails.append((crash_key(e + o, rc), cur, e[:3000].replace('\n', ' | ')))
            if cur < 0: return
            lo = cur + self.step

class Ctx: pass

def known(pid):
    r = []
    f = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l and l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'open': r.append(d)
    return r

def run_check(pid):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); thorough = os.environ.get('VERIF_TIER', 'quick') == 'thorough'
    spec = dict(conf.CHECKS[pid]); spec['id'] = pid
    c = Ctx(); c.spec, c.seed, c.thorough = spec, seed, thorough
    base = os.path.join(HERE, 'build'); os.makedirs(base, exist_ok=True)
    c.bdir = os.path.join(base, 'dev-' + pid) if os.environ.get('VF_DEV') else tempfile.mkdtemp(prefix=pid + '-', dir=base)
    os.makedirs(c.bdir, exist_ok=True)
    c.scratch = tempfile.mkdtemp(prefix='vf-%s-' % pid)
    limit = spec.get('limit', 780) if not thorough else spec.get('thorough_limit', 7200)
    c.deadline = t0 + limit
    try:
        plan = spec['plan']['thorough' if thorough and 'thorough' in spec['plan'] else 'quick']
        only = os.environ.get('VF_VARIANT')
        if only: plan = {k: v for k, v in plan.items() if k in only.split(',')}
        names = list(plan)
        c.exes = compile_all(c.bdir, spec, names, None)
        tb = time.time() - t0
        shards = []
        for vi, (name, (n, k)) in enumerate(plan.items()):
            scale = float(os.environ.get('VF_SCALE', '1'))
            if thorough and 'thorough' not in spec['plan']: n = int(n * spec.get('thorough_factor', 20))
            n = max(1, int(n * scale))
            for s in range(k):
                b = vi * 10000000
                shards.append(Shard(c, name, b + s, b + n, k, '%s_%d' % (name, s)))
        err, lock, it = [], threading.Lock(), iter(shards)
        def work():
            while True:
                with lock: s = next(it, None)
                if s is None: return
                try: s.run()
                except Exception as ex: err.append(''.join(traceback.format_exception_only(type(ex), ex)))
        th = [threading.Thread(target=work) for _ in range(spec.get('parallel', 8))]
        [t.start() for t in th]; [t.join() for t in th]
        if err: raise Inconclusive(err[0])
        return verdict(c, pid, shards, t0, tb)
    finally:
        if not os.environ.get('VF_DEV'): shutil.rmtree(c.bdir, ignore_errors=True)
        shutil.rmtree(c.scratch, ignore_errors=True)

def verdict(c, pid, shards, t0, tb):
    spec = c.spec
    counters, distinct, samples, per = {}, set(), [], {}
    for s in shards:
        for st in s.stats:
            for k, v in st['counters'].items():
                if k.startswith('max_'): counters[k] = max(counters.get(k, 0), v)
                else: counters[k] = counters.get(k, 0) + v
            per[s.variant] = per.get(s.variant, 0) + st['counters'].get('cases', 0)
            distinct.update(st['distinct']); samples += st['samples'][:1]
    fails = [(k, s.variant, case, d) for s in shards for (k, case, d) in s.fails]
    incon = [x for s in shards for x in s.incon]
    kf = known(pid); bad, seen = [], {}
    for f in fails:
        m = [d for d in kf if d['key'] == f[0]]
        if m: seen.setdefault(m[0]['key'], (m[0], f))
        else: bad.append(f)
    for k, (d, f) in seen.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, d['what']))
    cov = {'evaluations': counters.get('cases', 0), 'distinct_nontrivial': len(distinct), 'rule': spec['rule'],
           'samples': samples[:4] or ['(none)'], 'cases_per_variant': per, 'observed': counters,
           'inconclusive': incon[:20], 'build_s': round(tb, 1), 'known_findings_seen': sorted(seen)}
    ev = {'property': pid, 'tier': 'thorough' if c.thorough else 'quick', 'seed': c.seed, 'level': spec.get('level', 'exploration'),
          'coverage': cov, 'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(bad)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for x in incon: print('INCONCLUSIVE: ' + x)
    print('%s seed=%d: %d cases, %d distinct, build %.0f s, total %.0f s; %s' % (pid, c.seed, cov['evaluations'], len(distinct), tb, time.time() - t0,
          ' '.join('%s=%d' % kv for kv in sorted(counters.items()))))
    if bad:
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        keys = {}
        for f in bad: keys.setdefault(f[0], f)
        for n, (k, (key, variant, case, d)) in enumerate(keys.items()):
            if n >= 12: break
            path = os.path.join(HERE, 'replay', '%s-s%d-%d.json' % (pid, c.seed, n))
            json.dump({'property': pid, 'variant': variant, 'seed': c.seed, 'case': case, 'key': key, 'thorough': c.thorough, 'detail': d,
                       'replay': 'python3 /verif/run.py --replay ' + path}, open(path, 'w'), indent=1)
            print('  %s variant=%s case=%d %s' % (key, variant, case, d[:700]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if os.environ.get('VF_VARIANT') or float(os.environ.get('VF_SCALE', '1')) != 1: return 0
    for k, v in spec.get('min', {}).items():
        have = len(distinct) if k == 'distinct' else counters.get(k, 0)
        if have < v:
            print('OBSERVED TOO LITTLE: %s=%d, need %d' % (k, have, v)); return 2
    return 0

def replay(path):
    d = json.load(open(path)); pid = d['property']
    spec = dict(conf.CHECKS[pid]); spec['id'] = pid
    b = tempfile.mkdtemp(prefix=pid + '-', dir=os.path.join(HERE, 'build')) if os.path.isdir(os.path.join(HERE, 'build')) else tempfile.mkdtemp()
    scratch = tempfile.mkdtemp()
    try:
        exes = compile_all(b, spec, [d['variant']], None)
        env = dict(os.environ); env.update(SAN_ENV); env.update(spec.get('env', {})); env['VF_SCRATCH'] = scratch
        a = [exes[d['variant']], '--seed', str(d['seed']), '--case', str(d['case']), '--variant', d['variant'], '--verbose'] + (['--thorough'] if d.get('thorough') else [])
        r = subprocess.run(a, env=env, cwd=scratch, stdout=subprocess.PIPE)
        o = r.stdout.decode(errors='replace'); print(o)
        if r.returncode != 0 or 'FAIL key=' in o:
            print('VIOLATION property=%s replay=%s' % (pid, path)); return 1
        return 0
    finally:
        shutil.rmtree(b, ignore_errors=True); shutil.rmtree(scratch, ignore_errors=True)

def main():
    a = sys.argv[1:]
    try:
        if not a: print(__doc__); return 2
        if a[0] == '--setup':
            for t in ('g++', 'clang++'): subprocess.run([t, '--version'], check=True, stdout=subprocess.DEVNULL)
            for d in ('build', 'evidence', 'replay'): os.makedirs(os.path.join(HERE, d), exist_ok=True)
            return 0
        if a[0] == '--replay': return replay(a[1])
        return run_check(a[0])
    except Inconclusive as e:
        print('NO ANSWER: %s' % e); return 2
if __name__ == '__main__':
    sys.exit(main())
