#!/usr/bin/env python3
"""Decides one property of rapidcheck: builds /repo's current sources together
with the property's harness, searches generated cases in parallel, confirms and
minimises any failure, and writes the evidence file.

  check.py C07 [--tier quick|thorough] [--replay FILE] [--facet NAME]
"""
import argparse, array, concurrent.futures as cf, glob, hashlib, json, os, re, shutil
import signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PBT_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
CXX = 'clang++'
BASE = ['-std=c++14', '-O1', '-g1', '-w', '-fno-omit-frame-pointer']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all',
       '-fsanitize-address-use-after-scope']
JOBS = max(2, min(8, os.cpu_count() or 4))
ASAN = ('detect_leaks=0:malloc_context_size=6:quarantine_size_mb=128:exitcode=77:hard_rss_limit_mb=3500:detect_stack_use_after_return=1:'
        'allocator_may_return_null=0:max_allocation_size_mb=1024:handle_abort=1:symbolize=1:print_summary=1')
UBSAN = 'print_stacktrace=1:halt_on_error=1'


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def load_config(pid):
    with open(os.path.join(ROOT, 'checks.json')) as f:
        cfg = json.load(f)
    c = dict(cfg['defaults'])
    c.update(cfg['checks'].get(pid, {}))
    return c


def digest_files(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def tree(*dirs):
    out = []
    for d in dirs:
        for base, _, names in os.walk(d):
            out += [os.path.join(base, n) for n in names]
    return out


def run_cmds(cmds):
    """Runs compile commands in parallel; returns the first failure's output."""
    def one(c):
        r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return (r.returncode, c, r.stdout)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for rc, c, out in ex.map(one, cmds):
            if rc != 0:
                return ' '.join(c) + '\n' + out
    return None


class Builder:
    def __init__(self, pid, cfg):
        self.pid, self.cfg = pid, cfg
        self.lib_src = [p for d in ('src', 'src/detail', 'src/gen', 'src/gen/detail')
                        for p in sorted(glob.glob(f'{REPO}/{d}/*.cpp'))]
        self.lib_key_files = tree(f'{REPO}/src', f'{REPO}/include', f'{REPO}/extras')

    def binary(self, kind):
        """kind: 'pbt' or 'fuzz'. Returns the path of the harness binary."""
        cfg = self.cfg
        san = SAN + (['-fsanitize=fuzzer-no-link'] if kind == 'fuzz' else [])
        if kind == 'plain':
            san = []
        lib_key = digest_files(self.lib_key_files, ' '.join([CXX] + BASE + san + [REPO]))
        lib_dir = os.path.join(BUILD, f'lib-{kind}-{lib_key}')
        tus = sorted(glob.glob(f'{ROOT}/harness/props/{self.pid}.cpp') +
                     glob.glob(f'{ROOT}/harness/props/{self.pid}_*.cpp'))
        if not tus:
            raise SystemExit(f'no harness for {self.pid}')
        hfiles = tree(f'{ROOT}/harness/engine') + tus + glob.glob(f'{ROOT}/harness/props/*.h')
        extra_flags = cfg.get('cxxflags', [])
        key = digest_files(hfiles, lib_key + ' '.join(san + extra_flags))
        bdir = os.path.join(BUILD, f'{self.pid}-{kind}-{key}')
        out = os.path.join(bdir, 'harness')
        if os.path.exists(out):
            os.utime(bdir)
            return out
        self.purge()
        os.makedirs(bdir, exist_ok=True)
        tmp_lib = None
        cmds, lib_objs = [], []
        if os.path.isdir(lib_dir):
            lib_objs = sorted(glob.glob(lib_dir + '/*.o'))
            os.utime(lib_dir)
        else:
            tmp_lib = tempfile.mkdtemp(dir=BUILD)
            for s in self.lib_src:
                o = os.path.join(tmp_lib, os.path.relpath(s, REPO).replace('/', '_') + '.o')
                cmds.append([CXX] + BASE + san + [f'-I{REPO}/include', f'-I{REPO}/src',
                            '-c', s, '-o', o])
        objs, hc = [], []
        inc = [f'-I{ROOT}/harness/engine', f'-I{ROOT}/harness/props', f'-I{REPO}/include',
               f'-I{REPO}/src'] + \
              [f'-I{REPO}/extras/{e}/include' for e in cfg.get('extras', [])]
        for t in tus:
            o = os.path.join(bdir, os.path.basename(t) + '.o')
            objs.append(o)
            hc.append([CXX] + BASE + san + extra_flags + inc + ['-c', t, '-o', o])
        o = os.path.join(bdir, 'pbt.o')
        objs.append(o)
        hc.append([CXX] + BASE + san + (['-DPBT_FUZZ'] if kind == 'fuzz' else []) +
                  inc + ['-c', f'{ROOT}/harness/engine/pbt.cpp', '-o', o])
        err = run_cmds(hc + cmds)
        if err:
            log(err)
            shutil.rmtree(bdir, ignore_errors=True)
            if tmp_lib:
                shutil.rmtree(tmp_lib, ignore_errors=True)
            raise SystemExit(2)
        if tmp_lib:
            try:
                os.rename(tmp_lib, lib_dir)
            except OSError:
                shutil.rmtree(tmp_lib, ignore_errors=True)
            lib_objs = sorted(glob.glob(lib_dir + '/*.o'))
        link_san = SAN + (['-fsanitize=fuzzer'] if kind == 'fuzz' else [])
        if kind == 'plain':
            link_san = []
        err = run_cmds([[CXX] + link_san + objs + lib_objs + cfg.get('ldflags', []) +
                        ['-o', out + '.tmp']])
        if err:
            log(err)
            raise SystemExit(2)
        for x in objs:
            os.unlink(x)
        os.rename(out + '.tmp', out)
        return out

    def purge(self):
        os.makedirs(BUILD, exist_ok=True)
        ds = sorted((d for d in glob.glob(BUILD + '/*') if os.path.isdir(d)), key=os.path.getmtime)
        for d in ds[:-80]:
            shutil.rmtree(d, ignore_errors=True)


def env_for(tmp):
    e = {k: v for k, v in os.environ.items() if not k.startswith('RC_')}
    e.update(ASAN_OPTIONS=ASAN, UBSAN_OPTIONS=UBSAN, LC_ALL='C', TMPDIR=tmp)
    # A fixed seed for anything in the harness that uses the global configuration.
    e['RC_PARAMS'] = 'seed=1'
    e['PBT_ROOT'] = ROOT
    e['PBT_REPO'] = REPO
    return e


def read_live(path, facets):
    try:
        b = open(path, 'rb').read()
    except OSError:
        return None
    u = [int.from_bytes(b[i:i + 8], 'little') for i in range(0, 24, 8)]
    n = min(u[2], (len(b) - 24) // 8)
    tape = [int.from_bytes(b[24 + 8 * i:32 + 8 * i], 'little') for i in range(n)]
    return {'case': u[0], 'facet': facets[u[1]] if u[1] < len(facets) else '', 'tape': tape}


class Check:
    def __init__(self, pid, tier, seed, only=None):
        self.pid, self.tier, self.seed, self.only = pid, tier, seed, only
        self.cfg = load_config(pid)
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f'pbt-{pid}-')
        self.env = env_for(self.tmp)
        self.distinct = set()

    # -- replay -----------------------------------------------------------
    def replay_once(self, binary, path, cpu=40, tier=None):
        cmd = [binary, '--replay', path, '--cpu', str(cpu), '--tier', tier or self.tier]
        try:
            r = subprocess.run(cmd, env=self.env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors='replace',
                               timeout=cpu * 6, cwd=self.tmp)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            return 79, 'timeout'

    def shrink_external(self, binary, rep, want_rc):
        """Minimises a tape whose case kills the process."""
        t_end = time.time() + (60 if want_rc != 79 else 45)
        best = rep['tape']
        cpu = 40 if want_rc != 79 else 6
        path = os.path.join(self.tmp, 'cand.json')

        def fails(tapes):
            def one(iv):
                i, t = iv
                p = f'{path}.{i}'
                with open(p, 'w') as f:
                    json.dump(dict(rep, tape=t), f)
                rc, out = self.replay_once(binary, p, cpu)
                return rc not in (0, 2)
            with cf.ThreadPoolExecutor(JOBS) as ex:
                return list(ex.map(one, enumerate(tapes)))
        progress = True
        while progress and time.time() < t_end:
            progress = False
            cands = []
            for k in (64, 16, 4, 2, 1):
                for i in range(0, max(0, len(best) - k + 1), max(1, k)):
                    cands.append(best[:i] + best[i + k:])
            for i, v in enumerate(best):
                if v:
                    cands.append(best[:i] + [0] + best[i + 1:])
                    cands.append(best[:i] + [v // 2] + best[i + 1:])
            for j in range(0, len(cands), JOBS):
                if time.time() > t_end:
                    break
                batch = cands[j:j + JOBS]
                oks = fails(batch)
                hit = [b for b, ok in zip(batch, oks) if ok]
                if hit:
                    best = min(hit, key=lambda t: (len(t), t))
                    progress = True
                    break
        return best

    # -- search -----------------------------------------------------------
    def worker_cmd(self, binary, w, seed, time_cap, cases):
        base = os.path.join(self.tmp, f'w{w}')
        cmd = [binary, '--seed', str(seed), '--cases', str(cases), '--time', str(time_cap),
               '--stats', base + '.stats', '--replay-out', base + '.replay',
               '--live', base + '.live', '--tier', self.tier]
        if self.only:
            cmd += ['--facet', self.only]
        return cmd, base

    def search(self, binary, time_cap, cases, nworkers):
        procs = []
        for w in range(nworkers):
            seed = (self.seed * 1000003 + w * 7919 + (0 if self.tier == 'quick' else 500009)) & ((1 << 63) - 1)
            cmd, base = self.worker_cmd(binary, w, seed, time_cap, cases)
            so = open(base + '.out', 'wb')
            procs.append((subprocess.Popen(cmd, env=self.env, stdout=so, stderr=subprocess.STDOUT,
                                           cwd=self.tmp, start_new_session=True), base, seed, cmd))
            so.close()
        failures, deadline = [], time.time() + time_cap + 320
        pending = list(procs)
        stop_at = None
        while pending:
            for item in list(pending):
                p, base, seed, cmd = item
                rc = p.poll()
                if rc is None:
                    continue
                pending.remove(item)
                if rc != 0:
                    failures.append((rc, base, seed, cmd))
                    if stop_at is None:
                        stop_at = time.time() + 3
            if pending and (time.time() > deadline or (stop_at and time.time() > stop_at)):
                for p, *_ in pending:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                if time.time() > deadline and not failures:
                    failures.append((79,) + pending[0][1:])
                for p, *_ in pending:
                    p.wait()
                pending = []
            time.sleep(0.05)
        stats = []
        for _, base, _, _ in procs:
            try:
                stats.append(json.load(open(base + '.stats')))
                a = array.array('Q')
                with open(base + '.stats.hashes', 'rb') as f:
                    a.frombytes(f.read())
                self.distinct.update(a)
            except (OSError, ValueError):
                pass
        return stats, failures

    def confirm(self, binary, facets, failures):
        """Returns (replay dict, message) for the first failure that reproduces."""
        for rc, base, seed, cmd in failures:
            out = open(base + '.out', errors='replace').read()
            rep = None
            if os.path.exists(base + '.replay'):
                rep = json.load(open(base + '.replay'))
                src = 'tape'
            live = read_live(base + '.live', facets)
            cands = []
            if rep:
                cands.append(rep)
            if live and rc != 70:
                cands.append({'mode': 'tape', 'facet': live['facet'], 'tape': live['tape'],
                              'message': crash_summary(out, rc)})
            for rep in cands:
                p = os.path.join(self.tmp, 'confirm.json')
                with open(p, 'w') as f:
                    json.dump(rep, f)
                hits = 0
                for _ in range(3):
                    r, o = self.replay_once(binary, p)
                    if r not in (0, 2):
                        hits += 1
                        last, lrc = o, r
                    if hits == 2 or (hits and rep is cands[0] and r == 79):
                        break
                if hits:
                    if lrc not in (0, 70):
                        rep['message'] = crash_summary(last, lrc)
                        rep['tape'] = self.shrink_external(binary, rep, lrc)
                    return rep, rep.get('message', '')
            # Not reproducible in isolation: rerun the same worker from its seed.
            r = subprocess.run(cmd + ['--shrink', '0'], env=self.env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors='replace', cwd=self.tmp)
            if r.returncode not in (0, 2) and 'hard rss limit' not in r.stdout:
                return ({'mode': 'run', 'args': cmd[1:], 'message': crash_summary(r.stdout, r.returncode)},
                        crash_summary(r.stdout, r.returncode))
            log(f'{self.pid}: a failure did not reproduce and is not reported: rc={rc}\n' + out[-2000:])
        return None

    def fuzz(self, seconds):
        """Coverage-guided search (libFuzzer) over the same facets."""
        binary = Builder(self.pid, self.cfg).binary('fuzz')
        procs = []
        n = JOBS
        for w in range(n):
            corpus = os.path.join(self.tmp, f'corpus{w}')
            os.makedirs(corpus, exist_ok=True)
            base = os.path.join(self.tmp, f'f{w}')
            env = dict(self.env, PBT_REPLAY_OUT=base + '.replay', PBT_LIVE=base + '.live')
            if self.only:
                env['PBT_FACET'] = self.only
            cmd = [binary, corpus, f'-seed={self.seed * 100 + w + 1}', f'-max_total_time={seconds}',
                   '-rss_limit_mb=3500', f'-max_len={self.cfg.get("fuzz_max_len", 1024)}', '-len_control=20',
                   '-timeout=300', '-print_final_stats=1', f'-artifact_prefix={base}.art', '-handle_alrm=0']
            so = open(base + '.out', 'wb')
            procs.append((subprocess.Popen(cmd, env=env, stdout=so, stderr=subprocess.STDOUT,
                                           cwd=self.tmp, start_new_session=True), base, 0, cmd))
        failures, execs, cov = [], 0, 0
        for p, base, seed, cmd in procs:
            try:
                rc = p.wait(timeout=seconds + 200)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                rc = 0
            out = open(base + '.out', errors='replace').read()
            m = re.search(r'stat::number_of_executed_units:\s*(\d+)', out)
            execs += int(m.group(1)) if m else 0
            for m in re.finditer(r'cov: (\d+)', out):
                cov = max(cov, int(m.group(1)))
            if rc != 0 and (os.path.exists(base + '.replay') or rc in (77, 79) or rc < 0):
                failures.append((rc, base, seed, cmd))
        return execs, cov, failures

    def main(self):
        cfg, pid = self.cfg, self.pid
        binary = Builder(pid, cfg).binary('pbt')
        log(f'{pid}: built in {time.time() - self.t0:.1f}s')
        facets = [l.split()[1] for l in subprocess.run(
            [binary, '--list', '1'], env=self.env, stdout=subprocess.PIPE, text=True, cwd=self.tmp).stdout.splitlines()]
        t = cfg['time'][self.tier]
        stats, failures = self.search(binary, t, cfg['cases'][self.tier], JOBS)
        found = self.confirm(binary, facets, failures) if failures else None
        extra_cov = {}
        if not found and cfg.get('cross_process'):
            found, extra_cov = self.cross_process(binary)
        if not found and self.tier == 'thorough' and cfg.get('fuzz', 0):
            execs, cov, ff = self.fuzz(cfg['fuzz'])
            extra_cov.update(libfuzzer_executions=execs, libfuzzer_edges=cov)
            if ff:
                found = self.confirm(binary, facets, ff)
        known_listed = read_known()
        known = {}
        for s in stats:
            known.update(s.get('known', {}))
        violations = 0
        for k, text in sorted(known.items()):
            if (pid, k) in known_listed:
                print(f'KNOWN-FINDING: property={pid} {k}: {text}')
            elif not found:
                found = ({'mode': 'known', 'facet': '', 'tape': [], 'message': f'{k}: {text}'}, f'{k}: {text}')
        if found:
            violations = 1
            rep, msg = found
            rep['property'] = pid
            d = os.path.join(ROOT, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f'{pid}-{hashlib.sha256(json.dumps(rep).encode()).hexdigest()[:10]}.json')
            with open(path, 'w') as f:
                json.dump(rep, f)
            print(f'failure in facet {rep.get("facet", "?")}: {msg[:3000]}')
            print(f'VIOLATION property={pid} replay={path}', flush=True)
        self.evidence(stats, extra_cov, violations)
        shutil.rmtree(self.tmp, ignore_errors=True)
        return 1 if violations else 0

    def cross_process(self, binary):
        """The same cases in separate processes must observe the same values."""
        n = self.cfg['cross_process']
        ds, outs = [], []
        procs = []
        for i in range(3):
            st = os.path.join(self.tmp, f'x{i}.stats')
            env = dict(self.env, PBT_PAD='x' * (i * 1237))
            procs.append((subprocess.Popen([binary, '--seed', str(self.seed + 77), '--cases', str(n), '--time',
                                            '100000', '--stats', st, '--tier', self.tier], env=env, cwd=self.tmp,
                                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), st))
        for p, st in procs:
            p.wait()
            try:
                ds.append(json.load(open(st))['digest'])
            except (OSError, ValueError):
                return None, {}
        if len(set(ds)) != 1:
            msg = f'observations differ between processes running the same {n} cases: {ds}'
            return ({'mode': 'cross', 'args': ['--seed', str(self.seed + 77), '--cases', str(n)],
                     'message': msg}, msg), {}
        return None, {'cross_process_cases': 3 * n}

    def evidence(self, stats, extra_cov, violations):
        ev = sum(s['cases'] for s in stats)
        labels, per = {}, {}
        for s in stats:
            for k, v in s['labels'].items():
                labels[k] = labels.get(k, 0) + v
            for k, v in s['facets'].items():
                per[k] = per.get(k, 0) + v
        seen, samples = {}, []
        for s in stats:
            for x in s['samples']:
                f = x.split(':')[0]
                if seen.get(f, 0) < 3 and x not in samples:
                    seen[f] = seen.get(f, 0) + 1
                    samples.append(x)
        cov = {'evaluations': ev, 'distinct_nontrivial': len(self.distinct),
               'rule': self.cfg.get('rule', ''), 'samples': samples[:40] or ['(none)'],
               'nontrivial_cases': sum(s['nontrivial'] for s in stats),
               'oracle_comparisons': sum(s['extra'] for s in stats),
               'facets': per, 'labels': labels, 'workers': len(stats)}
        cov.update(extra_cov)
        d = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
             'coverage': cov, 'assumptions': self.cfg.get('assumptions', []),
             'wall_s': round(time.time() - self.t0, 2), 'violations': violations}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        p = os.path.join(ROOT, 'evidence', self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(d, f, indent=1)
        os.rename(p + '.tmp', p)
        log(f'{self.pid}: {ev} cases, {cov["distinct_nontrivial"]} distinct non-trivial, '
            f'{violations} violations, {d["wall_s"]}s')


def crash_summary(out, rc):
    for pat in (r'PBT-FAIL[^\n]*', r'SUMMARY: [^\n]*', r'[^\n]*runtime error: [^\n]*', r'[^\n]*Assertion [^\n]*',
                r'terminate called[^\n]*(?:\n[^\n]*what[^\n]*)?', r'PBT-HANG[^\n]*', r'ERROR: [^\n]*'):
        m = re.search(pat, out)
        if m:
            a = re.search(r'[^\n]*Assertion [^\n]*', out)
            return (a.group(0) + ' | ' if a else '') + m.group(0)
    return f'process ended with status {rc}: ' + out[-300:]


def read_known():
    s = set()
    try:
        for line in open(os.path.join(ROOT, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) (\S+)', line)
            if m:
                s.add((m.group(1), m.group(2).rstrip(':')))
    except OSError:
        pass
    return s


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--facet')
    ap.add_argument('--seconds', type=int, help='search time instead of the configured one')
    ap.add_argument('--fuzz', type=int, help='libFuzzer time instead of the configured one')
    a = ap.parse_args()
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    c = Check(a.property, a.tier, seed, a.facet)
    if a.seconds:
        c.cfg['time'] = {t: a.seconds for t in c.cfg['time']}
    if a.fuzz:
        c.cfg['fuzz'] = a.fuzz
    if a.replay:
        binary = Builder(a.property, c.cfg).binary('pbt')
        rep = json.load(open(a.replay))
        if rep.get('mode') == 'run':
            r = subprocess.run([binary] + rep['args'], env=c.env)
            rc, out = r.returncode, ''
        else:
            rc, out = c.replay_once(binary, os.path.abspath(a.replay))
        print(out)
        if rc not in (0, 2):
            print(f'VIOLATION property={a.property} replay={a.replay}')
        sys.exit(1 if rc not in (0, 2) else rc)
    sys.exit(c.main())


if __name__ == '__main__':
    main()
