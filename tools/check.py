#!/usr/bin/env python3
"""Run the property-based check of one property.

  check.py C01 [--tier quick|thorough] [--replay FILE] [--test NAME] [--scale X]

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id>
replay=<path>": a generated case violates it (shrunk, confirmed by replay).
"""
import argparse, glob, json, os, resource, shutil, signal, subprocess, sys, tempfile, time, hashlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
VERIF = vbuild.VERIF

ENVV = dict(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',
            OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_hwloc_base_binding_policy='none',
            OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none',
            OMPI_MCA_plm_rsh_agent='sh', OMPI_MCA_mpi_yield_when_idle='1',
            OMPI_MCA_oob_tcp_if_include='lo', OMP_NUM_THREADS='1',
            OMPI_MCA_opal_signal='', OMPI_MCA_orte_abort_print_stack='0',
            ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=0',
            UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:abort_on_error=1')
SLOTS = int(os.environ.get('VERIF_SLOTS', '8'))


def log(*a):
    print(*a, flush=True)


class Runner:
    def __init__(self, pid, variant, tier, seed, scratch, known):
        self.pid, self.variant, self.tier, self.seed = pid, variant, tier, seed
        self.exe = os.path.join(vbuild.BUILD, variant, pid)
        self.scratch = scratch
        self.known = known
        self.env = dict(os.environ, **ENVV)
        self.env['TMPDIR'] = '/tmp'
        self.n = 0

    def cmd(self, np, args):
        c = [self.exe] + args
        if self.tier == 'thorough':
            c.append('--thorough')
        if np > 1:
            c = ['mpirun', '--oversubscribe', '-np', str(np)] + c
        return c

    def spawn(self, np, args, tag):
        self.n += 1
        d = os.path.join(self.scratch, f'{self.variant}{self.n}')
        os.makedirs(d)
        out = os.path.join(d, 'out')
        logf = open(os.path.join(d, 'log'), 'wb')
        full = args + ['--journal', os.path.join(d, 'journal'), '--out', out, '--scratch', d]
        if self.known:
            full += ['--known', ','.join(self.known)]
        p = subprocess.Popen(self.cmd(np, full), stdout=logf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             env=self.env, cwd=d, start_new_session=True)
        logf.close()
        return dict(p=p, dir=d, out=out, np=np, t0=time.time(), tag=tag, last=time.time(), lastv=None)

    @staticmethod
    def kill(j):
        try:
            os.killpg(j['p'].pid, signal.SIGKILL)
        except OSError:
            pass
        j['p'].wait()

    @staticmethod
    def journal(j, np):
        f = os.path.join(j['dir'], 'journal' + ('.0' if np > 1 else ''))
        try:
            with open(f, 'rb') as fh:
                b = fh.read(32)
                import struct
                magic, ci, started, n = struct.unpack('4Q', b)
                if magic != 0x50425431:
                    return None
                n = min(n, 1 << 16)
                ch = struct.unpack('%dQ' % n, fh.read(8 * n)) if n else ()
                return ci, started, list(ch)
        except Exception:
            return None

    def verdict(self, j):
        """after the process ended: None if ok, else dict(kind,message,choices,slug)"""
        rc = j['p'].returncode
        if rc == 0:
            return None
        fails = []
        for f in sorted(glob.glob(j['out'] + '.fail*')):
            try:
                fails.append(json.load(open(f)))
            except Exception:
                pass
        if fails:
            f = fails[0]
            return dict(kind='fail', message=f['message'], choices=f['choices'], slug=f.get('slug', ''), desc=f.get('desc', ''), case=f['case'])
        jr = self.journal(j, j['np'])
        tail = ''
        try:
            tail = open(os.path.join(j['dir'], 'log'), 'rb').read()[-1500:].decode('utf8', 'replace')
        except Exception:
            pass
        if jr is None or jr[1] == 0:
            return dict(kind='infra', message=f'rc={rc} before any case: {tail}', choices=None, slug='', desc='', case=-1)
        return dict(kind='crash', message=f'process died rc={rc}: {tail[-600:]}', choices=jr[2], slug='', desc='', case=jr[0])

    def replay(self, test, np, choices, timeout):
        f = os.path.join(self.scratch, f'r{self.n}_{time.time_ns()}')
        with open(f, 'w') as fh:
            fh.write(' '.join(map(str, choices)) + '\n')
        j = self.spawn(np, ['--test', test, '--replay', f], 'replay')
        j['rf'] = f
        j['deadline'] = time.time() + timeout
        return j

    def finish(self, j, timeout_is_fail):
        """poll; returns (done, verdict)"""
        if j['p'].poll() is None:
            if time.time() > j['deadline']:
                self.kill(j)
                shutil.rmtree(j['dir'], ignore_errors=True)
                if timeout_is_fail:
                    return True, dict(kind='hang', message='no answer within the time limit', choices=None, slug='', desc='', case=-1)
                return True, None
            return False, None
        v = self.verdict(j)
        if v and v['kind'] == 'infra':
            v = None
        self.kill_group(j)
        shutil.rmtree(j['dir'], ignore_errors=True)
        return True, v

    @staticmethod
    def kill_group(j):
        try:
            os.killpg(j['p'].pid, signal.SIGKILL)
        except OSError:
            pass

    def replay_wait(self, test, np, choices, timeout, hang):
        j = self.replay(test, np, choices, timeout)
        while True:
            d, v = self.finish(j, hang)
            if d:
                return v
            time.sleep(0.005)


def shrink(R, test, np, choices, hang, tmo, budget):
    """greedy choice-sequence shrinking with parallel candidate evaluation"""
    t_end = time.time() + budget
    best = list(choices)
    par = max(1, SLOTS // max(1, np))

    def cands(c):
        n = len(c)
        # truncations and chunk deletions
        size = n
        while size >= 1:
            i = n - size
            while i >= 0:
                yield c[:i] + c[i + size:]
                i -= size
            size //= 2
            if size and n / size > 64:
                break
        size = min(n, 8)
        # zero chunks
        for size in (16, 4, 1):
            for i in range(0, n, size):
                if any(c[i:i + size]):
                    yield c[:i] + [0] * len(c[i:i + size]) + c[i + size:]
        for i in range(n):
            if c[i] > 0:
                yield c[:i] + c[i + 1:]
        for i in range(n):
            if c[i] > 1:
                yield c[:i] + [c[i] // 2] + c[i + 1:]
        for i in range(n):
            if c[i] > 0:
                yield c[:i] + [c[i] - 1] + c[i + 1:]

    def simpler(a, b):
        return (len(a), sum(1 for x in a if x), sum(min(x, 1 << 20) for x in a)) < (len(b), sum(1 for x in b if x), sum(min(x, 1 << 20) for x in b))

    best_v = None
    tried = set()
    improved = True
    while improved and time.time() < t_end:
        improved = False
        gen = cands(best)
        running = []
        found = None
        exhausted = False
        while time.time() < t_end:
            while not exhausted and len(running) < par and found is None:
                try:
                    c = next(gen)
                except StopIteration:
                    exhausted = True
                    break
                k = tuple(c)
                if k in tried or not simpler(c, best):
                    continue
                tried.add(k)
                running.append((R.replay(test, np, c, tmo), c))
            if not running:
                break
            nr = []
            for j, c in running:
                d, v = R.finish(j, hang)
                if not d:
                    nr.append((j, c))
                elif v and found is None:
                    found = (v['choices'] if v.get('choices') is not None and len(v['choices']) <= len(c) else c, v)
            running = nr
            if found and not running:
                break
            if found:
                # let the rest go
                for j, c in running:
                    R.kill(j)
                    shutil.rmtree(j['dir'], ignore_errors=True)
                running = []
                break
            time.sleep(0.003)
        for j, c in running:
            R.kill(j)
            shutil.rmtree(j['dir'], ignore_errors=True)
        if found:
            best, best_v = found
            improved = True
    return best, best_v


def load_known(pid):
    """KNOWN_FINDINGS: 'finding: property=C01 slug=abc replay=corpus/.. text'"""
    res = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                kv = {}
                words = l[len('finding:'):].split()
                text = []
                for w in words:
                    if '=' in w and w.split('=')[0] in ('property', 'slug', 'replay') and not text:
                        k, x = w.split('=', 1)
                        kv[k] = x
                    else:
                        text.append(w)
                if kv.get('property') == pid:
                    kv['text'] = ' '.join(text)
                    res.append(kv)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--test')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--no-shrink', action='store_true')
    ap.add_argument('--asan', action='store_true', help='sanitizers in the quick tier too')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    a = ap.parse_args()
    pid, tier, seed = a.pid, a.tier, a.seed
    t0 = time.time()
    DEADLINE = t0 + (600 if tier == 'quick' else 3 * 3600)
    HANG = 60 if tier == 'quick' else 300
    variants = ['plain']
    al = os.path.join(VERIF, 'tools', 'asan_list')
    if (tier == 'thorough' or a.asan) and os.path.exists(al) and pid in open(al).read().split():
        variants.append('asan')
    if vbuild.build([f'{v}/{pid}' for v in variants]):
        log(f'ERROR: {pid}: build failed')
        return 2
    tb = time.time() - t0
    findings = load_known(pid)
    known = [f['slug'] for f in findings if f.get('slug')]
    scratch = tempfile.mkdtemp(prefix=f'verif_{pid}_', dir='/tmp')
    try:
        return run(a, pid, tier, seed, variants, scratch, findings, known, t0, tb, DEADLINE, HANG)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def save_replay(pid, test, np, variant, v, choices):
    d = os.path.join(VERIF, 'replay_out')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps([test, np, choices]).encode()).hexdigest()[:10]
    p = os.path.join(d, f'{pid}-{test}-{h}.json')
    with open(p, 'w') as f:
        json.dump(dict(property=pid, test=test, np=np, variant=variant, choices=choices, kind=v['kind'],
                       message=v['message'], desc=v.get('desc', '')), f, indent=1)
    return os.path.relpath(p, VERIF)


def run(a, pid, tier, seed, variants, scratch, findings, known, t0, tb, DEADLINE, HANG):
    Rs = {v: Runner(pid, v, tier, seed, scratch, known) for v in variants}
    R = Rs['plain']
    tests = json.loads(subprocess.check_output([R.exe, '--list'], text=True, env=R.env))
    tmap = {t['name']: t for t in tests}

    if a.replay:
        r = json.load(open(a.replay))
        R = Rs.get(r.get('variant', 'plain'), R)
        v = R.replay_wait(r['test'], r.get('np', 1), r['choices'], HANG, True)
        if v:
            log(f"reproduced: {v['kind']}: {v['message']}\n  case: {v.get('desc','')}")
            if v.get('slug') and v['slug'] in known:
                return 0
            log(f'VIOLATION property={pid} replay={a.replay}')
            return 1
        log('the replayed case passes')
        return 0

    viol = None
    # 1. committed regression corpus (minimal inputs of past findings)
    ncorpus = 0
    kf = {f.get('replay'): f for f in findings if f.get('replay')}
    for f in sorted(glob.glob(os.path.join(VERIF, 'corpus', pid, '*.json'))):
        r = json.load(open(f))
        if r['test'] not in tmap:
            continue
        RR = Rs.get(r.get('variant', 'plain'), R)
        v = RR.replay_wait(r['test'], r.get('np', 1), r['choices'], HANG, True)
        ncorpus += 1
        rel = os.path.relpath(f, VERIF)
        if rel in kf:
            if v and v.get('slug') == kf[rel].get('slug'):
                log(f"KNOWN-FINDING: property={pid} {kf[rel]['text']}")
                continue
            if not v:
                log(f"note: known finding {kf[rel].get('slug')} no longer fails")
                continue
        if v and not (v.get('slug') and v['slug'] in known):
            v2 = RR.replay_wait(r['test'], r.get('np', 1), r['choices'], HANG, True)
            if v2:
                viol = (r['test'], r.get('np', 1), r.get('variant', 'plain'), v, r['choices'])
                break
    # 2. generated search
    jobs = []
    skipped_infra = []
    for t in tests:
        if a.test and t['name'] != a.test:
            continue
        vs = variants if 'asan' in variants else ['plain']
        for v in vs:
            for np in t['nps']:
                if v == 'asan' and np > 1:
                    continue
                total = t['quick'] if tier == 'quick' else t['thorough']
                total = max(1, int(total * a.scale))
                if v == 'asan':
                    total = max(1, total // 4)
                sh = max(1, min(SLOTS // np if np <= SLOTS else 1, total // 4 if total >= 4 else 1))
                for k in range(sh):
                    jobs.append((t['name'], v, np, k, sh, total))
    # large np first, then round robin over tests so no test starves
    jobs.sort(key=lambda x: (-x[2], x[3]))
    running, results, failures = [], [], []
    failures_t = None
    inconclusive = []
    qi = 0
    if viol is None:
        pend = list(jobs)
        while pend or running:
            free = SLOTS - sum(min(j['np'], SLOTS) for j in running)
            i = 0
            while i < len(pend) and free > 0 and not failures:
                name, v, np, k, sh, total = pend[i]
                if min(np, SLOTS) <= free:
                    pend.pop(i)
                    left = max(5, DEADLINE - time.time())
                    # the seed differs per process count so every np sees its own cases
                    sd = seed * 1000 + np + (500 if v == 'asan' else 0)
                    j = Rs[v].spawn(np, ['--test', name, '--seed', str(sd), '--start', str(k), '--stride', str(sh),
                                         '--count', str(total), '--time', str(int(left))], None)
                    j.update(test=name, variant=v)
                    running.append(j)
                    free -= min(np, SLOTS)
                else:
                    i += 1
            if failures:
                pend = []
            nr = []
            for j in running:
                rc = j['p'].poll()
                RR = Rs[j['variant']]
                if rc is None:
                    now = time.time()
                    if now - j.get('chk', 0) > 1:
                        j['chk'] = now
                        jr = RR.journal(j, j['np'])
                        key = jr[:2] if jr else None
                        if key != j['lastv']:
                            j['lastv'] = key
                            j['last'] = now
                    if now - j['last'] > HANG:
                        jr = RR.journal(j, j['np'])
                        RR.kill(j)
                        if jr and jr[1]:
                            failures.append((j['test'], j['np'], j['variant'],
                                             dict(kind='hang', message=f'case made no progress for {HANG}s', choices=jr[2], slug='', desc='', case=jr[0])))
                        else:
                            skipped_infra.append(f"{j['test']} np={j['np']}: did not start")
                    elif failures and now - j['t0'] > 0 and failures_t and now - failures_t > 3:
                        RR.kill(j)
                    else:
                        nr.append(j)
                    continue
                vd = RR.verdict(j)
                RR.kill_group(j)
                if vd is None:
                    try:
                        r = json.load(open(j['out']))
                        r.update(test=j['test'], np=j['np'], variant=j['variant'])
                        results.append(r)
                        if r['timed_out']:
                            inconclusive.append(f"{j['test']} np={j['np']}")
                    except Exception as e:
                        skipped_infra.append(f"{j['test']} np={j['np']}: no result ({e})")
                elif vd['kind'] == 'infra':
                    if j.get('retry', 0) < 2:
                        skipped_infra.append(f"{j['test']} np={j['np']}: {vd['message'][-300:]}")
                    # a start-up failure says nothing about the property
                else:
                    failures.append((j['test'], j['np'], j['variant'], vd))
                    failures_t = time.time()
                shutil.rmtree(j['dir'], ignore_errors=True)
            running = nr
            if failures and failures_t is None:
                failures_t = time.time()
            time.sleep(0.01)
        # 3. confirm and shrink
        failures.sort(key=lambda f: (f[1], f[3]['kind'] == 'hang', len(f[3]['choices'])))
        for test, np, variant, v in failures:
            RR = Rs[variant]
            hang = v['kind'] == 'hang'
            conf = [RR.replay_wait(test, np, v['choices'], HANG, True) for _ in range(2)]
            if not all(conf):
                # rerun the whole case from its seed is equivalent to the replay; a case that
                # does not fail again is not believed
                log(f"note: {test} np={np} case {v['case']} failed once ({v['kind']}: {v['message'][:200]}) but not on replay; not reported")
                inconclusive.append(f'{test} np={np} unreproduced {v["kind"]}')
                continue
            if v.get('slug') and v['slug'] in known:
                continue
            best, bv = v['choices'], None
            if not a.no_shrink:
                tmo = 20 if not hang else 30
                best, bv = shrink(RR, test, np, v['choices'], hang, tmo, 60 if tier == 'quick' else 240)
                fin = RR.replay_wait(test, np, best, HANG, True)
                if not fin:
                    best, bv = v['choices'], None
                else:
                    bv = fin
            viol = (test, np, variant, bv or conf[0], best)
            break
    evals = sum(r['evaluations'] for r in results)
    hs = set()
    labels, samples, per = {}, [], {}
    seen_s = {}
    for r in results:
        for h in r['hashes']:
            hs.add((r['test'], r['np'], h))
        for k, x in r['labels'].items():
            kk = f"{r['test']}:{k}"
            labels[kk] = labels.get(kk, 0) + x
        for s in r['samples']:
            c = seen_s.setdefault(r['test'], 0)
            if c < 2:
                seen_s[r['test']] = c + 1
                samples.append(f"{r['test']} np={r['np']}: {s}"[:500])
        p = per.setdefault(f"{r['test']}/np{r['np']}/{r['variant']}", dict(cases=0, nontrivial=0, discarded=0, cpu_s=0))
        p['cases'] += r['evaluations']
        p['nontrivial'] += len(r['hashes'])
        p['discarded'] += r['discards']
        p['cpu_s'] = round(p['cpu_s'] + r['wall'], 2)
    rule = ' | '.join(f"{t['name']}: {t['rule']}" for t in tests)
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=len(hs),
                            rule='each case is a sequence of choices drawn from a generator seeded by (VERIF_SEED, test, case index); non-trivial: ' + rule,
                            samples=samples[:24] or ['(no case completed)'], per_test=per, labels=labels, corpus_replayed=ncorpus,
                            inconclusive=inconclusive, infra=skipped_infra[:5]),
              wall_s=round(time.time() - t0, 2), violations=1 if viol else 0,
              assumptions=['g++ -O1 with library exceptions and bounds checks on; OpenMPI over shared memory on one host'])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', f'{pid}.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)
    log(f'{pid} {tier} seed={seed}: {evals} cases, {len(hs)} distinct non-trivial, build {tb:.1f}s, total {time.time()-t0:.1f}s'
        + (f', inconclusive: {inconclusive}' if inconclusive else '') + (f', infra: {skipped_infra[:3]}' if skipped_infra else ''))
    if viol:
        test, np, variant, v, choices = viol
        path = save_replay(pid, test, np, variant, v, choices)
        log(f"counterexample ({test}, np={np}, {v['kind']}): {v['message']}\n  case: {v.get('desc','')}\n  choices: {choices[:60]}{'...' if len(choices)>60 else ''}")
        log(f'VIOLATION property={pid} replay={path}')
        return 1
    if evals == 0:
        log(f'ERROR: {pid}: nothing ran')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
