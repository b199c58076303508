"""check.py ID: decide one property on the current tree of /repo."""
import json
import multiprocessing as mp
import os
import subprocess
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(30000)
import build
import registry

V = build.V
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
QUICK = TIER == 'quick'


def say(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- proof goals in parallel
def worker(vcs, goal, limit, q):
    import resource
    import goals as GO
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    vc = vcs[goal.prof]
    vc.deadline = time.time() + limit
    try:
        r = GO.run(vc, goal.name, goal.f, goal.args, goal.kw)
    except MemoryError:
        r = dict(name=goal.name, status='undecided', reason='out of memory')
    q.put(r)
    q.close()
    q.join_thread()


def blank(goal, reason):
    return dict(name=goal.name, status='undecided', reason=reason, obligations=0, discharged=0, failed=[], hints=[], used=[], assumed=[], loops=[], smt=0, smt_t=0, time=0, notes=[])


def prove(vcs, goals, per_goal, total, jobs=8, stop=None):
    """Run every goal in its own process."""
    ctx = mp.get_context('fork')
    todo = sorted(goals, key=lambda g: (g.last, -g.cost))
    running = {}
    results = {}
    t_end = time.time() + total
    while todo or running:
        while todo and len(running) < jobs:
            g = todo.pop(0)
            left = t_end - time.time()
            if stop is not None and stop.is_set():
                results[g.name] = blank(g, 'not run: a failing input was found')
                continue
            if left < 2:
                results[g.name] = blank(g, 'time limit of the check')
                continue
            q = ctx.Queue()
            lim = min(per_goal, left, 240 if g.last and g.cost > 1000 else 100 if g.last else left)
            p = ctx.Process(target=worker, args=(vcs, g, lim, q))
            p.start()
            running[g.name] = (g, p, q, time.time() + lim + 5)
        for n in list(running):
            g, p, q, end = running[n]
            r = None
            try:
                r = q.get(timeout=0.02)
            except Exception:
                if not p.is_alive():
                    try:
                        r = q.get(timeout=0.2)
                    except Exception:
                        r = blank(g, 'the prover process ended')
                elif time.time() > end:
                    r = blank(g, 'time limit')
                elif stop is not None and stop.is_set():
                    end = min(end, time.time() + 3)
                    running[n] = (g, p, q, end)
            if r is not None:
                b = blank(g, '')
                b.update(r)
                b['goal'] = g.name
                results[n] = b
                p.kill()
                p.join()
                del running[n]
    return [results[g.name] for g in goals]


# ---------------------------------------------------------------- replay harness
def numbers(root='/repo/src'):
    """Unusual number literals and short string literals of the sources (constant tables and tests left out): values the replay
    tries as elements, lengths, round numbers, bytes and history lengths.  A search aid only."""
    import re
    out = set()
    words = set()
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if not f.endswith('.rs') or 'instance' in f:
                continue
            try:
                t = open(os.path.join(d, f), errors='replace').read()
            except OSError:
                continue
            t = re.sub(r'//[^\n]*|/\*.*?\*/', '', t, flags=re.S)
            t = re.split(r'#\[cfg\(test\)\]', t)[0]
            t = re.sub(r'#\[(modulus|generator)[^\]]*\]', '', t)
            for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:usize|u8|u16|u32|u64|u128|i32|i64)?(?:\s*<<\s*([0-9]+))?', t):
                try:
                    v = int(m.group(1).replace('_', ''), 0) if m.group(1)[:2] in ('0x', '0b') else int(m.group(1).replace('_', '') or '0')
                except ValueError:
                    continue
                if m.group(2) and int(m.group(2)) < 128:
                    v <<= int(m.group(2))
                if 24 < v < 1 << 127:
                    out.add(v)
            for m in re.finditer(r'"((?:[^"\\\n]|\\.){1,12})"|\'([^\\\n])\'', t):
                words.add((m.group(1) or m.group(2)).encode('utf-8', 'replace').hex())
    return sorted(out)[:64], sorted(words)[:64]


class Harness:
    def __init__(self, profs):
        self.exe = {}
        self.err = {}
        self.dict, self.words = [','.join(map(str, x)) for x in numbers()]
        self.th = []
        for pr in profs:
            t = threading.Thread(target=self.build, args=(pr,))
            t.start()
            self.th.append(t)

    def build(self, pr):
        try:
            self.exe[pr] = build.harness(pr == 'release')
        except Exception as e:
            self.err[pr] = str(e)

    def wait(self):
        for t in self.th:
            t.join()

    def cmd(self, pr, args, timeout, env=None):
        def lim():
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        try:
            p = subprocess.run([self.exe[pr]] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, env=dict(os.environ, HARNESS_DICT=self.dict, HARNESS_WORDS=self.words, **(env or {})), preexec_fn=lim)
            return p.returncode, p.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired as e:
            return None, (e.stdout or b'').decode(errors='replace')

    def run(self, prop, seed, secs):
        """[(profile, case, detail)], statistics."""
        fails, stats = [], []
        res = {}

        def go(pr):
            cur = os.path.join(V, 'build', 'case.%s.%s' % (prop, pr))
            if os.path.exists(cur):
                os.unlink(cur)
            rc, out = self.cmd(pr, ['run', prop, str(seed), str(secs)], secs + 240, {'HARNESS_TRACE': cur})
            if rc is not None and rc < 0 and os.path.exists(cur):
                # the process was ended by a signal (stack, memory): is it this case?
                t = open(cur).read()
                r2, _ = self.cmd(pr, ['case', t], 120)
                if r2 is not None and r2 < 0:
                    out += '\nFAIL %s || the process was ended by signal %d' % (t, -r2)
            res[pr] = rc, out
        ts = [threading.Thread(target=go, args=(pr,)) for pr in self.exe]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for pr, (rc, out) in res.items():
            st = dict(profile=pr, seed=seed, evaluations=0, distinct=0, samples=[])
            for l in out.splitlines():
                if l.startswith('FAIL '):
                    c, _, d = l[5:].partition(' || ')
                    fails.append((pr, c, d))
                elif l.startswith('SAMPLE '):
                    st['samples'].append(l[7:])
                elif l.startswith('DONE '):
                    for kv in l.split()[1:]:
                        k, v = kv.split('=')
                        st[k] = int(v)
            st['rc'] = rc
            stats.append(st)
        return fails, stats

    def cases(self, cs, timeout=120, t_end=None):
        fails = []
        for i in range(0, len(cs), 50):
            for pr in self.exe:
                if t_end and time.time() > t_end:
                    return fails
                rc, out = self.cmd(pr, ['case'] + cs[i:i + 50], timeout)
                for l in out.splitlines():
                    if l.startswith('FAIL '):
                        c, _, d = l[5:].partition(' || ')
                        fails.append((pr, c, d))
                if fails:
                    return fails
        return fails

    def dump(self, pr):
        rc, out = self.cmd(pr, ['dump'], 120)
        return [json.loads(l) for l in out.splitlines() if l.startswith('{')]


# ---------------------------------------------------------------- known findings
def known(pid):
    """Listed findings: lines 'finding: property=ID case=<prefix> <text>'."""
    out = []
    p = os.path.join(V, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % pid):
                out.append(l.split(' ', 2)[2].strip())
    return out


def main():
    pid = sys.argv[1]
    P = registry.PROPS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(V, 'build'), exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    profs = P.profiles
    h = Harness(profs) if P.harness else None
    kf = known(pid)
    fails, stats = [], []
    extra = dict(checks=[], stats={})
    found = threading.Event()

    def unlisted(f):
        return not any(f[1].startswith(k.split(' || ')[0]) for k in kf)

    def replay():
        h.wait()
        if not h.exe:
            return
        if P.table:
            try:
                for pr in P.table_profiles:
                    if pr in h.exe:
                        x = P.table(h.dump(pr), QUICK)
                        extra['checks'] += [(c[0] + (' [release]' if pr == 'release' else ''), c[1], c[2]) for c in x['checks']]
                        extra['stats'].update(x['stats'])
            except Exception:
                import traceback
                extra.update(checks=[], stats={}, error=traceback.format_exc())
                say('NOTE table check error', extra['error'])
            for name, ok, detail in extra['checks']:
                if not ok:
                    fails.append(('table', name, detail))
        if P.harness_run:
            f, s = h.run(pid, SEED, P.secs if QUICK else 15 * P.secs)
            fails.extend(f)
            stats.extend(s)
        if any(unlisted(f) for f in fails):
            found.set()
    rt = threading.Thread(target=replay)
    if h:
        rt.start()
    err = None
    res = []
    goals = P.goals(QUICK)
    try:
        from engine import Program
        from vc import VC
        exe = build.tools()
        models = Program(build.models(exe), 'models')
        vcs = {}
        for pr in ('debug', 'release'):
            if any(g.prof == pr for g in goals):
                vcs[pr] = VC(Program(build.mir(exe, pr == 'release'), 'zkhash'), models)
        tb = time.time() - t0
        res = prove(vcs, goals, P.per_goal if QUICK else 3 * P.per_goal, 420 if QUICK else 3000, stop=found)
    except Exception as e:
        err = 'the MIR could not be produced: %s' % str(e)[-2000:]
        say('NOTE', err)
    tp = time.time() - t0
    for r in res:
        say('%-10s %-60s obligations %4d  smt %5d  %6.1f s  %s' % (r['status'], r['name'], r['obligations'], r['smt'], r['time'], r['reason'][:200].replace('\n', ' ')))
        for f in r['failed'][:3]:
            say('           failed: %s -- %s' % (f[0], f[1][:300]))
    failed = [r for r in res if r['status'] == 'failed']
    undec = [r for r in res if r['status'] == 'undecided']
    if h:
        rt.join()
        for pr, e in h.err.items():
            say('NOTE harness (%s) does not build: %s' % (pr, e[-600:]))
        if h.exe:
            if (undec or err) and not fails and P.harness_run:
                f, s = h.run(pid, SEED + 500, 30 if QUICK else 240)
                fails += f
                stats += s
            if undec and not fails:
                # inputs that drive the code into the branches the undecided goals saw
                byname = {g.name: g for g in goals}
                cs = []
                for r in undec:
                    g = byname[r['name']]
                    if g.cases and r['hints']:
                        cs.append(g.cases(r['hints'], True))
                cs = list(dict.fromkeys(x[i] for i in range(max(map(len, cs), default=0)) for x in cs if i < len(x)))
                if cs:
                    say('searching: %d cases from %d undecided goals' % (len(cs), len(undec)))
                    fails += h.cases(cs[:6000], t_end=time.time() + (60 if QUICK else 600))
            if failed and not fails:
                # search for an input that shows the failed obligation
                byname = {g.name: g for g in goals}
                cs = []
                for r in failed:
                    g = byname[r['name']]
                    if g.cases:
                        cs += g.cases(r['hints'])
                cs = list(dict.fromkeys(cs))
                say('searching: %d cases from %d failed goals' % (len(cs), len(failed)))
                fails += h.cases(cs[:3000])
                if not fails:
                    f, s = h.run(pid, SEED + 1000, 60)
                    fails += f
                    stats += s
    new = []
    for f in fails:
        if not unlisted(f):
            say('KNOWN-FINDING: property=%s %s' % (pid, f[1]))
        else:
            new.append(f)
    violation = None
    rp = os.path.join(V, 'evidence', pid + '.replay.txt')
    if os.path.exists(rp):
        os.unlink(rp)
    if new:
        with open(rp, 'w') as o:
            o.write('property %s is violated\n\n' % pid)
            for pr, c, d in new[:20]:
                if pr == 'table':
                    o.write('constant table check: %s\n  %s\n' % (c, d))
                    o.write('replay: %s dump\n\n' % h.exe[next(iter(h.exe))])
                else:
                    o.write('case (%s profile): %s\n  %s\nreplay: HARNESS_DICT=%s HARNESS_WORDS=%s %s case "%s"\n\n' % (pr, c, d, h.dict, h.words, h.exe[pr], c))
            for r in failed:
                for f in r['failed'][:5]:
                    o.write('failed obligation [%s] %s\n  %s\n' % (r['name'], f[0], f[1]))
        violation = 'VIOLATION property=%s replay=%s' % (pid, rp)
        say(new[0][1], '||', new[0][2][:400])
    elif failed:
        with open(rp, 'w') as o:
            o.write('property %s: obligations that do not hold on this tree (no failing input was found)\n\n' % pid)
            for r in failed:
                o.write('goal %s\n' % r['name'])
                for f in r['failed']:
                    o.write('  failed obligation: %s\n    %s\n' % f)
                o.write('  loops: %s\n  hints: %s\n' % (r['loops'], r['hints']))
        violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)
    used, assumed = set(), set()
    for r in res:
        used |= set(r['used'])
        assumed |= set(r['assumed'])
    obl = sum(r['obligations'] for r in res) + len(extra['checks'])
    dis = sum(r['obligations'] - len(r['failed']) for r in res if r['status'] != 'undecided') + sum(1 for c in extra['checks'] if c[1])
    ev = sum(s['evaluations'] for s in stats)
    cov = dict(
        obligations=obl, discharged=dis,
        checker_cmd='python3-vt /verif/mirvc/check.py %s' % pid,
        trusted_base=P.trusted,
        goals=len(res), goals_proved=sum(1 for r in res if r['status'] == 'proved'), goals_undecided=[(r['name'], r['reason'][:300]) for r in undec],
        goals_failed=[(r['name'], r['failed'][:3]) for r in failed],
        functions_under_contract=sorted(used), external_contracts_assumed=sorted(assumed),
        backend='z3 (integer conditions, path feasibility) and the polynomial normaliser of mirvc (field identities)',
        smt_queries=sum(r['smt'] for r in res), smt_seconds=round(sum(r['smt_t'] for r in res), 2), prover_seconds=round(sum(r['time'] for r in res), 1),
        loop_invariants=sum(1 for r in res for l in r['loops'] if isinstance(l[1], dict)),
        samples=[dict(goal=r['name'], loops=r['loops'][:4]) for r in res[:3]],
        table_checks=dict(total=len(extra['checks']), failed=sum(1 for c in extra['checks'] if not c[1]), names=[c[0] for c in extra['checks']][:60], **extra['stats']),
        bounded_stand_in=dict(evaluations=ev, distinct_nontrivial=sum(s['distinct'] for s in stats), rule=P.rule,
                              samples=[x for s in stats for x in s['samples']][:8], note='replay of the property on the real code; counted as bounded, never as proved'),
        evaluations=ev, distinct_nontrivial=sum(s['distinct'] for s in stats), rule=P.rule,
        build_log=build.LOG,
    )
    if P.explanation:
        cov['explanation'] = P.explanation
    if err:
        cov['mir_error'] = err
    doc = dict(property=pid, tier=TIER, seed=SEED, level=P.level, coverage=cov, assumptions=P.assumptions, wall_s=round(time.time() - t0, 2), violations=len(new) + (len(failed) if not new else 0))
    json.dump(doc, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    say('%s: %d goals (%d proved, %d failed, %d undecided), %d obligations, %d replayed cases, build+proof %.0f s, total %.0f s' % (
        pid, len(res), cov['goals_proved'], len(failed), len(undec), obl, ev, tp, time.time() - t0))
    if violation:
        say(violation)
        sys.exit(1)
    if err and not (h and h.exe):
        say('no answer: neither the MIR nor the harness could be built')
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
