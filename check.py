#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only REGEX] [-v]
Decides one property: builds the harness executables from /repo's working tree, explores every path of each scenario
symbolically (engine/), replays counterexamples against the native build and writes evidence/<property>.json.
check.py --replay FILE     runs a recorded counterexample natively again
Exit 0: held on everything explored; 1: VIOLATION; 2: no answer (error)."""
import os, sys
if not os.environ.get('VERIF_PY'):
    os.environ['VERIF_PY'] = '1'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execvp('python3-vt', ['python3-vt', '-B', os.path.abspath(__file__)] + sys.argv[1:])
import threading
import json, re, time, hashlib, subprocess, shutil, multiprocessing, signal, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
from specs import SPECS, CONFIGS, COMMON_BOUNDS, XREGS

EVD = os.environ.get('VERIF_EVD') or os.path.join(HERE, 'evidence')


# ------------------------------------------------------------------ building
def tree_hash():
    h = hashlib.sha256()
    for root in (REPO, os.path.join(HERE, 'harness')):
        for d, ds, fs in sorted(os.walk(root)):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'tests', 'benches', 'examples'))
            for f in sorted(fs):
                if f.endswith(('.rs', '.toml', '.lock', '.S', '.s', '.asm')):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    return h.hexdigest()[:16]


def build_env(cfg):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO_', 'RUST')) or k in ('CARGO_HOME', 'RUSTUP_HOME')}
    e.setdefault('HOME', '/root')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.update(RUSTUP_TOOLCHAIN=CONFIGS[cfg].get('toolchain', '1.99.1'), CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             RUSTUP_AUTO_INSTALL='0', CARGO_INCREMENTAL='0')
    if CONFIGS[cfg].get('rustflags'):
        e['RUSTFLAGS'] = CONFIGS[cfg]['rustflags']
    e.update(CONFIGS[cfg].get('env', {}))
    if CONFIGS[cfg].get('bootstrap'):
        e['RUSTC_BOOTSTRAP'] = '1'
    if CONFIGS[cfg].get('cross'):
        e['CARGO_TARGET_%s_LINKER' % CONFIGS[cfg]['target'].upper().replace('-', '_')] = os.path.join(HERE, 'engine', 'winld.py' if 'windows' in CONFIGS[cfg]['target'] else 'crossld.py')
        e['CROSS_LLD'] = os.path.join(llvm_bin(), 'rust-lld')
    return e


def llvm_bin():
    """directory of the toolchain's own linker and disassembler"""
    if 'CROSS_BIN' not in os.environ:
        p = subprocess.run(['rustc', '+stable', '--print', 'sysroot'], stdout=subprocess.PIPE, env=dict(
            os.environ, PATH='/root/.cargo/bin:' + os.environ.get('PATH', '/usr/bin:/bin')))
        os.environ['CROSS_BIN'] = p.stdout.decode().strip() + '/lib/rustlib/x86_64-unknown-linux-gnu/bin'
    return os.environ['CROSS_BIN']


_hlock = threading.Lock()


def build(cfg, bins, root):
    c = CONFIGS[cfg]
    td = os.path.join(root, cfg)
    cmd = ['cargo', 'build', '--offline', '--target', c['target']]
    if c.get('cross'):
        cmd.append('-Zbuild-std=std')
    if c['profile'] == 'release':
        cmd.append('--release')
    if c['features']:
        cmd += ['--features', ','.join(c['features'])]
    for b in bins:
        cmd += ['--bin', b]
    e = build_env(cfg)
    e['CARGO_TARGET_DIR'] = td
    # the manifest names /repo; another tree (used only while developing) is patched in
    hd = os.path.join(HERE, 'harness')
    if REPO != '/repo':
        hd = os.path.join(root, 'harness')
        with _hlock:
            if not os.path.isdir(hd):
                shutil.copytree(os.path.join(HERE, 'harness'), hd, ignore=shutil.ignore_patterns('target'))
                p = os.path.join(hd, 'Cargo.toml')
                s = open(p).read().replace('"/repo"', '"%s"' % REPO)
                open(p, 'w').write(s)
    p = subprocess.run(cmd, cwd=hd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = p.stdout.decode('utf8', 'replace')
    if p.returncode:
        raise RuntimeError('build of %s failed:\n%s' % (cfg, out[-4000:]))
    return {b: os.path.join(td, c['target'], 'release' if c['profile'] == 'release' else 'debug', b + ('.exe' if 'windows' in c['target'] else '')) for b in bins}


# ------------------------------------------------------------------ replay files
def replay_text(job, st, mo, what):
    """render a solver model as the input of the native run"""
    import z3
    from val import bv, BASESYM
    W = st.m.W

    def ev(t, w):
        if type(t) is int:
            return t
        return mo.eval(bv(t, w), model_completion=True).as_long()
    out = ['# property=%s config=%s bin=%s scenario=%s' % (job['prop'], job['cfg'], job['bin'], job['scen']),
           '# %s' % what.replace('\n', ' '), '# choices %s' % st.trace]
    for v in st.inputs:
        out.append('in %x' % ev(v, W))
    for e in st.info.get('sched', ()):
        out.append('first %d' % e[1] if e[0] == 'first' else 'switch %x %d' % (e[1] & ((1 << W) - 1), e[2]))
    tags = dict(st.info.get('freed', ()))
    for b, r in st.breg.items():
        tags[b] = r.tag
    for i in range(st.info['nstk']):
        b = '@stk%d' % i
        out.append('stk %x' % ev(BASESYM[b], W))
        n = 0
        for v, o in sorted(tags[b].items(), key=lambda x: x[1]):
            w = v.size()
            out.append('mem %d %s' % (o, ev(v, w).to_bytes(w // 8, 'little').hex()))
            n += 1
    return '\n'.join(out) + '\n'


def run_native(exe, scen, path, timeout=60, wrap=()):
    """-> (outcome, log); outcome: ok | diverged | fail:<text>"""
    try:
        p = subprocess.run(list(wrap) + [exe, scen, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'fail:does not terminate', []
    out = p.stdout.decode('latin1')
    log = [int(l[4:], 16) for l in out.split('\n') if l.startswith('LOG ')]
    last = [l for l in out.split('\n') if l.startswith('V')][-1:]
    if p.returncode == 0:
        return ('ok', log)
    if p.returncode in (7, 9):
        return 'diverged:%s' % last, log
    return 'fail:%s (exit %d) %s' % (last[0] if last else '', p.returncode, p.stderr.decode('latin1')[-300:].strip()), log


def write_replay(job, text, tag):
    d = os.path.join(EVD, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s-%s-%s%s.rp' % (job['prop'], job['cfg'], job['bin'], job['scen'], tag))
    open(p, 'w').write(text)
    return p


# ------------------------------------------------------------------ one exploration
_elfs = {}


def run_job(job):
    t0 = time.time()
    res = dict(job=job, kinds={}, violations=[], known=[], errors=[], samples=[], validated=0, covers=set(), funcs=set(), stats={})
    try:
        job['time_s'] = job['deadline'] - t0
        if job['time_s'] < 5:
            res['errors'].append('not explored: the time limit was reached')
        else:
            _run_job(job, res)
    except Exception:
        res['errors'].append('internal error: ' + traceback.format_exc()[-3000:])
    res['wall'] = time.time() - t0
    return res


def _run_job(job, res):
    from elf import Elf
    from pe import Pe
    import machine, x86, mem, val
    from state import PathEnd
    import z3
    key = job['exe']
    mem._n[0] = 0
    val.BASESYM.clear()
    elf = _elfs.get(key)
    if elf is None:
        elf = _elfs[key] = Pe(key) if key.endswith('.exe') else Elf(key)
    m = machine.Machine(elf, max_steps=job['max_steps'], max_paths=job['max_paths'], time_s=job['time_s'], main_align=job['main_align'],
                        max_switches=job['max_switches'], max_sched=job['max_sched'], seed=job['seed'])
    kept = []
    scen = job['scen']
    if scen not in elf.sym:
        res['errors'].append('scenario missing in executable')
        return

    def model_of(st, cond):
        ok, mo = m.solver.check(st.cons, cond, True)
        return mo if ok else None

    import random
    rng = random.Random(job['seed'] * 1000003 + sum(map(ord, job['scen'] + job['bin'])))

    def rich_model(st):
        """a model of the path with as many free inputs as possible set to random values"""
        W = m.W
        want = []
        for v in st.inputs:
            if type(v) is not int:
                want.append(v == z3.BitVecVal(rng.getrandbits(W), W))
        for i in range(st.info['nstk']):
            b = val.BASESYM['@stk%d' % i]
            want.append(b == z3.BitVecVal((rng.randrange(1 << 33, 1 << 45) if W == 64 else rng.randrange(1 << 25, 0x4ff00000)) & ~15, W))
        for _, t in list(st.info.get('freed', ())) + [(0, r.tag) for r in st.breg.values()]:
            for v in t:
                want.append(v == z3.BitVecVal(rng.getrandbits(v.size()), v.size()))
        got = []
        budget = [40]

        def go(cs):
            if not cs or budget[0] <= 0:
                return
            budget[0] -= 1
            if m.solver.check(st.cons, z3.And(*(got + cs))):
                got.extend(cs)
            elif len(cs) > 1:
                go(cs[:len(cs) // 2])
                go(cs[len(cs) // 2:])
        go(want)
        return model_of(st, z3.And(*got) if got else None)

    def on_end(st, e):
        res['kinds'][e.kind] = res['kinds'].get(e.kind, 0) + 1
        kind = e.kind
        if kind == 'abort' and st.info.get('expect_abort'):
            kind = 'done'
        if kind == 'done':
            res['covers'] |= st.covers
            # keep an evenly spread sample of the completed paths
            kept.append(st)
            if len(kept) > 2 * job['nsample']:
                del kept[1::2]
            return False
        if kind in ('violation', 'crash', 'abort', 'limit'):
            try:
                mo = model_of(st, e.cond)
            except PathEnd as p:
                res['errors'].append('%s: %s; no model: %s' % (e.kind, e.info, p.info))
                return True
            at = elf.func_at(st.pc) if type(st.pc) is int else '?'
            what = '%s: %s [in %s]' % (e.kind, e.info, at)
            if os.environ.get('VERIF_PC'):
                what += ' pc %#x' % st.pc
            path = write_replay(job, replay_text(job, st, mo, what), '-%d' % os.getpid())
            if job.get('twin'):
                out = rerun(st, mo, e.kind)
                t, _ = run_native(job['twin'], scen, path)
                if t.startswith('fail'):
                    out += '; the same inputs natively on x86: ' + t
            else:
                out, log = run_native(key, scen, path)
            if out.startswith('fail'):
                v = dict(what=what, replay=path, native=out)
                for k in job['known']:
                    if re.search(k['match'], what + ' ' + out) and re.search(k.get('job', ''), '%s/%s/%s' % (job['cfg'], job['bin'], scen)):
                        res['known'].append(k['text'])
                        return False
                res['violations'].append(v)
                return True
            res['errors'].append('not reproduced natively (%s): %s (%s)' % (out, what, path))
            return True
        at = elf.func_at(st.pc) if type(st.pc) is int else '?'
        res['errors'].append('%s: %s [in %s]' % (e.kind, e.info, at))
        return True

    def rerun(st, mo, kind):
        """confirm a counterexample by executing the encoding again with every input concrete"""
        W = m.W
        got = []
        m2 = machine.Machine(elf, max_steps=job['max_steps'], max_paths=200, time_s=120, main_align=job['main_align'],
                        max_switches=job['max_switches'], max_sched=job['max_sched'], seed=job['seed'])
        m2.pin = [v if type(v) is int else mo.eval(val.bv(v, W), model_completion=True).as_long() for v in st.inputs]
        m2.pinbase = {b: mo.eval(x, model_completion=True).as_long() for b, x in val.BASESYM.items()}
        m2.pinsys = {n: mo.eval(x, model_completion=True).as_long() for (n, w), x in val.SYSSYM.items() if w == W}

        def end2(st2, e2):
            if e2.kind == kind:
                got.append(e2)
                return True
            return False
        m2.explore(scen, end2)
        if got:
            return 'fail:concrete re-execution of the machine code: %s: %s' % (kind, got[0].info)
        return 'not confirmed'

    m.explore(scen, on_end)
    # completed paths: a model of each sampled path must give the same run natively
    if not res['violations']:
        step = max(1, (len(kept) + job['nsample'] - 1) // job['nsample'])
        for n, st in enumerate(kept[::step][:job['nsample']]):
            mo = rich_model(st)
            path = write_replay(job, replay_text(job, st, mo, 'completed path'), '-sample%d-%d' % (n, os.getpid()))
            want = [v if type(v) is int else mo.eval(val.bv(v, m.W), model_completion=True).as_long() for v in st.log]
            out, log = run_native(job.get('twin') or key, scen, path)
            if job.get('twin') and (out.startswith('diverged') or scen in XREGS.get(job['bin'], ())):
                # other registers on this architecture: not comparable with x86
                os.unlink(path)
                break
            if out != 'ok' or log != want:
                i = next((i for i in range(min(len(log), len(want))) if log[i] != want[i]), min(len(log), len(want)))
                res['errors'].append('native run differs from the encoding: %s, log %d/%d entries, first difference at %d (%s)' % (
                    out, len(log), len(want), i, path))
                break
            os.unlink(path)
            res['validated'] += 1
            if n == 0:
                ins = []
                for v in st.inputs[:12]:
                    ins.append('%x' % (v if type(v) is int else mo.eval(val.bv(v, m.W), model_completion=True).as_long()))
                res['samples'].append(dict(scenario=scen, config=job['cfg'], choices=st.trace[:40], inputs_first=ins,
                                           path_conditions=len(st.cons), assertions_on_path=len(st.log)))
    res['paths'] = m.npaths
    res['schedules'] = (m.npre, len(m.pre))
    res['stats'] = dict(vars(m.stats))
    for a in m.code:
        res['funcs'].add(elf.func_at(a))
    res['funcs'] = {f for f in res['funcs'] if 'corosensei' in f}


# ------------------------------------------------------------------ driver
def demangle(names):
    p = subprocess.run(['c++filt', '-i'], input='\n'.join(names).encode(), stdout=subprocess.PIPE)
    out = p.stdout.decode().split('\n')[:len(names)]
    r = set()
    for o in out:
        o = re.sub(r'::h[0-9a-f]{16}$', '', o)
        o = re.sub(r'\[[0-9a-f]{16}\]', '', o)
        r.add(o[:160])
    return sorted(r)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) job=(\S+) match=/(.*?)/ (.*)', l)
            if m and m.group(1) == prop:
                out.append(dict(job=m.group(2), match=m.group(3), text=m.group(4)))
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        return replay_cmd(a[1])
    if a and a[0] == '--setup':
        # nothing is built ahead: every check compiles the harness and /repo itself
        import z3, machine
        for t in ('x86_64-unknown-linux-gnu', 'i686-unknown-linux-gnu'):
            d = subprocess.run(['rustc', '--print', 'target-libdir', '--target', t], env=build_env('x64-dev'), stdout=subprocess.PIPE).stdout.decode().strip()
            if not os.path.isdir(d):
                print('missing', d)
                return 2
        print('z3', z3.get_version_string(), 'ok')
        return 0
    prop = a[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    only = None
    verbose = False
    i = 1
    while i < len(a):
        if a[i] == '--tier':
            tier = a[i + 1]; i += 1
        elif a[i] == '--only':
            only = a[i + 1]; i += 1
        elif a[i] == '-v':
            verbose = True
        i += 1
    sp = SPECS[prop]
    if os.environ.get('VERIF_CFG'):          # development: every scenario on these configurations
        for j in sp['jobs']:
            j['cfg'] = j['tcfg'] = os.environ['VERIF_CFG'].split(',')
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(EVD, exist_ok=True)
    limit = 780 if tier == 'quick' else 5400
    h = tree_hash()
    broot = os.path.join(HERE, '.build')
    root = os.path.join(broot, h)
    if os.path.isdir(broot):
        old = sorted((os.path.getmtime(os.path.join(broot, d)), d) for d in os.listdir(broot) if d != h)
        for _, d in old[:-3]:
            shutil.rmtree(os.path.join(broot, d), ignore_errors=True)
    os.makedirs(root, exist_ok=True)
    os.utime(root)
    if any(CONFIGS[c].get('cross') for c in sp['configs']):
        llvm_bin()
    plan = []
    for j in sp['jobs']:
        if j.get('tier', 'quick') == 'thorough' and tier == 'quick':
            continue
        for cfg in j['cfg'] if tier == 'quick' else j.get('tcfg', j['cfg']):
            for s in j['scen']:
                if only and not re.search(only, '%s/%s/%s' % (cfg, j['bin'], s)):
                    continue
                plan.append(dict(prop=prop, seed=seed, cfg=cfg, bin=j['bin'], scen=s, max_steps=j.get('max_steps', 3000000),
                                 max_paths=j.get('max_paths', 100000), nsample=j.get('nsample', 2 if tier == 'quick' else 6),
                                 covers=j.get('covers', {}).get(s, j.get('cover')), weight=j.get('weight', {}).get(s, 1), main_align=j.get('main_align', 4096),
                                 max_switches=j.get('max_switches', 2), max_sched=j.get('max_sched', 1500 if tier == 'quick' else 20000),
                                 time_s=limit, known=known_findings(prop)))
    errors = []
    results = []
    violations = []
    extra = {}
    bins = {}
    for j in plan:
        bins.setdefault(j['cfg'], set()).add(j['bin'])
        tw = CONFIGS[j['cfg']].get('twin')
        if tw:
            if not CONFIGS[j['cfg']]['features']:
                tw += '-nounwind'
            elif j['cfg'].endswith('-fp'):
                tw += '-fp'
            j['twincfg'] = tw
            bins.setdefault(tw, set()).add(j['bin'])
    exes = {}
    try:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            fs = {c: ex.submit(build, c, sorted(b), root) for c, b in bins.items()}
            for c, f in fs.items():
                exes[c] = f.result()
    except Exception as e:
        errors.append(str(e))
    tb = time.time() - t0
    if not errors:
        for j in plan:
            j['exe'] = exes[j['cfg']][j['bin']]
            if 'twincfg' in j:
                j['twin'] = exes[j['twincfg']][j['bin']]
            j['deadline'] = t0 + limit
        plan.sort(key=lambda j: (-j['weight'], j['exe']))
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(min(8, os.cpu_count() or 4), maxtasksperchild=40) as pool:
            for r in pool.imap_unordered(run_job, plan, chunksize=1):
                results.append(r)
                jn = '%s/%s/%s' % (r['job']['cfg'], r['job']['bin'], r['job']['scen'])
                if verbose:
                    print('%-40s %6.1fs paths=%s %s steps=%s q=%s' % (jn, r['wall'], r.get('paths'), r['kinds'],
                          r['stats'].get('steps'), r['stats'].get('queries')), flush=True)
                for e in r['errors']:
                    errors.append('%s: %s' % (jn, e))
                for k in sorted(set(r['known'])):
                    print('KNOWN-FINDING: property=%s %s' % (prop, k), flush=True)
                for v in r['violations']:
                    violations.append(v)
                    print('%s: %s\n  native: %s' % (jn, v['what'], v['native']), flush=True)
                if violations and not os.environ.get('VERIF_ALL'):
                    pool.terminate()
                    break
                if not r['errors']:
                    need = r['job']['covers'] or []
                    miss = [c for c in need if c not in r['covers']]
                    if miss or (not need and not r['covers']):
                        errors.append('%s: reachability witnesses not hit: %s' % (jn, miss or 'none at all'))
    for part in sp.get('extra', []):
        # further solver-based deciders with the same result protocol (other architectures, mocked operating systems)
        if violations or errors:
            break
        import importlib
        er = importlib.import_module(part).run(prop, tier, root, only, verbose, t0 + limit)
        errors += er['errors']
        for v in er['violations']:
            violations.append(v)
            print('%s\n  confirmed: %s' % (v['what'], v['native']), flush=True)
        results += er['results']
        extra.update(er.get('coverage', {}))
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    funcs = set()
    for r in results:
        funcs |= set(r['funcs'])
    samples = []
    for r in results:
        samples += r['samples']
    samples.sort(key=lambda s: (s.get('scenario', ''), s.get('config', '')))
    paths = sum(r.get('paths', 0) for r in results)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 1),
              violations=len(violations),
              assumptions=COMMON_BOUNDS + sp.get('assume', []),
              coverage=dict(
                  states=paths + tot.get('forks', 0),
                  transitions=tot.get('steps', 0),
                  traces_validated_against_impl=sum(r['validated'] for r in results),
                  samples=samples[:12] or ['none'],
                  explanation='states: symbolic path states (paths explored plus forks); transitions: machine instructions of the '
                              'compiled real code executed symbolically; traces validated: solver models of completed paths run '
                              'on the native build with an identical event log',
                  bounds=sp['bounds'], deciding_method=sp['technique'],
                  symbolic_paths=paths, solver_queries=tot.get('queries', 0), queries_sat=tot.get('sat', 0),
                  queries_unsat=tot.get('unsat', 0), solver_seconds=round(tot.get('solver_s', 0), 2),
                  assertions_discharged=tot.get('discharged', 0), build_seconds=round(tb, 1),
                  scenarios=sorted({'%s/%s' % (r['job']['bin'], r['job']['scen']) for r in results}),
                  configurations=sorted({r['job']['cfg'] for r in results}),
                  functions_encoded=demangle(sorted(funcs)), errors=errors[:20], **extra))
    if any(r.get('schedules', (0, 0)) != (0, 0) for r in results):
        ev['coverage']['preempted_schedules'] = dict(explored=sum(r['schedules'][0] for r in results if 'schedules' in r),
                                                     beyond_the_bound=sum(r['schedules'][1] for r in results if 'schedules' in r))
    tmp = os.path.join(EVD, prop + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(EVD, prop + '.json'))
    print('%s %s: %d scenario runs, %d paths, %d instructions, %d queries (%.1fs solver), %d traces validated, %.1fs' % (
        prop, tier, len(results), paths, tot.get('steps', 0), tot.get('queries', 0), tot.get('solver_s', 0),
        ev['coverage']['traces_validated_against_impl'], time.time() - t0))
    if violations:
        print('VIOLATION property=%s replay=%s' % (prop, violations[0]['replay']))
        return 1
    if errors:
        for e in errors[:int(os.environ.get('VERIF_NERR', 10))]:
            print('ERROR ' + e)
        return 2
    return 0


def replay_cmd(path):
    l = open(path).readline()
    f = dict(x.split('=', 1) for x in l[1:].split())
    root = os.path.join(HERE, '.build', tree_hash())
    os.makedirs(root, exist_ok=True)
    exe = build(f['config'], [f['bin']], root)[f['bin']]
    print(run_native(exe, f['scenario'], path)[0])
    return 0


if __name__ == '__main__':
    sys.exit(main())
