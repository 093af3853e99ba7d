"""Driver: builds the real code, emits LLVM IR, runs the symbolic executor, replays counterexamples natively,
writes evidence and decides the exit status."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
NB = os.path.expanduser('~/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin')
HUGE = 64 << 20
JOBS = 8


class Err(Exception):
    """the check itself could not be carried out"""


def sh(cmd, timeout=600, inp=None, env=None, cwd=None, mem=None):
    e = dict(os.environ)
    e.pop('RUSTFLAGS', None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    if env:
        e.update(env)
    pre = None
    if mem:
        import resource

        def pre():
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    try:
        p = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd, preexec_fn=pre)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return 'timeout', '', ''


def srchash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for r, ds, fs in sorted(os.walk(d)):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
            for f in sorted(fs):
                p = os.path.join(r, f)
                h.update(p.encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()


def cargo_build(crate, args, stamp_dirs, pkgs):
    """cargo build which does not trust time stamps of the sources of /repo"""
    d = os.path.join(VERIF, crate)
    st = os.path.join(d, 'target', '.srchash')
    h = srchash(stamp_dirs)
    old = open(st).read() if os.path.exists(st) else None
    env = {'RUSTUP_TOOLCHAIN': '1.90.0'}
    if old != h and os.path.isdir(os.path.join(d, 'target')):
        for p in pkgs:
            sh(['cargo', 'clean', '--offline', '--release', '-p', p], env=env, cwd=d)
    rc, o, e = sh(['cargo'] + args, env=env, cwd=d, timeout=600)
    if rc != 0:
        raise Err('building %s failed:\n%s' % (crate, e[-3000:]))
    with open(st, 'w') as f:
        f.write(h)


def build_rsym():
    d = os.path.join(VERIF, 'rsym')
    rc, o, e = sh(['cargo', 'build', '--release', '--offline'], cwd=d, env={'RUSTUP_TOOLCHAIN': '1.90.0'})
    if rc != 0:
        raise Err('rsym does not build:\n' + e[-3000:])
    return os.path.join(d, 'target/release/rsym')


def build_gen():
    cargo_build('gen', ['build', '--release', '--offline'], [REPO + '/protospec-build', VERIF + '/gen/src'], ['protospec-build', 'pspec-gen'])
    return os.path.join(VERIF, 'gen/target/release/pspec-gen')


OPT_PASSES = 'internalize,globaldce,function(lower-invoke,simplifycfg),default<O1>,function(scalarizer,instcombine<no-verify-fixpoint>,simplifycfg),globaldce'


class H:
    def __init__(self, name, body, covers=(), spec=None, wall=None, paths=None, steps=None, depth=None, note='', finding=None):
        self.name, self.body, self.covers, self.spec = name, body, tuple(covers), spec
        self.wall, self.paths, self.steps, self.depth, self.note = wall, paths, steps, depth, note
        self.finding = finding


class Shard:
    def __init__(self, tag):
        self.tag, self.specs, self.hs = tag, [], []


class Plan:
    """one check"""
    def __init__(self, pid, tier, ids, seed=1):
        self.pid, self.tier, self.ids, self.seed = pid, tier, ids, seed
        self.specs = {}       # name -> Spec
        self.texts = {}       # name -> extra spec text (imports)
        self.hs = []          # harnesses on generated code
        self.fe = None        # front-end harness source (uses protospec_build)
        self.fehs = []
        self.prelude = ''     # extra rust, crate level
        self.reject = []      # (name, text, why): programs the front end must reject
        self.assumptions = []
        self.bounds = []
        self.wall = 60 if tier == 'quick' else 600
        self.paths = 200000 if tier == 'quick' else 4000000
        self.steps = 3000000
        self.depth = 400
        self.async_ = False
        self.gen_flags = []
        self.huge = HUGE

    def spec(self, s):
        self.specs[s.name] = s
        return s

    def h(self, *a, **k):
        self.hs.append(H(*a, **k))

    def feh(self, *a, **k):
        self.fehs.append(H(*a, **k))


HEAD = '''#![allow(dead_code, unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, unused_macros, non_snake_case, non_camel_case_types, non_upper_case_globals, unreachable_code, unused_labels, unused_assignments, static_mut_refs, improper_ctypes, unreachable_patterns, overlapping_range_endpoints)]
'''


def fndef(h):
    return ('#[cfg(not(native))] #[no_mangle] pub extern "C" fn h_%s() { hb_%s() }\n' % (h.name, h.name)
            + 'pub fn hb_%s() {\n%s\n}\n' % (h.name, h.body))


def shard_src(plan, shard, gendir):
    s = HEAD
    s += open(os.path.join(VERIF, 'lib/rt.rs')).read()
    s += plan.prelude
    table = []
    for sp in shard.specs:
        body = open(os.path.join(gendir, sp.name + '.rs')).read()
        s += 'pub mod s_%s {\nuse crate::rt::*; use crate::rf::*;\npub mod m {\n%s\n}\n%s\n' % (sp.name, body, sp.rust())
        for h in shard.hs:
            if h.spec == sp.name:
                s += fndef(h)
                table.append(('h_' + h.name, 's_%s::hb_%s' % (sp.name, h.name)))
        s += '}\n'
    s += '#[cfg(native)] pub static HS: &[(&str, fn())] = &[%s];\n' % ', '.join('("%s", %s)' % x for x in table)
    return s


def rustc(args, env=None, cwd=None):
    return sh(['rustc', '+1.90.0', '--edition', '2018', '-A', 'warnings'] + args, cwd=cwd, timeout=300)


def deps_args(plan):
    return plan.extern_args if getattr(plan, 'extern_args', None) else []


def compile_shard(plan, shard, work):
    """-> path of the textual IR and of the native replay binary"""
    d = os.path.join(work, shard.tag)
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, 'h.rs')
    with open(src, 'w') as f:
        f.write(shard_src(plan, shard, os.path.join(work, 'gen')))
    ext = deps_args(plan)
    rc, o, e = rustc(['-C', 'lto=fat', '-C', 'panic=abort', '-C', 'opt-level=1', '-C', 'overflow-checks=on', '-C', 'codegen-units=1',
                      '-C', 'save-temps', '--crate-type', 'staticlib', '-o', os.path.join(d, 'libh.a'), src] + ext, cwd=d)
    if rc != 0:
        return ('rustc', e)
    bc = [x for x in os.listdir(d) if x.endswith('.rcgu.lto.after-restriction.bc')]
    if len(bc) != 1:
        raise Err('bitcode not found: %s' % bc)
    ll = lower(os.path.join(d, bc[0]), ['h_' + h.name for h in shard.hs], d)
    rc, o, e = rustc(['--cfg', 'native', '-C', 'opt-level=1', '-C', 'overflow-checks=on', '-C', 'debug-assertions=on', '-C', 'codegen-units=4',
                      '-o', os.path.join(d, 'replay'), src] + ext, cwd=d)
    if rc != 0:
        raise Err('native replay build failed:\n' + e[-3000:])
    return ('ok', ll, os.path.join(d, 'replay'))


def lower(bc, names, d):
    rbc = os.path.join(d, 'r.bc')
    ll = os.path.join(d, 'r.ll')
    rc, o, e = sh([NB + '/opt', bc, '-o', rbc, '-passes=' + OPT_PASSES, '-internalize-public-api-list=' + ','.join(names),
                   '-vectorize-loops=false', '-vectorize-slp=false'])
    if rc != 0:
        raise Err('opt failed: ' + e[-2000:])
    rc, o, e = sh([NB + '/llvm-dis', rbc, '-o', ll])
    if rc != 0:
        raise Err('llvm-dis failed: ' + e[-2000:])
    return ll


def run_rsym(plan, rsym, ll, hs, threads, budget):
    """-> list of result dicts"""
    groups = {}
    for h in hs:
        groups.setdefault((h.wall or plan.wall, h.paths or plan.paths, h.steps or plan.steps, h.depth or plan.depth), []).append(h)
    res = []
    for (wall, paths, steps, depth), g in groups.items():
        rc, o, e = sh([rsym, ll, '--threads', str(threads), '--wall', str(wall), '--steps', str(steps), '--paths', str(paths),
                       '--depth', str(depth), '--huge', str(plan.huge), '--max-viol', '6', '--samples', '24'] + ['h_' + h.name for h in g],
                      timeout=budget)
        for line in o.splitlines():
            if line.startswith('{'):
                res.append(json.loads(line))
        got = {r['harness'] for r in res}
        for h in g:
            if 'h_' + h.name not in got:
                res.append({'harness': 'h_' + h.name, 'found': True, 'engine_panic': 'no answer (rc=%s %s)' % (rc, e[-300:])})
    return res


def native(exe, name, hexin, timeout=20):
    rc, o, e = sh([exe], inp=('%s %s\n' % (name, hexin or '-')).encode(), timeout=timeout, mem=6 << 30)
    if rc == 'timeout':
        return {'outcome': 'hang'}
    for line in o.splitlines():
        if line.startswith('R '):
            p = line.split(' ')
            return {'outcome': p[1], 'failed': [int(x) for x in p[2].split(',') if x], 'obs': [int(x) for x in p[3].split(',') if x], 'msg': ' '.join(p[4:])}
    if rc == 77 or 'HUGE' in e:
        return {'outcome': 'huge'}
    return {'outcome': 'crash rc=%s' % rc, 'msg': e[-300:]}


def native_batch(exe, items, timeout=120):
    rc, o, e = sh([exe], inp=''.join('%s %s\n' % (n, h or '-') for n, h in items).encode(), timeout=timeout, mem=6 << 30)
    out = []
    for line in o.splitlines():
        if line.startswith('R '):
            p = line.split(' ')
            out.append({'outcome': p[1], 'failed': [int(x) for x in p[2].split(',') if x], 'obs': [int(x) for x in p[3].split(',') if x]})
    return out if len(out) == len(items) else None


def confirm(v, exe, name):
    """does the native run of the counterexample show the violation?"""
    n = native(exe, name, v['input'])
    k = v['kind']
    if n['outcome'] == 'assume':
        return False, n
    if n['outcome'] == 'panic':
        return True, n
    if k == 'check':
        return (int(v['detail']) in n.get('failed', [])) or n['outcome'].startswith('crash'), n
    if k == 'hang':
        return n['outcome'] in ('hang', 'huge') or n['outcome'].startswith('crash'), n
    if k == 'huge':
        return n['outcome'] == 'huge' or n['outcome'].startswith('crash'), n
    if k in ('panic', 'ub'):
        return n['outcome'].startswith('crash') or bool(n.get('failed')) or n['outcome'] == 'huge', n
    return False, n


class Findings:
    def __init__(self, pid):
        self.items = []
        p = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(p):
            for f in json.load(open(p))['findings']:
                if f['property'] == pid and f.get('status') == 'known':
                    self.items.append(f)

    def match(self, harness, kind, detail, what):
        for f in self.items:
            m = f['match']
            if m.get('harness') and m['harness'] != harness:
                continue
            if m.get('kind') and m['kind'] != kind:
                continue
            if m.get('detail') and m['detail'] != detail:
                continue
            if m.get('contains') and m['contains'] not in what:
                continue
            return f
        return None


def main(make, argv):
    """make(pid, tier) -> Plan"""
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    keep = '--keep' in argv
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    only = None
    if '--only' in argv:
        only = argv[argv.index('--only') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='pspec_%s_' % pid, dir=os.environ.get('TMPDIR', '/tmp'))
    code = 2
    try:
        plan = make(pid, tier)
        plan.seed = seed
        code = run(plan, work, t0, only)
    except Err as e:
        print('ERROR %s: %s' % (pid, e))
        code = 2
    finally:
        if keep:
            print('work dir', work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    return code


def replay_file(pid, obj):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    n = 0
    while os.path.exists(os.path.join(d, '%s-%d.json' % (pid, n))):
        n += 1
    p = os.path.join(d, '%s-%d.json' % (pid, n))
    with open(p, 'w') as f:
        json.dump(obj, f, indent=1)
    return p


def run(plan, work, t0, only=None):
    pid = plan.pid
    rd = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(pid + '-'):
            os.remove(os.path.join(rd, f))
    find = Findings(pid)
    violations = []   # dicts
    errors = []
    known = {}
    results = []
    compile_problems = []
    traces = 0
    trace_mismatch = 0

    def report(kind, harness, detail, what, obj):
        f = find.match(harness, kind, detail, what)
        if f:
            known.setdefault(f['id'], f)
            return
        violations.append((kind, harness, detail, what, obj))

    if only:
        plan.hs = [h for h in plan.hs if re.search(only, h.name)]
        plan.fehs = [h for h in plan.fehs if re.search(only, h.name)]
        used = {h.spec for h in plan.hs}
        plan.specs = {k: v for k, v in plan.specs.items() if k in used}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fr = ex.submit(build_rsym)
        fg = ex.submit(build_gen) if plan.specs or plan.reject else None
        ff = ex.submit(fe_build, plan, work) if plan.fehs else None
        fx = ex.submit(plan.build_deps) if getattr(plan, 'build_deps', None) else None
        rsym = fr.result()
        gen = fg.result() if fg else None
        if fx:
            plan.extern_args = fx.result()
        jobs = []   # (future -> (exe, hs, results))
        shards = []
        if plan.specs:
            gd = os.path.join(work, 'gen')
            sd = os.path.join(work, 'spec')
            os.makedirs(gd)
            os.makedirs(sd)
            for n, s in plan.specs.items():
                with open(os.path.join(sd, n + '.pspec'), 'w') as f:
                    f.write(s.ps())
            for n, s in plan.texts.items():
                with open(os.path.join(sd, n + '.pspec'), 'w') as f:
                    f.write(s if isinstance(s, str) else s.ps())
            rc, o, e = sh([gen, gd] + plan.gen_flags + (['--async'] if plan.async_ else []) + [os.path.join(sd, n + '.pspec') for n in plan.specs], timeout=120)
            if rc != 0:
                raise Err('pspec-gen failed rc=%s: %s' % (rc, e[-2000:]))
            good = []
            for n, s in plan.specs.items():
                ep = os.path.join(gd, n + '.err')
                if os.path.exists(ep):
                    msg = open(ep).read()
                    report('compile', 'spec_' + n, '', msg, {'spec': s.ps(), 'error': msg})
                else:
                    good.append(s)
            # shards
            k = min(JOBS, max(1, len(good)))
            shards = [Shard('k%d' % i) for i in range(k)]
            load = [0] * k
            for s in sorted(good, key=lambda s: -sum(1 for h in plan.hs if h.spec == s.name)):
                i = load.index(min(load))
                shards[i].specs.append(s)
                hs = [h for h in plan.hs if h.spec == s.name]
                shards[i].hs += hs
                load[i] += len(hs) + 1
            shards = [s for s in shards if s.hs]
        queue = []

        def do_shard(s):
            r = compile_shard(plan, s, work)
            if r[0] == 'rustc':
                if len(s.specs) == 1:
                    compile_problems.append((s.specs[0], r[1]))
                    return []
                # find the offender(s): compile each alone
                out = []
                for i, sp in enumerate(s.specs):
                    t = Shard(s.tag + '_%d' % i)
                    t.specs = [sp]
                    t.hs = [h for h in s.hs if h.spec == sp.name]
                    if t.hs:
                        out += do_shard(t)
                return out
            _, ll, exe = r
            return [(ll, exe, s.hs)]
        fs = [ex.submit(do_shard, s) for s in shards]
        if ff:
            fs.append(ff)
        units = []
        for f in cf.as_completed(fs):
            units += f.result()
        tb = time.time()
        # spread the harnesses of one unit over several processes for balance
        total = sum(len(u[2]) for u in units)
        tasks = []
        for ll, exe, hs in units:
            k = max(1, min(4, round(len(hs) * 3 * JOBS / max(1, total))))
            if total < 2 * JOBS:
                k = 1
            tasks += [(ll, exe, hs[i::k]) for i in range(k) if hs[i::k]]
        tasks.sort(key=lambda t: -len(t[2]))
        nthreads = max(1, JOBS // max(1, len(tasks)))
        if total == 0 and not violations and not compile_problems:
            raise Err('nothing to check')
        runs = []
        budget = 840 if plan.tier == 'quick' else 6 * 3600
        for ll, exe, hs in tasks:
            runs.append((ex.submit(run_rsym, plan, rsym, ll, hs, nthreads, budget), exe, hs))
        for f, exe, hs in runs:
            for r in f.result():
                r['exe'] = exe
                results.append(r)
    for sp, msg in compile_problems:
        report('compile', 'spec_' + sp.name, '', msg, {'spec': sp.ps(), 'error': msg[:6000]})
    byname = {'h_' + h.name: h for h in plan.hs + plan.fehs}
    notcov = []
    incomplete = []
    for r in sorted(results, key=lambda r: r['harness']):
        h = byname[r['harness']]
        if r.get('engine_panic'):
            errors.append('%s: engine: %s' % (r['harness'], r['engine_panic']))
            continue
        if not r['found']:
            errors.append('%s: harness not found in the IR' % r['harness'])
            continue
        if r['timeout']:
            incomplete.append(r['harness'])
        seen = set()
        for v in r['violations']:
            key = (v['kind'], v['detail'])
            if v['kind'] == 'unsupported' and v['detail'] == 'wall limit' and r['timeout']:
                continue
            if v['kind'] == 'unsupported':
                errors.append('%s: unsupported by the engine: %s %s' % (r['harness'], v['detail'], ' < '.join(v['stack'][-4:])))
                continue
            ok, nat = confirm(v, r['exe'], r['harness'])
            if not ok:
                errors.append('%s: counterexample %s %s input=%s does not reproduce natively (%s)' % (r['harness'], v['kind'], v['detail'], v['input'], nat))
                continue
            if key in seen:
                continue
            seen.add(key)
            what = plan.ids.get(int(v['detail']), v['detail']) if v['kind'] == 'check' else '%s: %s' % (v['kind'], v['detail'])
            obj = {'property': pid, 'harness': r['harness'], 'kind': v['kind'], 'what': what, 'input_hex': v['input'], 'native': nat,
                   'stack': v['stack'], 'spec': plan.specs[h.spec].ps() if h.spec in plan.specs else None, 'harness_source': h.body}
            report(v['kind'], r['harness'], v['detail'], what, obj)
        if not [v for v in r['violations'] if v['detail'] != 'wall limit']:
            miss = [c for c in h.covers if str(c) not in r['covers']]
            if miss and not r['timeout']:
                notcov.append((r['harness'], miss))
        # concrete replay of sampled paths
        smp = [s for s in r['samples'] if s['outcome'] == 'ok']
        if smp:
            nb = native_batch(r['exe'], [(r['harness'], s['input']) for s in smp])
            if nb is None:
                errors.append('%s: native batch failed' % r['harness'])
            else:
                for s, n in zip(smp, nb):
                    traces += 1
                    if n['outcome'] != 'ok' or n['failed'] or n['obs'] != s['obs']:
                        trace_mismatch += 1
                        errors.append('%s: engine and native run differ on input %s: %s / %s' % (r['harness'], s['input'], s, n))
    for n, m in notcov:
        # an outcome that must be reachable for every correct tree is unreachable
        report('cover', n, ','.join(map(str, m)), 'expected behaviour not reachable: ' + ', '.join(plan.ids.get(x, str(x)) for x in m),
               {'property': pid, 'harness': n, 'unreachable': [plan.ids.get(x, str(x)) for x in m], 'spec': plan.specs[byname[n].spec].ps() if byname[n].spec in plan.specs else None, 'harness_source': byname[n].body})
    if incomplete:
        errors_inc = 'exploration cut by the time/path limit in: ' + ', '.join(incomplete)
    tot = lambda k: sum(r.get(k, 0) for r in results)
    funcs = sorted({clean(f) for r in results for f in r.get('functions', [])})
    samples = []
    for r in results[:400]:
        for s in r.get('samples', [])[:1]:
            if len(samples) < 12:
                samples.append({'harness': r['harness'], 'input_hex': s['input'], 'outcome': s['outcome'], 'observations': s['obs']})
    progs = len(plan.specs) + (1 if plan.fehs else 0)
    level = 'translation_validation' if plan.specs else 'model_checking'
    level = getattr(plan, 'level', level)
    cov = {
        'programs': progs, 'disagreements_checked': tot('checks'), 'samples': samples or [{'note': 'no path finished'}],
        'states': tot('paths'), 'transitions': tot('instrs'), 'traces_validated_against_impl': traces,
        'harnesses': len(results), 'symbolic_paths': tot('paths'), 'instructions_executed': tot('instrs'), 'forks': tot('forks'),
        'solver_queries': tot('solver_queries'), 'solver_sat': tot('solver_sat'), 'solver_unsat': tot('solver_unsat'), 'solver_seconds': round(tot('solver_s'), 2),
        'queries_decided_by_byte_domains': tot('domain_queries'), 'queries_cached': tot('cached_queries'),
        'property_queries': tot('check_queries'), 'max_symbolic_bytes': max([r.get('symbols', 0) for r in results] or [0]),
        'bounds': plan.bounds, 'functions_encoded_count': len(funcs), 'functions_encoded': [f for f in funcs if interesting(f)][:400],
        'incomplete_harnesses': incomplete,
        'witnesses': {r['harness']: r.get('covers', {}) for r in results},
        'per_harness': {r['harness']: [r.get('paths'), r.get('instrs'), r.get('solver_queries'), r.get('wall_s')] for r in results},
        'known_findings': sorted(known),
    }
    ev = {'property': pid, 'tier': plan.tier, 'seed': plan.seed, 'level': level, 'coverage': cov, 'assumptions': COMMON_ASSUME + plan.assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, f in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    print('%s %s: %d specs, %d harnesses, %d paths, %d instrs, %d solver queries (%.1fs), %d checks, %d traces validated, %.1fs' % (
        pid, plan.tier, len(plan.specs), len(results), tot('paths'), tot('instrs'), tot('solver_queries'), tot('solver_s'), tot('checks'), traces, time.time() - t0))
    if incomplete:
        print('note: incomplete (limit reached): ' + ', '.join(incomplete))
    for e in errors[:20]:
        print('ERROR ' + e[:600])
    if violations:
        shown = set()
        for kind, harness, detail, what, obj in violations:
            if len(shown) >= 10:
                break
            if (kind, harness, detail) in shown:
                continue
            shown.add((kind, harness, detail))
            p = replay_file(pid, obj)
            print('%s %s: %s' % (kind, harness, what[:500].replace('\n', ' ')))
            if obj.get('input_hex') is not None:
                print('   input=%s native=%s' % (obj['input_hex'], obj.get('native')))
            print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if errors:
        return 2
    return 0


COMMON_ASSUME = [
    'the IR interpreted is rustc 1.90 LLVM IR (opt-level 1, overflow checks on, panic=abort) of the code generated by /repo, lowered further by LLVM opt; machine code generation is trusted',
    'allocation never fails below 64 MiB; a request above that is reported',
    'the engine (rsym) and z3 are trusted; every counterexample and a sample of explored paths are replayed natively and compared',
]


def clean(f):
    m = re.match(r'_ZN(.*)17h[0-9a-f]{16}E', f)
    if not m:
        return f
    s, out = m.group(1), []
    while s and s[0].isdigit():
        n = re.match(r'\d+', s).group()
        s = s[len(n):]
        out.append(s[:int(n)])
        s = s[int(n):]
    return '::'.join(out).replace('$LT$', '<').replace('$GT$', '>').replace('$u20$', ' ').replace('..', '::').replace('$RF$', '&').replace('$C$', ',')


def interesting(f):
    return '_ps' in f or 'protospec' in f or 's_' in f


# ------------------------------------------------------------------ front end
def fe_build(plan, work):
    """front-end harnesses: linked against protospec-build itself"""
    src = HEAD + open(os.path.join(VERIF, 'lib/rt.rs')).read() + plan.fe
    table = []
    for h in plan.fehs:
        src += fndef(h)
        table.append(('h_' + h.name, 'hb_' + h.name))
    src += '#[cfg(native)] pub static HS: &[(&str, fn())] = &[%s];\n' % ', '.join('("%s", %s)' % x for x in table)
    d = os.path.join(VERIF, 'fe')
    fd = os.path.join(work, 'fe')
    shutil.copytree(d, fd, ignore=shutil.ignore_patterns('target'))
    with open(os.path.join(fd, 'src/lib.rs'), 'w') as f:
        f.write(src)
    os.makedirs(os.path.join(fd, 'src/bin'), exist_ok=True)
    with open(os.path.join(fd, 'src/bin/replay.rs'), 'w') as f:
        f.write(src)
    env = {'RUSTUP_TOOLCHAIN': '1.90.0'}
    p1 = {'CARGO_TARGET_DIR': os.path.join(fd, 't1')}
    p2 = {'CARGO_TARGET_DIR': os.path.join(fd, 't2'), 'RUSTFLAGS': '--cfg native'}
    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(sh, ['cargo', 'rustc', '--release', '--offline', '--lib', '--', '-C', 'save-temps'], 600, None, dict(env, **p1), fd)
        b = ex.submit(sh, ['cargo', 'build', '--profile', 'replay', '--offline', '--bin', 'replay'], 600, None, dict(env, **p2), fd)
        rc, o, e = a.result()
        if rc != 0:
            raise Err('front-end harness does not build:\n' + e[-4000:])
        rc, o, e = b.result()
        if rc != 0:
            raise Err('front-end replay does not build:\n' + e[-4000:])
    dd = os.path.join(fd, 't1/release/deps')
    bc = [x for x in os.listdir(dd) if x.endswith('lto.after-restriction.bc')]
    if len(bc) != 1:
        raise Err('front-end bitcode not found: %s' % bc)
    od = os.path.join(work, 'feout')
    os.makedirs(od)
    ll = lower(os.path.join(dd, bc[0]), ['h_' + h.name for h in plan.fehs], od)
    return [(ll, os.path.join(fd, 't2/replay/replay'), plan.fehs)]
