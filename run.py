#!/usr/bin/env python3
"""Builds the monitors of one property from /repo's current tree, runs them, judges what they observed.

usage: run.py <property> [quick|thorough]      check one property
       run.py --replay <file>                  re-run the recorded case of a violation
       run.py --build                          compile every monitor (setup_cmd: fails early if something is missing)
"""
import hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
EVID = os.path.join(VERIF, 'evidence')
sys.path.insert(0, VERIF)
from plan import PLAN          # property -> list of stages

FLAGS = {
    # memory and undefined behaviour errors end the run, which is a violation
    'asan': ['g++', '-std=c++17', '-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
             '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern'],
    'ubsan': ['g++', '-std=c++17', '-O1', '-g', '-fsanitize=undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern'],
    'tsan': ['g++', '-std=c++17', '-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=thread', '-pthread'],
    'opt': ['g++', '-std=c++17', '-O2', '-g'],
    'plain': ['g++', '-std=c++17', '-O1', '-g'],
    'clang': ['clang++', '-std=c++17', '-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
              '-fno-sanitize-recover=all'],
    'fuzz': ['clang++', '-std=c++17', '-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=fuzzer,address,undefined',
             '-fno-sanitize-recover=all', '-DVERIF_LIBFUZZER'],
}
ENV = dict(os.environ,
           ASAN_OPTIONS='detect_leaks=0:max_malloc_fill_size=1048576:abort_on_error=0:exitcode=99:allocator_may_return_null=0:hard_rss_limit_mb=6000:max_allocation_size_mb=3000:detect_stack_use_after_return=1:strict_string_checks=1',
           TSAN_OPTIONS='halt_on_error=1:exitcode=96:second_deadlock_stack=1',
           MALLOC_PERTURB_='173', GLIBC_TUNABLES='glibc.malloc.tcache_count=0', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=98', LC_ALL='C', TZ='UTC')
for k in ('VERIF_SEED', 'VERIF_TIER'):
    ENV.pop(k, None)


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'include'), os.path.join(VERIF, 'harness')):
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


def compile_one(name, mode, tag, defs=(), libs=()):
    out = os.path.join(BUILD, tag, name + '.' + mode + ''.join('.' + d for d in defs))
    if os.path.exists(out):
        return out, None
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cmd = FLAGS[mode] + ['-D' + d for d in defs] + ['-w', '-ftemplate-backtrace-limit=2', '-include', 'cstdint', '-I', os.path.join(REPO, 'include'),
                         '-I', os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'harness', name + '.cpp'),
                         '-o', out + '.tmp%d' % os.getpid(), '-lboost_date_time'] + list(libs)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        return None, '\n'.join(l[:300] for l in r.stdout.decode(errors='replace').split('\n') if 'error' in l)[:3000]
    os.rename(out + '.tmp%d' % os.getpid(), out)
    return out, None


# programs made of several source files: every build is a library of its own, loaded by one monitor
BUILDS = {  # name: (compiler and options, [(unit, order of the headers)])
    'program': (['g++', '-std=c++17', '-O0', '-fno-gnu-unique'], [(1, 1), (2, 2), (3, 3)]),
    'release': (['g++', '-std=c++17', '-O2', '-DNDEBUG', '-fno-gnu-unique'], [(1, 2)]),
    'clang': (['clang++', '-std=c++17', '-O1'], [(1, 3)]),
    'uchar': (['g++', '-std=c++14', '-O1', '-funsigned-char', '-fno-gnu-unique'], [(1, 1)]),
    'clang-release': (['clang++', '-std=c++14', '-O2', '-DNDEBUG'], [(1, 1)]),
    'later': (['g++', '-std=c++20', '-O3', '-fno-gnu-unique'], [(1, 3)]),
}


def build_units(st, tier, tag):
    """Compiles and links the builds; what fails although the same code compiles elsewhere is a violation."""
    d = os.path.join(BUILD, tag, 'units'); os.makedirs(d, exist_ok=True); H = os.path.join(VERIF, 'harness')
    names = st['builds'][tier]; inc = ['-w', '-ftemplate-backtrace-limit=2', '-I', os.path.join(REPO, 'include')]
    heads = [l.split('<')[1].split('>')[0] for l in open(os.path.join(H, 'u_order1.inc')) if l.startswith('#include')]
    heads = [h for h in heads if os.path.exists(os.path.join(REPO, 'include', h))]

    def call(cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.returncode, '\n'.join(l[:300] for l in r.stdout.decode(errors='replace').split('\n') if 'error' in l or 'multiple definition' in l or 'undefined' in l)[:1500]

    def obj(j):
        n, u, o = j; out = os.path.join(d, '%s.%d.%d.o' % (n, u, o))
        if os.path.exists(out): return 0, ''
        rc, e = call(BUILDS[n][0] + inc + ['-I', H, '-fPIC', '-fvisibility=hidden', '-DUNIT=%d' % u, '-DORDER=%d' % o, '-c', os.path.join(H, 'u_unit.cpp'), '-o', out + '.tmp%d' % os.getpid()])
        if rc == 0: os.rename(out + '.tmp%d' % os.getpid(), out)
        return rc, e

    def alone(h):
        f = os.path.join(d, 'alone-' + h.replace('/', '_') + '.cpp')
        open(f, 'w').write('#include <%s>\nint main() { return 0; }\n' % h)
        return call(['g++', '-std=c++14', '-fsyntax-only'] + inc + [f])
    jobs = [(n, u, o) for n in names for u, o in BUILDS[n][1]]
    with ThreadPoolExecutor(8) as ex:
        main = ex.submit(compile_one, 'u_main', 'opt', tag, (), ['-ldl'])
        res = list(ex.map(obj, jobs)); al = list(ex.map(alone, heads)); st['bin'], st['err'] = main.result()
    st['pre'] = []; st['facts'] = {'unit-compiles': len(jobs), 'header-usable-by-itself': len(heads), 'program-links': len(names)}
    if all(rc for rc, e in res) or not st['bin']:
        st['bin'] = None; st['err'] = st['err'] or res[0][1]; return
    bad = [(j, e) for j, (rc, e) in zip(jobs, res) if rc]
    for j, e in bad[:1]:
        st['pre'].append(('unit-compiles', 'compiled as %s with the headers in order %d: %s' % (' '.join(BUILDS[j[0]][0]), j[2], e)))
    for h, (rc, e) in zip(heads, al):
        if rc: st['pre'].append(('header-usable-by-itself', h + ': ' + e)); break
    libs = []
    for n in names:
        if any(j[0] == n for j, e in bad): continue
        out = os.path.join(d, n + '.so')
        rc, e = call([BUILDS[n][0][0], '-shared', '-o', out] + [os.path.join(d, '%s.%d.%d.o' % (n, u, o)) for u, o in BUILDS[n][1]] + ['-lboost_date_time'])
        if rc: st['pre'].append(('program-links', '%s: %s' % (n, e)))
        else: libs.append('%s=%s' % (n, out))
    st['args'] = ['--libs', ','.join(libs)]; st['skip'] = not libs or not libs[0].startswith('program=')


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return {e['id']: e for e in json.load(open(p))['known']}


def run_stage(prop, st, tier, seed, tag, extra=()):
    """Returns dict(result | crash) for one monitor process (or several shards of it)."""
    shards = st.get('shards', {}).get(tier, 1) if not extra else 1
    scale = st.get('scale', {}).get(tier, 1.0)

    def one(k):
        scratch = tempfile.mkdtemp(prefix='verif-mon-')
        try:
            out = os.path.join(scratch, 'out.json'); state = os.path.join(scratch, 'state')
            work = os.path.join(scratch, 'work'); os.mkdir(work)
            s = seed if k == 0 else seed * 1000003 + k
            cmd = [st['bin'], '--prop', prop, '--tier', tier, '--seed', str(s), '--scale', str(scale),
                   '--out', out, '--state', state, '--scratch', work] + list(st.get('args', ())) + list(extra)
            env = dict(ENV, TMPDIR=work)
            if st.get('valgrind'):
                cmd = ['valgrind', '-q', '--error-exitcode=99', '--track-origins=yes', '--exit-on-first-error=yes'] + cmd
            t0 = time.time()
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=work, env=env,
                                   timeout=st.get('timeout', {}).get(tier, 700 if tier == 'quick' else 6000))
                rc, err = p.returncode, p.stderr.decode(errors='replace')
            except subprocess.TimeoutExpired as e:
                rc, err = 'timeout', (e.stderr or b'').decode(errors='replace')
            r = {'rc': rc, 'stderr': err if len(err) < 8000 else err[:4500] + '\n...\n' + err[-3000:], 'seed': s, 'wall': time.time() - t0, 'stage': st['name'], 'harness': st['harness'], 'mode': st['mode']}
            if os.path.exists(out):
                r['result'] = json.load(open(out))
            if os.path.exists(state) and os.path.getsize(state) >= 1096:
                b = open(state, 'rb').read()
                r['at_case'] = struct.unpack('Q', b[:8])[0]
                r['at_group'] = b[8:72].split(b'\0')[0].decode(errors='replace')
                r['at_what'] = b[72:1096].split(b'\0')[0].decode(errors='replace')
            return r
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, range(shards)))


def run_fuzz(prop, st, tier, seed, tag):
    """Coverage guided fuzzing: seed corpus from the generator, fixed number of runs, sanitizers decide."""
    runs = st['runs'][tier]; scratch = tempfile.mkdtemp(prefix='verif-fuzz-')
    try:
        gen, err = compile_one(st['harness'], 'asan', tag)
        corpus = os.path.join(scratch, 'corpus'); os.mkdir(corpus)
        subprocess.run([gen, '--prop', 'CORPUS', '--seed', str(seed), '--scratch', corpus], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        def one(k):
            work = os.path.join(scratch, 'w%d' % k); own = os.path.join(work, 'new'); os.makedirs(own)
            t0 = time.time()
            try:
                p = subprocess.run([st['bin'], '-runs=%d' % runs, '-seed=%d' % (seed * 100 + k + 1), '-max_len=60000', '-timeout=60', '-rss_limit_mb=4000', '-malloc_limit_mb=2000',
                                    '-print_final_stats=1', '-artifact_prefix=' + work + '/', own, corpus], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=work, env=dict(ENV, TMPDIR=work),
                                   timeout=st.get('timeout', {}).get(tier, 6000))
                rc, err = p.returncode, p.stdout.decode(errors='replace')
            except subprocess.TimeoutExpired as e:
                rc, err = 'timeout', (e.stdout or b'').decode(errors='replace')
            r = {'rc': rc, 'stderr': err if len(err) < 8000 else err[:1000] + '\n...\n' + err[-6000:], 'seed': seed * 100 + k + 1, 'wall': time.time() - t0, 'stage': st['name'], 'harness': st['harness'], 'mode': st['mode']}
            n = re.search(r'stat::number_of_executed_units:\s*(\d+)', err); cov = re.findall(r'cov: (\d+) ft: (\d+)', err); n = int(n.group(1)) if n else 0
            feats = int(cov[-1][1]) if cov else 0
            r['result'] = {'evaluations': n, 'cases': n, 'distinct': feats, 'per_rule': {'fuzz/file-handled-without-sanitizer-report': n}, 'violations': [], 'violation_counts': {}, 'findings': {},
                           'samples': [{'rule': 'fuzz', 'situation': 'edges %s, coverage features %s' % (cov[-1] if cov else (0, 0)), 'held': rc == 0}]}
            for a in sorted(os.listdir(work)):
                if a.split('-')[0] in ('crash', 'oom', 'timeout', 'leak'):
                    keep = os.path.join(EVID, 'replay'); os.makedirs(keep, exist_ok=True); shutil.copy(os.path.join(work, a), os.path.join(keep, prop + '-' + a)); r['at_what'] = 'input kept as evidence/replay/%s-%s' % (prop, a)
            return r
        with ThreadPoolExecutor(8) as ex: return list(ex.map(one, range(st.get('shards', {}).get(tier, 4))))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def crash_rule(r):
    e = r['stderr']
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', e)
    if m: return 'sanitizer/' + m.group(1)
    m = re.search(r'ERROR: libFuzzer: ([\w -]+)', e)
    if m: return 'sanitizer/' + m.group(1).strip()
    m = re.search(r'WARNING: ThreadSanitizer: ([\w ]+)', e)
    if m: return 'sanitizer/' + m.group(1).strip()
    m = re.search(r'runtime error: (.*)', e)
    if m: return 'sanitizer/undefined: ' + m.group(1)[:120]
    if r['rc'] == 97: return 'termination/case did not finish within its CPU budget'
    m = re.search(r'==\d+== ([A-Z][^\n]*)', e)
    if m and r['rc'] == 99: return 'memcheck/' + m.group(1)[:100]
    return 'crash/exit status %s' % r['rc']


def check(prop, tier, seed):
    t0 = time.time()
    tag = tree_hash()
    if os.path.isdir(BUILD):        # builds of other trees are of no use any more
        for d in os.listdir(BUILD):
            if d != tag: shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    stages = [dict(s) for s in PLAN[prop]['stages'] if tier in s.get('tiers', ('quick', 'thorough'))]
    def comp(s):
        if s['mode'] == 'units': return build_units(s, tier, tag)
        s['bin'], s['err'] = compile_one(s['harness'], s['mode'], tag, s.get('defs', ()))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(comp, stages))
    for s in stages:
        if s['bin'] is None:
            print('BUILD-ERROR property=%s monitor=%s does not compile against the tree\n%s' % (prop, s['harness'], s['err']))
            return 2
    runs = []
    for s in stages:
        if s.get('skip'): continue
        runs += (run_fuzz if s['mode'] == 'fuzz' else run_stage)(prop, s, tier, seed, tag)
    known = known_findings()
    evals = cases = distinct = 0
    per_rule, samples, viols, seen_known = {}, [], [], {}
    inconclusive = []
    for s in stages:
        for k, n in s.get('facts', {}).items(): per_rule[k] = per_rule.get(k, 0) + n; evals += n; distinct += n
        for rule, d in s.get('pre', ()): viols.append({'rule': rule, 'group': 'build', 'case': 0, 'detail': d, 'seed': seed, 'stage': s['name']})
    for r in runs:
        res = r.get('result')
        if res:
            evals += res['evaluations']; cases += res['cases']; distinct = max(distinct, 0) + res['distinct']
            for k, v in res['per_rule'].items(): per_rule[k] = per_rule.get(k, 0) + v
            samples += res['samples']
            for v in res['violations']:
                viols.append(dict(v, seed=r['seed'], stage=r['stage'], count=res['violation_counts'].get(v['rule'])))
            for fid, d in res['findings'].items():
                if fid in known and known[fid]['property'] == prop: seen_known[fid] = d
                else: viols.append({'rule': 'finding/' + fid, 'group': r.get('at_group'), 'case': 0, 'detail': d, 'seed': r['seed'], 'stage': r['stage']})
        if r['rc'] == 'timeout':
            inconclusive.append('%s: wall clock limit reached in %s case %s' % (r['stage'], r.get('at_group'), r.get('at_case')))
        elif r['rc'] != 0 or not res:
            viols.append({'rule': crash_rule(r), 'group': r.get('at_group'), 'case': r.get('at_case'), 'seed': r['seed'], 'stage': r['stage'],
                          'detail': (r.get('at_what', '') + '\n' + r['stderr'])[:3000]})
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    lines, uniq = [], {}
    for v in viols:
        uniq.setdefault(v['rule'], v)
    for n, (rule, v) in enumerate(sorted(uniq.items())):
        path = os.path.join(EVID, 'replay', '%s-%d.json' % (prop, n))
        json.dump(dict(v, property=prop, tier=tier), open(path, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s rule=%s' % (prop, path, rule))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': evals, 'distinct_nontrivial': distinct,
                       'rule': 'an evaluation is one oracle judgement about an execution of the real code; two are distinct when the rule or the '
                               'abstracted situation (kinds, sizes, boundary classes of the input or history) differs; distinct situations are counted per monitor process and added',
                       'samples': samples[:12], 'workload_cases': cases, 'evaluations_per_rule': per_rule,
                       'monitors': [{'stage': r['stage'], 'harness': r['harness'], 'instrumentation': r['mode'], 'seed': r['seed'],
                                     'exit': r['rc'], 'wall_s': round(r['wall'], 2)} for r in runs]},
          'wall_s': round(time.time() - t0, 2),
          'assumptions': PLAN[prop].get('assumptions', []),
          'violations': [{'rule': k, 'group': v.get('group'), 'case': v.get('case'), 'detail': v.get('detail', '')[:400]} for k, v in uniq.items()],
          'known_findings_observed': sorted(seen_known)}
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    for fid, d in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, fid, known[fid]['what']))
    for r in inconclusive: print('INCONCLUSIVE property=%s %s' % (prop, r))
    for l in lines: print(l)
    for k, v in uniq.items(): print('  %s [%s case %s seed %s]: %s' % (k, v.get('group'), v.get('case'), v.get('seed'), v.get('detail', '')[:600]))
    print('%s %s: %d evaluations, %d distinct situations, %d cases, %.1f s' % (prop, tier, evals, distinct, cases, time.time() - t0))
    if lines: return 1
    return 2 if inconclusive else 0


def replay(path):
    v = json.load(open(path))
    st = next(dict(s) for s in PLAN[v['property']]['stages'] if s['name'] == v['stage'])
    tag = tree_hash()
    if st['mode'] == 'units': build_units(st, v['tier'], tag)
    else: st['bin'], st['err'] = compile_one(st['harness'], st['mode'], tag, st.get('defs', ()))
    if not st['bin']:
        print(st['err']); return 2
    if v['group'] == 'build' or st.get('skip'):
        print(st['pre']); return 1 if st['pre'] else 0
    r = run_stage(v['property'], st, v['tier'], v['seed'], tag, ['--group', str(v['group']), '--case', str(v['case'])])[0]
    print(json.dumps(r.get('result', {}).get('violations'), indent=1)); print(r['stderr'])
    return 1 if r['rc'] != 0 or r.get('result', {}).get('violations') else 0


def main():
    a = sys.argv[1:]
    if a[:1] == ['--replay']: return replay(a[1])
    if a[:1] == ['--build']:
        tag = tree_hash(); jobs = sorted({(s['harness'], s['mode'], tuple(s.get('defs', ()))) for p in PLAN.values() for s in p['stages'] if 'quick' in s.get('tiers', ('quick', 'thorough'))})
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda j: compile_one(j[0], 'opt' if j[1] == 'units' else j[1], tag, j[2], ['-ldl']), jobs))
        for j, (o, e) in zip(jobs, res):
            print(j, 'ok' if o else e)
        return 0 if all(o for o, e in res) else 2
    prop = a[0]; tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return check(prop, tier, int(os.environ.get('VERIF_SEED', '1')))

if __name__ == '__main__':
    sys.exit(main())
