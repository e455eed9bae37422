#!/usr/bin/env python3
"""run_check.py <property> [--tier quick|thorough] [--replay FILE] [--keep DIR]

Builds the property's harness together with /repo's current sources (two builds: clang with
AddressSanitizer, UBSan and assertions; gcc -O2 -DNDEBUG), runs the generated-input search in
both, writes evidence/<property>.json and exits 0 (held), 1 (VIOLATION printed) or 2 (error).
VERIF_SEED selects the random choices, VERIF_TIER the tier.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(HERE, 'harness')
FINDINGS = os.path.join(HERE, 'known_findings.jsonl')

# no -std: the language version is the compiler's default, as in the project's own build
ASAN_FLAGS = ['clang++', '-g1', '-O1', '-fno-omit-frame-pointer',
              '-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute', '-fno-sanitize-recover=all',
              '-ftrivial-auto-var-init=pattern']
FAST_FLAGS = ['g++', '-O2', '-DNDEBUG']
TSAN_FLAGS = ['clang++', '-g1', '-O1', '-fsanitize=thread', '-pthread']
COST_FLAGS = ['clang++', '-g1', '-O1', '-fno-builtin', '-fsanitize-coverage=trace-pc']
VG_FLAGS = ['g++', '-O1', '-g1', '-DVERIF_VALGRIND']
VALGRIND = ['valgrind', '-q', '--error-limit=no', '--undef-value-errors=yes', '--trace-children=no', '--child-silent-after-fork=no']
ENV = dict(os.environ, ASAN_OPTIONS='detect_stack_use_after_return=0:malloc_context_size=6:quarantine_size_mb=16:'
           'allocator_may_return_null=0:detect_leaks=0:hard_rss_limit_mb=6000:handle_abort=0',
           UBSAN_OPTIONS='print_stacktrace=0', TSAN_OPTIONS='halt_on_error=1:exitcode=66', LC_ALL='C.UTF-8')
for v in ('CPATH', 'CPLUS_INCLUDE_PATH', 'CXXFLAGS'):
    ENV.pop(v, None)

# (build, flags, quick scale, quick enumeration limit, thorough scale, thorough enumeration limit)
# The scale multiplies the number of random cases a harness names for its leg in the fast build.
STD_BUILDS = [
    ('asan', ASAN_FLAGS, 0.2, 60000, 0.2, 2000000),
    ('fast', FAST_FLAGS, 1, None, 1, None),
]
BUILDS = {
    'C15': STD_BUILDS + [('vg', VG_FLAGS, 0.006, 1500, 0.004, 20000)],
    'C23': STD_BUILDS + [('tsan', TSAN_FLAGS, 0.15, None, 0.15, None)],
    'C24': [('cost', COST_FLAGS, 1, None, 1, None)],
    'C21': [('fast', FAST_FLAGS, 1, None, 1, None)],
}
# how often the quick tier multiplies those numbers, so that a check takes half a minute or so
QUICK = {'C01': 2, 'C02': 6, 'C03': 10, 'C04': 6, 'C05': 4, 'C06': 2.5, 'C07': 4, 'C08': 4, 'C09': 5, 'C10': 2, 'C11': 2,
         'C12': 1.5, 'C13': 4, 'C14': 3, 'C15': 2.5, 'C16': 5, 'C17': 5, 'C18': 5, 'C19': 4, 'C20': 4, 'C21': 3, 'C22': 4, 'C23': 2, 'C24': 3}
RUNNER = {'vg': VALGRIND}
LEVEL = {'C08': 'fault_enumeration'}
ASSUME = [
    'x86-64 Linux, glibc, one thread per url object',
    'arguments do not alias the buffer of the url being modified',
    'the reference in harness/ref.hpp states RFC 3986 and the documented setter semantics correctly',
]


def say(*a):
    print(*a, flush=True)


def die(msg):
    say('ERROR', msg)
    sys.exit(2)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=ENV, **kw)


def compile_one(out, flags, sources, extra=()):
    cmd = list(flags) + ['-w', '-I' + os.path.join(REPO, 'include'), '-I' + HARNESS] + list(extra) + list(sources) + ['-o', out]
    r = sh(cmd)
    if r.returncode != 0:
        return ' '.join(cmd) + '\n' + r.stdout[-6000:]
    return None


def compile_some(jobs):
    """jobs: (name, (out, flags, sources, extra)). Returns (name, error) for those that failed."""
    with ThreadPoolExecutor(8) as ex:
        return [(j[0], e) for j, e in zip(jobs, ex.map(lambda j: compile_one(*j[1]), jobs)) if e]


def compile_all(jobs):
    for _, err in compile_some([(None, j) for j in jobs]):
        die('compilation failed\n' + err)


def build_std(work, prop, builds):
    lib = os.path.join(REPO, 'src', 'src.cpp')
    main = os.path.join(HARNESS, prop.lower() + '.cpp')

    def jobs(name, flags):
        objs = [os.path.join(work, name + '.lib.o'), os.path.join(work, name + '.main.o')]
        if name == 'cost':
            objs.append(os.path.join(work, 'count.o'))
            more = [(name, (objs[2], [f for f in flags if 'coverage' not in f], [os.path.join(HARNESS, 'count.cpp')], ['-c']))]
        else:
            more = []
        return more + [(name, (objs[0], flags, [lib], ['-c'])), (name, (objs[1], flags, [main], ['-c']))], \
               [(name, (os.path.join(work, name), flags, objs[::-1], ['-ldl', '-pthread']))]

    def fallback(name, flags):
        # what gcc accepts is what the project builds with
        return ['g++'] + [f for f in flags[1:]] if flags[0] == 'clang++' else None

    todo = [jobs(b[0], b[1]) for b in builds]
    bad = dict(compile_some([x for t in todo for x in t[0]]))
    for k, b in enumerate(builds):
        if b[0] not in bad:
            continue
        alt = fallback(b[0], b[1])
        if not alt:
            die('compilation failed\n' + bad[b[0]])
        todo[k] = jobs(b[0], alt)
        compile_all([x[1] for x in todo[k][0]])
    compile_all([x[1] for t in todo for x in t[1]])


def dictionary(work):
    """Words and numbers the sources mention: generation uses some as components and lengths. Never a verdict."""
    words, nums = set(), set()
    for top, _, names in os.walk(os.path.join(REPO, 'include')):
        for n in names:
            t = open(os.path.join(top, n), errors='replace').read()
            t = re.sub(r'/\*.*?\*/|//[^\n"]*$', ' ', t, flags=re.S | re.M)
            t = re.sub(r'^\s*#\s*(include|error|pragma).*$', ' ', t, flags=re.M)
            for w in re.findall(r'"((?:\\.|[^"\\\n])*)"', t):
                try:
                    b = w.encode('latin-1', 'replace').decode('unicode_escape').encode('latin-1', 'replace')
                except ValueError:
                    continue
                if 0 < len(b) <= 60 and (len(b) < 3 or any(32 < x < 127 for x in b)):
                    words.add(b)
            run, last = b'', -99
            for m in list(re.finditer(r"'([ -~])'", t)) + [None]:     # s[0] == 'f' && s[1] == 'o' ...
                if m is None or m.start() - last > 60:
                    if len(run) > 1:
                        words.add(run[:24])
                    run = b''
                if m:
                    run, last = run + m.group(1).encode(), m.end()
            for c in re.findall(r"\b(0[xX][0-9a-fA-F]+|[0-9]+)[uUlL]*\b", re.sub(r'"(?:\\.|[^"\\\n])*"', ' ', t)):
                v = int(c, 16) if c[:2] in ('0x', '0X') else int(c)
                if 2 <= v <= 9000:
                    nums.add(v)
    path = os.path.join(work, 'dict.txt')
    with open(path, 'w') as f:
        f.write(''.join('num=%d\n' % n for n in sorted(nums)[:400]))
        f.write(''.join('word=%s\n' % w.hex() for w in sorted(words)[:600]))
    return path


def findings(prop):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith('{'):
                e = json.loads(line)
                if e['property'] == prop and e['status'] == 'known':
                    out.append(e)
    return out


def replay(prop, path):
    fields = dict(l.rstrip('\n').split('=', 1) for l in open(path) if '=' in l and not l.startswith('#'))
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        builds = [b for b in BUILDS.get(prop, STD_BUILDS) if b[0] == fields.get('build')] or STD_BUILDS
        broken = prepare(work, prop, builds)
        if 'build-error' in fields or broken:
            say(broken[0][1] if broken else 'every configuration builds')
            return 1 if broken else 0
        name = builds[0][0]
        if prop == 'C23':
            make_locales(work)
        r = sh(RUNNER.get(name, []) + [os.path.join(work, name), '--replay', os.path.abspath(path)], cwd=work)
        say(r.stdout.rstrip())
        return r.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


def make_locales(work):
    """The locales C23 uses, compiled from the system's sources. One that cannot be made is left out."""
    d = os.path.join(work, 'locale')
    os.makedirs(d)
    if shutil.which('localedef'):
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda n: sh(['localedef', '-c', '-i', n.split('.')[0], '-f', n.split('.')[1], os.path.join(d, n)]),
                        ['tr_TR.ISO-8859-9', 'de_DE.ISO-8859-1', 'ru_RU.KOI8-R', 'hi_IN.UTF-8']))
    ENV['LOCPATH'] = d


def prepare(work, prop, builds):
    """Returns (configuration, error) for each configuration of the library that does not build (C21 only)."""
    build_std(work, prop, builds)
    if prop != 'C21':
        return []
    import configs
    errors = configs.build(work, compile_some, REPO, HARNESS)
    if any(n == configs.CONFIGS[0][0] for n, _ in errors):
        die('compilation failed\n' + errors[0][1])
    return errors


def main():
    args = sys.argv[1:]
    if not args:
        die(__doc__)
    prop = args.pop(0)
    tier = os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or '1')
    keep = None
    only = []
    while args:
        a = args.pop(0)
        if a == '--tier':
            tier = args.pop(0)
        elif a == '--replay':
            sys.exit(replay(prop, args.pop(0)))
        elif a == '--only':
            only = ['--only', args.pop(0)]
        else:
            die('bad argument ' + a)
    t0 = time.time()
    evidence = os.path.join(HERE, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.remove(evidence)
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    results, violations, skipped = {}, [], []
    try:
        builds = BUILDS.get(prop, STD_BUILDS)
        broken = prepare(work, prop, builds)
        if prop == 'C23':
            make_locales(work)
        words = dictionary(work)
        if broken:
            rp = os.path.join(rdir, prop + '-build.txt')
            with open(rp, 'w') as f:
                f.write('property=%s\nbuild-error=1\n' % prop)
                for n, e in broken:
                    f.write('# configuration %s\n' % n + ''.join('# %s\n' % l for l in e.splitlines()))
            violations.append(('configuration', rp, 'the configuration "%s" does not build, though "%s" does' % (broken[0][0], __import__('configs').CONFIGS[0][0])))
            builds = []
        for name, flags, qs, qe, ts, te in builds:
            out = os.path.join(work, name + '.json')
            rp = os.path.join(rdir, '%s-%s.txt' % (prop, name))
            if os.path.exists(rp):
                os.remove(rp)
            cmd = RUNNER.get(name, []) + [os.path.join(work, name), '--seed', str(seed if name == 'fast' else seed + 1000003 * (1 + (name == 'vg'))), '--out', out,
                   '--replay-out', rp, '--build', name, '--workers', '8', '--dict', words] + only
            if tier == 'thorough':
                cmd += ['--thorough', '--wall', '3000', '--scale', str(ts)]
            else:
                cmd += ['--wall', '200', '--scale', str(qs * QUICK[prop])]
            lim = te if tier == 'thorough' else qe
            if lim:
                cmd += ['--enum-max', str(lim)]
            if name == 'tsan' and sh(cmd + ['--scale', '0'], cwd=work).returncode not in (0, 1):
                skipped.append(name)    # ThreadSanitizer does not run with this kernel's address layout
                continue
            r = sh(cmd, cwd=work)
            if r.returncode not in (0, 1) or not os.path.exists(out):
                die('%s ended with %s\n%s' % (name, r.returncode, r.stdout[-3000:]))
            res = json.load(open(out))
            if r.stdout.strip():
                res['engine_output'] = r.stdout[-500:]
            results[name] = res
            if res['violation']:
                violations.append((name, rp, res['message']))
                break
        known = []
        fast = [b[0] for b in builds if b[0] == 'fast']
        for e in findings(prop) if builds else []:
            r = sh([os.path.join(work, fast[0]), '--finding', e['case']], cwd=work)
            if r.returncode == 1:
                known.append(e)
                say('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
            elif r.returncode != 0:
                die('finding %s: %s' % (e['case'], r.stdout[-500:]))
    finally:
        shutil.rmtree(work, ignore_errors=True)

    samples, labels, legs, exhaustive = [], {}, {}, []
    for name, res in results.items():
        for s in res['samples']:
            if len(samples) < 24 and s not in samples:
                samples.append(s)
        for k, v in res['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in res['legs'].items():
            legs['%s: %s' % (name, k)] = v
        exhaustive += ['%s: %s' % (name, e) for e in res['exhaustive_legs']]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL.get(prop, 'exploration'),
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results.values()),
            'distinct_nontrivial': max([r['distinct_nontrivial'] for r in results.values()] + [0]),
            'rule': next(iter(results.values()))['rule'] if results else 'a configuration does not build; nothing was run',
            'samples': samples,
            'labels': labels,
            'legs': legs,
            'legs_enumerated_completely': exhaustive,
            'builds': {n: {k: r[k] for k in ('evaluations', 'nontrivial', 'distinct_nontrivial', 'time_limit_reached', 'unconfirmed', 'wall')} for n, r in results.items()},
            'builds_that_could_not_run': skipped,
            'known_findings_replayed': len(known),
        },
        'assumptions': ASSUME,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    if violations:
        ev['coverage']['violation'] = {'build': violations[0][0], 'message': violations[0][2]}
    with open(evidence + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(evidence + '.tmp', evidence)
    for name, rp, msg in violations:
        say('%s build: %s' % (name, msg))
        say('VIOLATION property=%s replay=%s' % (prop, rp))
    say('%s %s: %d cases, %d distinct non-trivial, %.1f s' % (prop, tier, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], ev['wall_s']))
    sys.exit(1 if violations else 0)


if __name__ == '__main__':
    main()
