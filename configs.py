"""The configurations of the library that C21 compares. Each becomes a shared object with its own copy of everything."""
import os

CONFIGS = [
    # name, compiler and options, header-only
    ('gcc -O2 -DNDEBUG, compiled library', ['g++', '-O2', '-DNDEBUG'], False),
    ('gcc -O0 with assertions, compiled library', ['g++', '-O0'], False),
    ('gcc -O3 -DNDEBUG, header-only', ['g++', '-O3', '-DNDEBUG', '-DBOOST_URL_HEADER_ONLY'], True),
    ('clang -O2 -std=c++20 with assertions, header-only', ['clang++', '-O2', '-std=c++20', '-DBOOST_URL_HEADER_ONLY'], True),
    ('gcc -O2 -funsigned-char with assertions, standalone compiled library', ['g++', '-O2', '-funsigned-char', '-std=gnu++17', '-DBOOST_URL_STANDALONE'], False),
    ('clang -O1 -DNDEBUG, standalone header-only', ['clang++', '-O1', '-std=gnu++17', '-DNDEBUG', '-DBOOST_URL_STANDALONE', '-DBOOST_URL_HEADER_ONLY'], True),
]
# compared when it builds: nothing promises that it does
OPTIONAL = [
    ('gcc -O1 -std=c++11 with assertions, shared library', ['g++', '-O1', '-std=c++11', '-DBOOST_URL_DYN_LINK=1', '-DBOOST_URL_NO_LIB=1'], False),
]
COMMON = ['-fPIC', '-fvisibility=hidden', '-fvisibility-inlines-hidden', '-w']
LINK = ['-shared', '-Wl,-Bsymbolic', '-fPIC']


def build(work, compile_some, repo, harness):
    """Returns a list of (configuration, error). The first configuration is how the project itself is built."""
    jobs, links, names = [], [], []
    for i, (name, flags, header_only) in enumerate(CONFIGS + OPTIONAL):
        f = flags + COMMON + (['-fno-gnu-unique'] if flags[0] == 'g++' else [])
        srcs = [os.path.join(harness, 'cfg.cpp'), os.path.join(harness, 'cfg_b.cpp')]
        if not header_only:
            srcs.append(os.path.join(repo, 'src', 'src.cpp'))
        objs = []
        for s in srcs:
            o = os.path.join(work, 'cfg%d.%s.o' % (i, os.path.basename(s)))
            jobs.append((name, (o, f, [s], ['-c'])))
            objs.append(o)
        links.append((name, (os.path.join(work, 'cfg%d.so' % i), f[:1] + LINK, objs, [])))
        names.append(name)
    extra = {c[0] for c in OPTIONAL}
    errors = compile_some(jobs)
    gone = {n for n, _ in errors if n in extra}
    if not [e for e in errors if e[0] not in extra]:
        errors = compile_some([l for l in links if l[0] not in gone])
        gone |= {n for n, _ in errors if n in extra}
    errors = [e for e in errors if e[0] not in extra]
    names = [n for n in names if n not in gone]
    with open(os.path.join(work, 'configs.txt'), 'w') as out:
        out.write('\n'.join(names) + '\n')
    return errors
