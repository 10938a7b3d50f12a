"""Builds the conformance drivers from /repo's current sources.

Objects are cached by a hash of every input (all sources and headers of
/repo/src, the harness, the flags), so a change of any file rebuilds what it
needs and an unchanged tree is only linked once.  Nothing is written in /repo.
"""
import fcntl, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
BUILD = os.path.join(VERIF, 'build')
HARN = os.path.join(VERIF, 'harness')
PGINC = '/usr/include/postgresql/16/server'

CORE = ['as_wrapper', 'grammar', 'inclass', 'lexentry', 'lexicon', 'md5', 'metarule', 'metasection', 'outclass',
        'rule', 'rulesection', 'search', 'token', 'tokenizer', 'trie', 'trieutf8', 'utf8iterator', 'utils']
LIBS = ['-licuuc', '-licuio', '-licui18n', '-licudata', '-lboost_regex', '-lboost_serialization']
BASE = ['-fPIC', '-w', '-frounding-math', '-D_REENTRANT', '-DU_HAVE_ELF_H=1', '-DU_HAVE_ATOMIC=1']


class BuildError(Exception):
    pass


def _sh(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd[:1] + cmd[-3:]) + '\n' + p.stderr[-4000:])


def _core_sources():
    """Every .cpp file of the library (so that an added file is linked too)."""
    names = []
    for f in sorted(os.listdir(SRC)):
        if f.endswith('.cpp'):
            names.append(f)
    return names


def _headers_hash():
    h = hashlib.sha256()
    for f in sorted(os.listdir(SRC)):
        if f.endswith(('.h', '.hpp')):
            h.update(f.encode()); h.update(open(os.path.join(SRC, f), 'rb').read())
    for f in sorted(os.listdir(HARN)):
        if f.endswith('.h'):
            h.update(f.encode()); h.update(open(os.path.join(HARN, f), 'rb').read())
    return h.hexdigest()


def _objs(units, flags):
    """units: list of (path, lang, extra flags). Returns object paths."""
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    hh = _headers_hash()
    jobs, out = [], []
    for path, lang, extra in units:
        cc = ['g++', '-std=c++17'] if lang == 'c++' else ['gcc', '-std=gnu11']
        fl = cc + BASE + flags + extra + ['-I' + SRC, '-I' + HARN]
        key = hashlib.sha256((hh + path + ' '.join(fl)).encode() + open(path, 'rb').read()).hexdigest()[:24]
        o = os.path.join(BUILD, 'obj', key + '.o')
        out.append(o)
        if not os.path.exists(o):
            tmp = '%s.%d.tmp.o' % (o, os.getpid())
            jobs.append((fl + ['-c', path, '-o', tmp], tmp, o))
    def one(j):
        _sh(j[0]); os.rename(j[1], j[2])
    with ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
        list(ex.map(one, jobs))
    return out


def _link(name, objs, flags):
    key = hashlib.sha256((name + ' '.join(objs) + ' '.join(flags)).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, '%s-%s' % (name, key))
    if not os.path.exists(exe):
        tmp = '%s.%d.tmp' % (exe, os.getpid())
        _sh(['g++'] + objs + ['-o', tmp] + flags + LIBS)
        os.rename(tmp, exe)
    return exe


def _prune():
    """Keep the cache small: drop the oldest files beyond ~600 MB."""
    fs = []
    for d, _, ns in os.walk(BUILD):
        for n in ns:
            p = os.path.join(d, n)
            if n.endswith('.o') or n.startswith('drv_'):
                try:
                    st = os.stat(p); fs.append((st.st_mtime, st.st_size, p))
                except OSError:
                    pass
    tot = sum(s for _, s, _ in fs)
    for _, s, p in sorted(fs):
        if tot < 600 << 20:
            break
        try:
            os.unlink(p); tot -= s
        except OSError:
            pass


def core(asan=False, malloc=False):
    os.makedirs(BUILD, exist_ok=True)
    flags = ['-O0', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer'] if asan else ['-O0']
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _prune()
        units = [(os.path.join(HARN, 'drv_core.cpp'), 'c++', ['-fno-access-control'] + (['-DDRV_ASAN'] if asan else ['-DDRV_MALLOC'] if malloc else []))]
        units += [(os.path.join(SRC, f), 'c++', []) for f in _core_sources()]
        units += [(os.path.join(HARN, 'json_src.cpp'), 'c++', [])]
        return _link('drv_core' + ('_asan' if asan else '_malloc' if malloc else ''), _objs(units, flags), ['-fsanitize=address'] if asan else [])


def pg(asan=False):
    """The SQL layer (std_pg_hash.c, address_standardizer.c) on a stub PostgreSQL runtime."""
    os.makedirs(BUILD, exist_ok=True)
    flags = ['-O0', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer'] if asan else ['-O0']
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _prune()
        inc = ['-I' + PGINC, '-DPGSQL_VERSION=1600']
        units = [(os.path.join(HARN, 'drv_pg.cpp'), 'c++', []), (os.path.join(HARN, 'pgstub.c'), 'c', inc)]
        units += [(os.path.join(SRC, f), 'c', inc) for f in ('std_pg_hash.c', 'address_standardizer.c')]
        units += [(os.path.join(SRC, f), 'c++', []) for f in _core_sources()]
        units += [(os.path.join(HARN, 'json_src.cpp'), 'c++', [])]
        wrap = ['-Wl,--wrap=%s' % s for s in ('getLexiconPtr', 'getGrammarPtr', 'freeLexiconPtr', 'freeGrammarPtr', 'std_standardize_ptrs')]
        return _link('drv_pg' + ('_asan' if asan else ''), _objs(units, flags), wrap + ['-Wl,--warn-unresolved-symbols'] + (['-fsanitize=address'] if asan else []))


TOOLS = ('t2', 't4', 't5', 'compile-lexicon', 'read-dump-grammar')


def tools():
    """The command-line tools: name -> program."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _prune()
        units = [(os.path.join(SRC, f), 'c++', []) for f in _core_sources()] + [(os.path.join(SRC, 'tester', t + '.cpp'), 'c++', []) for t in TOOLS]
        objs = _objs(units, ['-O0'])
        lib, mains = objs[:-len(TOOLS)], objs[-len(TOOLS):]
        # an archive: each program takes what it refers to (t2 has functions of its own that as_wrapper.cpp also defines)
        ar = os.path.join(BUILD, 'drv_lib-%s.a' % hashlib.sha256(' '.join(lib).encode()).hexdigest()[:24])
        if not os.path.exists(ar):
            tmp = '%s.%d.tmp' % (ar, os.getpid())
            _sh(['ar', 'rcs', tmp] + lib)
            os.rename(tmp, ar)
        lib = [ar]
        with ThreadPoolExecutor(len(TOOLS)) as ex:
            exes = list(ex.map(lambda x: _link('drv_tool_' + x[0], [x[1]] + lib, []), zip(TOOLS, mains)))
        return dict(zip(TOOLS, exes))


if __name__ == '__main__':
    for w in sys.argv[1:] or ['core']:
        print(globals()[w.split(':')[0]](asan=w.endswith(':asan')))
