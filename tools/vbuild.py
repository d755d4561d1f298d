"""Content-addressed incremental builder for the code under test.

Everything is compiled from /repo's current working tree into /verif/build (git-ignored).
An object is reused only if the command line and the *contents* of every file it was
compiled from are unchanged, so time stamps never matter."""
import os, sys, hashlib, json, subprocess, re, fcntl, shlex
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CONF = os.path.join(VERIF, 'harness', 'conf')

class BuildError(Exception):
    pass

_hcache = {}
def fhash(p):
    try:
        st = os.stat(p)
    except OSError:
        return None
    k = (p, st.st_mtime_ns, st.st_size, st.st_ino)
    if k not in _hcache:
        with open(p, 'rb') as f:
            _hcache[k] = hashlib.sha256(f.read()).hexdigest()
    return _hcache[k]

def _out(cmd):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True).stdout.strip()

_mpi = None
def mpi_flags():
    global _mpi
    if _mpi is None:
        _mpi = (shlex.split(_out('mpic++ --showme:compile')), shlex.split(_out('mpic++ --showme:link')))
    return _mpi

def base_flags(opt):
    return ['-std=c++17', *opt, '-fPIC', '-w', '-pthread', '-DHAVE_CONFIG_H', '-DGYOTO_NO_DEPRECATED',
            '-DGYOTO_PKGLIBDIR="/nonexistent/gyoto"', '-I' + CONF, '-I' + REPO + '/include',
            '-I/usr/include/eigen3', *mpi_flags()[0]]

def parse_deps(depfile):
    with open(depfile) as f:
        t = f.read().replace('\\\n', ' ')
    t = t.split(':', 1)[1]
    return [d for d in t.split() if not d.startswith('/usr/')]

def compile_one(src, obj, flags):
    cmd = ['g++', *flags, '-MMD', '-MF', obj + '.d', '-c', src, '-o', obj]
    ch = hashlib.sha256('\0'.join(cmd).encode()).hexdigest()
    meta = obj + '.json'
    try:
        with open(meta) as f:
            m = json.load(f)
        if m['cmd'] == ch and os.path.exists(obj) and all(fhash(p) == h for p, h in m['deps'].items()):
            return False
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('compiling %s failed:\n%s' % (src, r.stderr[-3000:]))
    deps = {p: fhash(p) for p in parse_deps(obj + '.d')}
    with open(meta + '.tmp', 'w') as f:
        json.dump({'cmd': ch, 'deps': deps}, f)
    os.replace(meta + '.tmp', meta)
    return True

def link(cmd, out, inputs):
    """inputs: files whose content determines the output"""
    h = hashlib.sha256(('\0'.join(cmd) + '|' + '|'.join(str(fhash(i)) for i in inputs)).encode()).hexdigest()
    meta = out + '.link'
    try:
        if open(meta).read() == h and os.path.exists(out):
            return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('linking %s failed:\n%s' % (out, r.stderr[-3000:]))
    with open(meta, 'w') as f:
        f.write(h)
    return True

def source_lists():
    """Read which files make up the library and the standard plug-in from lib/Makefile.am."""
    t = open(REPO + '/lib/Makefile.am').read().replace('\\\n', ' ')
    def var(name):
        out = []
        for m in re.finditer(r'^' + re.escape(name) + r'\s*\+?=(.*)$', t, re.M):
            out += re.findall(r'[\w.+-]+\.C\b', m.group(1))
        return out
    core = var('libgyoto@FEATURES@_la_SOURCES')
    std = var('libgyoto_stdplug_la_SOURCES') + var('cfitsio_stdplug_sources')
    core = list(dict.fromkeys(core)); std = list(dict.fromkeys(std))
    if len(core) < 10 or len(std) < 20:
        raise BuildError('cannot read source lists from lib/Makefile.am')
    return core, std

EXTLIBS = ['-lxerces-c', '-ludunits2', '-lcfitsio', '-lboost_mpi', '-lboost_serialization', '-ldl']

def flint_libs():
    out = []
    for l in ('flint', 'flint-arb', 'arb'):
        r = subprocess.run(['g++', '-x', 'c++', '-', '-o', '/dev/null', '-l' + l], input='int main(){}', capture_output=True, text=True)
        if r.returncode == 0:
            out.append('-l' + l)
    return out

VARIANTS = {'std': ['-O1'], 'asan': ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer'],
            'tsan': ['-O1', '-g1', '-fsanitize=thread']}

class Builder:
    def __init__(self, variant='std', log=None):
        self.variant = variant
        self.opt = VARIANTS[variant]
        self.dir = os.path.join(BUILD, variant)
        self.log = log or (lambda s: None)
        os.makedirs(self.dir, exist_ok=True)
        self.lock = open(os.path.join(BUILD, '.lock'), 'w')
        fcntl.flock(self.lock, fcntl.LOCK_EX)

    def close(self):
        self.lock.close()

    def san(self):
        return [o for o in self.opt if o.startswith('-fsanitize')]

    def lib(self, drivers=(), stdplug=True, cli=False):
        """build libgyoto.so, the stdplug plug-in and the given drivers; returns dict of paths"""
        core, std = source_lists()
        jobs = []
        fl = base_flags(self.opt)
        objs = {'core': [], 'std': []}
        for f in core:
            o = f'{self.dir}/obj/{f}.o'
            jobs.append((REPO + '/lib/' + f, o, fl)); objs['core'].append(o)
        if stdplug:
            for f in std:
                o = f'{self.dir}/obj/std/{f}.o'
                jobs.append((REPO + '/lib/' + f, o, fl + ['-DGYOTO_PLUGIN=stdplug'])); objs['std'].append(o)
        for d in drivers:
            jobs.append((f'{VERIF}/harness/{d}.cpp', f'{self.dir}/obj/drv/{d}.o', fl + ['-I' + VERIF + '/harness', '-I' + REPO + '/lib']))
        if cli:
            for f in ('gyoto', 'gyoto-mpi-worker'):
                jobs.append((f'{REPO}/bin/{f}.C', f'{self.dir}/obj/bin/{f}.o', fl + ['-I' + REPO + '/bin']))
        jobs.sort(key=lambda j: -os.path.getsize(j[0]) if os.path.exists(j[0]) else 0)
        with ThreadPoolExecutor(8) as ex:
            done = list(ex.map(lambda j: compile_one(*j), jobs))
        self.log('compiled %d of %d objects' % (sum(done), len(jobs)))
        res = {}
        fl_libs = EXTLIBS + self._flint() + mpi_flags()[1]
        so = f'{self.dir}/lib/libgyoto.so'
        link(['g++', '-shared', '-pthread', *self.san(), '-o', so, *objs['core'], *fl_libs], so, objs['core'])
        res['lib'] = so
        if stdplug:
            p = f'{self.dir}/lib/libgyoto-stdplug.so'
            link(['g++', '-shared', '-pthread', *self.san(), '-o', p, *objs['std'], so, '-Wl,-rpath,' + self.dir + '/lib', *fl_libs], p, objs['std'] + [so])
            res['stdplug'] = p
        for d in drivers:
            e = f'{self.dir}/bin/{d}'
            o = f'{self.dir}/obj/drv/{d}.o'
            extra = []
            inputs = [o, so]
            if stdplug:
                extra = [res['stdplug']]; inputs.append(res['stdplug'])
            link(['g++', '-pthread', '-rdynamic', *self.san(), '-o', e, o, *extra, so, '-Wl,-rpath,' + self.dir + '/lib', *fl_libs], e, inputs)
            res[d] = e
        if cli:
            import glob
            sov = re.search(r'define\s+GYOTO_SOVERS\s+"([^"]+)"', open(CONF + '/GyotoConfig.h').read())
            for f, name in (('gyoto', 'gyoto'), ('gyoto-mpi-worker', 'gyoto-mpi-worker.' + (sov.group(1) if sov else '9-unreleased'))):
                e = f'{self.dir}/bin/{name}'
                o = f'{self.dir}/obj/bin/{f}.o'
                link(['g++', '-pthread', '-rdynamic', *self.san(), '-o', e, o, so, '-Wl,-rpath,' + self.dir + '/lib', *fl_libs], e, [o, so])
                res[f] = e
        return res

    def _flint(self):
        p = os.path.join(BUILD, 'flint.json')
        try:
            return json.load(open(p))
        except (OSError, ValueError):
            v = flint_libs()
            json.dump(v, open(p, 'w'))
            return v

if __name__ == '__main__':
    import time
    t = time.time()
    b = Builder(sys.argv[1] if len(sys.argv) > 1 else 'std', log=print)
    print(b.lib(drivers=sys.argv[2:], cli=True))
    print('%.1f s' % (time.time() - t))
