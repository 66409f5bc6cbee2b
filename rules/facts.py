"""Builds the rustc driver, extracts MIR/type facts of /repo's current tree, and loads them."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TOPPO_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
CRATES = ['util', 'alg', 'analysis', 'geom', 'topo_spaces']


class BuildError(Exception):
    pass


def _sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('target', '.git'))
        for f in sorted(files):
            if f.endswith('.rs') or f in ('Cargo.toml', 'Cargo.lock'):
                out.append(os.path.join(root, f))
    return out


def build_driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'driver-' + _sha([src]))
    if os.path.exists(out):
        return out
    tmp = out + '.tmp%d' % os.getpid()
    r = subprocess.run(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError('driver build failed:\n' + r.stdout[-4000:])
    os.replace(tmp, out)
    return out


def sysroot_lib():
    s = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True).stdout.strip()
    return os.path.join(s, 'lib')


def scratch_tree(dst):
    """Copies the repository's current working tree (without build output) to dst."""
    shutil.copytree(REPO, dst, ignore=shutil.ignore_patterns('target', '.git'), symlinks=True)
    lock = os.path.join(dst, 'Cargo.lock')
    if not os.path.exists(lock):
        shutil.copy(os.path.join(VERIF, 'driver', 'workspace.Cargo.lock'), lock)


def build_facts(release=True):
    driver = build_driver()
    key = _sha(_sources() + [os.path.join(VERIF, 'driver', 'main.rs')]) + ('-r' if release else '-d')
    fdir = os.path.join(BUILD, 'facts')
    out = os.path.join(fdir, key)
    if os.path.isdir(out) and all(os.path.exists(os.path.join(out, c + '.json')) for c in CRATES):
        os.utime(out)
        return out
    os.makedirs(fdir, exist_ok=True)
    old = sorted((os.path.getmtime(os.path.join(fdir, d)), d) for d in os.listdir(fdir))
    for _, d in old[:-12]:
        shutil.rmtree(os.path.join(fdir, d), ignore_errors=True)
    work = tempfile.mkdtemp(prefix='facts-', dir=BUILD)
    try:
        tree = os.path.join(work, 'tree')
        scratch_tree(tree)
        outw = os.path.join(work, 'out')
        os.makedirs(outw)
        env = dict(os.environ, LD_LIBRARY_PATH=sysroot_lib(), FACTS_OUT=outw,
                   RUSTC_WORKSPACE_WRAPPER=driver, CARGO_TARGET_DIR=os.path.join(work, 'tgt'))
        cmd = ['cargo', '+nightly', 'check', '--workspace', '--lib', '--offline'] + (['--release'] if release else [])
        r = subprocess.run(cmd, cwd=tree, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError('fact extraction failed:\n' + r.stdout[-6000:])
        for c in CRATES:
            if not os.path.exists(os.path.join(outw, c + '.json')):
                raise BuildError('no facts for crate ' + c + '\n' + r.stdout[-3000:])
        if not os.path.isdir(out):
            os.rename(outw, out)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


class Fn:
    __slots__ = ('d', 'crate', 'key', 'path', 'name', 'kind', 'file', 'line', 'body')

    def __init__(self, d, crate):
        self.d = d
        self.crate = crate
        self.key = d['key']
        self.path = d['path']
        self.name = d['name']
        self.kind = d['kind']
        at = d['at'].rsplit(':', 1)
        self.file, self.line = at[0], int(at[1])
        self.body = d.get('body')

    @property
    def trait(self):
        return self.d.get('trait')

    @property
    def traitref(self):
        return self.d.get('traitref')

    @property
    def implself(self):
        return self.d.get('implself')

    def label(self):
        """A name that stays the same when code moves: the trait or type it belongs to, and its name."""
        d = self.d
        if d.get('traitref'):
            return '%s::<%s>::%s' % (self.crate, d['traitref'], self.name)
        if d.get('implself'):
            return '%s::<%s>::%s' % (self.crate, d['implself'], self.name)
        return '%s::%s' % (self.crate, self.path)

    def __repr__(self):
        return 'Fn(%s)' % self.label()


class Program:
    def __init__(self, fdir):
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.statics = []
        self.traits = []
        self.closures_of = {}
        for c in CRATES:
            with open(os.path.join(fdir, c + '.json')) as f:
                d = json.load(f)
            for fd in d['fns']:
                fn = Fn(fd, c)
                self.fns[fn.key] = fn
            for a in d['adts']:
                a['crate'] = c
                self.adts[a.get('key', a.get('path'))] = a
            for i in d['impls']:
                i['crate'] = c
                self.impls.append(i)
            for s in d['statics']:
                s['crate'] = c
                self.statics.append(s)
            for t in d['traits']:
                t['crate'] = c
                self.traits.append(t)
        for fn in self.fns.values():
            if fn.kind == 'closure':
                self.closures_of.setdefault(fn.d.get('parent'), []).append(fn)

    def find(self, crate=None, name=None, implself=None, trait=None, path=None, kind=None, pred=None):
        out = []
        for fn in self.fns.values():
            if crate and fn.crate != crate: continue
            if name and fn.name != name: continue
            if kind and fn.kind != kind: continue
            if path and fn.path != path: continue
            if implself is not None and (fn.implself or '') != implself: continue
            if trait is not None:
                if trait == '' and fn.trait: continue
                if trait and not (fn.trait or '').endswith(trait): continue
            if pred and not pred(fn): continue
            out.append(fn)
        return out


def load(release=True):
    if os.environ.get('TOPPO_FACTS'):       # development only: facts extracted beforehand
        return Program(os.environ['TOPPO_FACTS'])
    return Program(build_facts(release))
