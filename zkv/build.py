"""Builds the extractor and turns /repo's current working tree into the typed program (cached by content)."""
import glob, hashlib, os, pickle, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from .ir import Program
from . import terms

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ZK_REPO', '/repo')
OUT = os.path.join(VERIF, 'build')
CXX = ['-std=c++20', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-D_ZK_WITH_MMAP=1', '-D_ZKEXPORT=1', '-DZKNO_REM=1',
       '-I/opt/vp/deps/libsquish', '-Wno-everything']


class Broken(Exception):
    """the analysis itself could not run (never a verdict)"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def extractor():
    src = os.path.join(VERIF, 'tool', 'extract.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(OUT, 'zkx-' + h)
    if not os.path.exists(exe):
        os.makedirs(OUT, exist_ok=True)
        tmp = exe + '.%d' % os.getpid()
        r = sh(['g++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
        if r.returncode:
            raise Broken('extractor does not build:\n' + r.stdout)
        os.replace(tmp, exe)
    return exe


def sources(repo):
    fs = sorted(glob.glob(repo + '/src/**/*.cc', recursive=True))
    return [f for f in fs if 'Win32' not in os.path.basename(f)]


def headers(repo):
    out = []
    for d in ('include', 'src'):
        for e in ('hh', 'h', 'hpp', 'inl'):
            out += glob.glob('%s/%s/**/*.%s' % (repo, d, e), recursive=True)
    return sorted(out)


def digest(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b'\0')
        h.update(open(f, 'rb').read())
        h.update(b'\0')
    return h.hexdigest()


def program(repo=None, verbose=False):
    repo = repo or REPO
    exe = extractor()
    units = sources(repo) + sorted(glob.glob(os.path.join(VERIF, 'tu', '*.cc')))
    hs = headers(repo)
    base = digest(hs + [__file__]) + os.path.basename(exe)
    cache = os.path.join(OUT, 'ir')
    os.makedirs(cache, exist_ok=True)

    def one(u):
        d = hashlib.sha256((base + digest([u]) + repo).encode()).hexdigest()[:24]
        out = os.path.join(cache, d + '.json')
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            r = sh([exe, tmp, '%s/src,%s/include,%s/tu' % (repo, repo, VERIF), u, '--'] + CXX + ['-I%s/include' % repo, '-I%s/src' % repo])
            if r.returncode or not os.path.exists(tmp):
                return u, None, r.stdout
            os.replace(tmp, out)
        return u, out, ''
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, units))
    p = Program()
    p.outs = {u: out for u, out, _ in res}
    for u, out, msg in res:
        if out is None:
            raise Broken('cannot analyse %s:\n%s' % (u, msg[-3000:]))
        p.load(out)
    p.finish()
    terms.ENUM_UNDER.clear()
    terms.ENUM_UNDER.update(p.enum_under)
    terms._wcache.clear()
    p.repo = repo
    # bound the cache
    fs = sorted(glob.glob(cache + '/*.json'), key=os.path.getmtime)
    for f in fs[:-400]:
        try:
            os.remove(f)
        except OSError:
            pass
    return p
