"""Mechanical extraction: /repo's current C++ sources -> LLVM IR (clang, no optimisation)
-> one linked module -> SSA (the one pass sroa; it does not use undefined behaviour of the
source to drop code).  Nothing is hand-written between the source and the verified text."""
import os, re, subprocess, glob, hashlib, tempfile, shutil, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.build')
INCS = ['DotNetLibrary/include', 'PlatformSupport', 'DotNetLibrarySupport']
CLANG = 'clang++-18'


class ExtractError(Exception):
    pass


def sources():
    out = sorted(glob.glob(REPO + '/DotNetLibrary/src/*.cpp'))
    out += sorted(f for f in glob.glob(REPO + '/PlatformSupport/*.cpp') if not f.endswith('dllmain.cpp'))
    out += sorted(f for f in glob.glob(REPO + '/DotNetLibrarySupport/*.cpp') if not f.endswith('dllmain.cpp'))
    return out


def headers():
    out = []
    for d in INCS:
        out += glob.glob('%s/%s/*.h' % (REPO, d))
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    for f in sources() + headers():
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    with open(__file__, 'rb') as fh:
        h.update(fh.read())
    return h.hexdigest()[:24]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode != 0:
        raise ExtractError('%s\n%s' % (' '.join(cmd), r.stderr.decode(errors='replace')[-4000:]))
    return r


def header_unit(tmp):
    """a unit of its own for the functions defined in headers: the library leaves out those it does not call itself"""
    f = tmp + '/headers.cpp'
    with open(f, 'w') as fh:
        fh.write('#include "DotnetTypes.h"\n')
    return f


def incflags():
    return ['-I%s/%s' % (REPO, d) for d in INCS]


def extract():
    """Returns the path of the linked .ll for the current tree (cached by content hash)."""
    h = tree_hash()
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, h + '.ll')
    if os.path.exists(out):
        return out
    tmp = tempfile.mkdtemp(prefix='ir', dir=CACHE)
    try:
        def one(i_f, more=[]):
            i, f = i_f
            o = '%s/%d_%s.ll' % (tmp, i, os.path.basename(f))
            run([CLANG, '-w', '-std=gnu++11', '-fPIC', '-DNDEBUG', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
                 '-gline-tables-only', '-S', '-emit-llvm', f, '-o', o] + more + incflags())
            return o
        with ThreadPoolExecutor(8) as ex:
            lls = list(ex.map(one, enumerate(sources())))
        hdr = one((len(lls), header_unit(tmp)), ['-femit-all-decls'])
        with open(hdr) as fh:
            text = re.sub(r'^define linkonce_odr (?=[^\n(]*@_ZNK?13DotnetLibrary)', 'define weak_odr ', fh.read(), flags=re.M)
        with open(hdr, 'w') as fh:
            fh.write(text)
        lls.append(hdr)
        run(['llvm-link-18', '-S'] + lls + ['-o', tmp + '/all.ll'])
        run(['opt-18', '-passes=function(sroa)', '-S', tmp + '/all.ll', '-o', tmp + '/out.ll'])
        os.replace(tmp + '/out.ll', out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # keep the cache small
    olds = sorted(glob.glob(CACHE + '/*.ll'), key=os.path.getmtime)
    for f in olds[:-12]:
        try:
            os.unlink(f)
        except OSError:
            pass
    return out


if __name__ == '__main__':
    print(extract())
