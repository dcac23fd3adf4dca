"""Front end: builds the extractor and turns the current /repo sources (and the law files of spec/) into resolved-program
JSON.  Everything is keyed by content, so a change of any source, stub, law or tool re-extracts."""
import concurrent.futures
import glob
import hashlib
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('COPC_REPO', '/repo')
BUILD = os.environ.get('COPC_BUILD', os.path.join(VERIF, '.build'))
LLVM = '/usr/lib/llvm-18'


class FrontError(Exception):
    pass


def sha(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def tool():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'extract-' + sha([src]))
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        r = subprocess.run(['clang++', '-std=c++17', '-fno-rtti', '-O0', '-w', '-I' + LLVM + '/include', src, '-o', tmp,
                            LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM-18.so', '-Wl,-rpath,' + LLVM + '/lib'],
                           capture_output=True, text=True)
        if r.returncode:
            raise FrontError('building the extractor failed:\n' + r.stderr[-3000:])
        os.rename(tmp, out)
    return out


def headers():
    return glob.glob(REPO + '/cpp/include/**/*.hpp', recursive=True) + \
        glob.glob(VERIF + '/stubs/**/*', recursive=True)


def sources():
    return sorted(glob.glob(REPO + '/cpp/src/**/*.cpp', recursive=True))


FLAGS = ['-std=c++17', '-include', 'cstdint', '-I' + REPO + '/cpp/include', '-I' + VERIF + '/stubs', '-I' + VERIF + '/spec',
         '-resource-dir=' + LLVM + '/lib/clang/18', '-w', '-fno-access-control']


def extract(paths):
    """JSON files of the given sources, in parallel"""
    ex = tool()
    hs = [h for h in headers() if os.path.isfile(h)]
    hs += glob.glob(VERIF + '/spec/*.hpp')
    base = sha(hs, ex + ' '.join(FLAGS))
    jobs = []
    for p in map(os.path.abspath, paths):
        out = os.path.join(BUILD, 'j', sha([p], base) + '.json')
        jobs.append((p, out))
    os.makedirs(os.path.join(BUILD, 'j'), exist_ok=True)

    def run(j):
        p, out = j
        if os.path.exists(out):
            return None
        tmp = out + '.%d' % os.getpid()
        r = subprocess.run([ex, tmp, REPO + '/cpp:' + VERIF + '/spec:' + REPO + '/python', p, '--'] + FLAGS, capture_output=True, text=True)
        if r.returncode or not os.path.exists(tmp):
            return '%s: %s' % (p, (r.stderr or r.stdout)[-3000:])
        os.rename(tmp, out)
        return None
    with concurrent.futures.ThreadPoolExecutor(8) as ex_:
        errs = [e for e in ex_.map(run, jobs) if e]
    if errs:
        raise FrontError('the sources do not parse:\n' + '\n'.join(errs))
    return [o for _, o in jobs]


def also(specs):
    """further sources of the repository that a law file asks for (//@ also: <path>)"""
    out = []
    for p in specs:
        for l in open(p):
            m = re.match(r'\s*//@\s*also\s*:\s*(\S+)', l)
            if m and os.path.join(REPO, m.group(1)) not in out:
                out.append(os.path.join(REPO, m.group(1)))
    return out


def program(extra=()):
    import prog
    P = prog.Prog()
    for j in extract(list(extra) + also(extra) + sources()):
        P.load(j)
    return P
