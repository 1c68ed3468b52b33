"""Compile the current tree of /repo to LLVM IR (front end only) and load it."""
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from . import ir, interp, rotate

REPO = os.environ.get('OCR_REPO', '/repo')
CLANG = '/usr/bin/clang-18'
OPT = shutil.which('opt-18') or shutil.which('opt') or '/usr/lib/llvm-18/bin/opt'
FLAGS = ['-std=gnu89', '-D_XOPEN_SOURCE=600', '-I/usr/local/include', '-O0', '-g', '-Xclang', '-disable-O0-optnone',
         '-fno-discard-value-names', '-w', '-S', '-emit-llvm']


class BuildError(Exception):
    pass


def compile_one(src, out):
    r = subprocess.run([CLANG] + FLAGS + ['-I' + os.path.dirname(src), src, '-o', out + '.raw'],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError('%s: %s' % (src, r.stderr[-2000:]))
    r = subprocess.run([OPT, '-S', '-passes=function(mem2reg)', out + '.raw', '-o', out], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('%s: %s' % (src, r.stderr[-2000:]))


def sources():
    d = os.path.join(REPO, 'src')
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.c'))


def has_main(path):
    return re.search(r'(^|[^A-Za-z0-9_])main\s*\(', open(path, encoding='utf-8', errors='replace').read()) is not None


def load(names=None):
    """Program over the library modules plus the named tools (None = everything)"""
    tmp = tempfile.mkdtemp(prefix='ocrv')
    try:
        srcs = sources()
        if names is not None:
            # every library module (no main of its own) plus the named tools
            srcs = [s for s in srcs if os.path.basename(s)[:-2] in names or not has_main(s)]
        outs = []
        jobs = []
        with ThreadPoolExecutor(8) as ex:
            for s in srcs:
                o = os.path.join(tmp, os.path.basename(s)[:-2] + '.ll')
                outs.append((os.path.basename(s)[:-2], o))
                jobs.append(ex.submit(compile_one, s, o))
            for j in jobs:
                j.result()
        mods = [ir.parse_module(open(o, encoding='latin1').read(), n) for n, o in outs]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for m in mods:
        for f in m.functions.values():
            if f.order:
                rotate.run(f, interp.analyse_cfg, interp.succs)
    return interp.Program(mods)
