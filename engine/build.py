"""Compile /repo's current sources (and the analysis drivers) to LLVM IR, in a scratch directory."""
import os, subprocess, sys, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))


def tool(*names):
    for n in names:
        p = n if n.startswith('/') and os.path.exists(n) else shutil.which(n)
        if p:
            return p
    raise SystemExit('tool missing: %s' % (names,))


def sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
        for f in sorted(files):
            if f.endswith('.cpp') and f != 'steering_functions_node.cpp':
                out.append(os.path.join(root, f))
    return sorted(out)


def compile_all(extra=(), out=None, only=None, defs=()):
    """returns list of (module name, .ll path)"""
    out = out or tempfile.mkdtemp(prefix='vpir.')
    cxx = tool('clang++-18', '/usr/lib/llvm-18/bin/clang++', 'clang++')
    opt = tool('opt-18', '/usr/lib/llvm-18/bin/opt', 'opt')
    eig = '/usr/include/eigen3'

    def one(src):
        name = os.path.basename(src)[:-4]
        bc = os.path.join(out, name + '.bc')
        ll = os.path.join(out, name + '.ll')
        cmd = [cxx, '-std=gnu++17', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-g', '-DNDEBUG',
               '-DEIGEN_DONT_VECTORIZE', '-fno-math-errno', '-I' + os.path.join(REPO, 'include'), '-I' + eig, '-I' + HERE,
               '-emit-llvm', '-c', '-w', '-o', bc, src] + list(defs)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            return name, None, r.stderr[-3000:]
        r = subprocess.run([opt, '-passes=mem2reg', '-S', '-o', ll, bc], capture_output=True, text=True)
        if r.returncode:
            return name, None, r.stderr[-3000:]
        os.unlink(bc)
        return name, ll, ''
    srcs = [s for s in sources() if only is None or os.path.basename(s)[:-4] in only] + list(extra)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, srcs))
    bad = [r for r in res if r[1] is None]
    if bad:
        sys.stderr.write('analysis front end: compilation failed\n')
        for b in bad:
            sys.stderr.write('%s: %s\n' % (b[0], b[2]))
        raise SystemExit(3)
    return [(r[0], r[1]) for r in res], out


if __name__ == '__main__':
    # setup: the tools are there and the current tree can be lowered
    for n in (('clang++-18', '/usr/lib/llvm-18/bin/clang++', 'clang++'), ('opt-18', '/usr/lib/llvm-18/bin/opt', 'opt')):
        print(tool(*n))
    print(len(sources()), 'source files')
