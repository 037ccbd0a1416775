"""Translation-unit table and extraction.

The library's build is a fixed recipe (see DESIGN.md): every .c file named in
the CMakeLists.txt of its directory is compiled; files ending in _typed.c and
internal-blas/bml_gemm.c are compiled once per element type.  Two configurations
are parsed: A = OpenMP, shared memory (build.sh's _build); B = MPI + ScaLAPACK
(build.sh's _build_mpi).  Thorough mode adds variants that no test builds.
"""
import os, json, subprocess, hashlib, glob, re, sys, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BML_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
CACHE = os.path.join(VERIF, '.cache')
PRECS = ['SINGLE_REAL', 'DOUBLE_REAL', 'SINGLE_COMPLEX', 'DOUBLE_COMPLEX']

_BLAS = ('CAXPY CGEMM CGETRF CGETRI CHEEVR CLACPY CSCAL DAXPY DGEMM DGETRF DGETRI '
         'DLACPY DSCAL DSYEV DSYEVD SAXPY SGEMM SGETRF SGETRI SLACPY SSCAL SSYEV '
         'SSYEVD ZAXPY ZGEMM ZGETRF ZGETRI ZHEEVR ZLACPY ZSCAL').split()
_COMMON = (['-DADDR2LINE="/usr/bin/addr2line"', '-DBML_COMPLEX', '-DBML_SYEVD',
            '-DBML_USE_POSIX_MEMALIGN', '-DBML_VERSION="2.4.0"',
            '-DGLOBAL_DEBUG=BML_LOG_DEBUG', '-DHAVE_ADDR2LINE', '-DHAVE_BLAS',
            '-DHAVE_LAPACK', '-DMALLOC_ALIGNMENT=64', '-DPROJECT_VERSION="2.4.0"',
            '-D_POSIX_C_SOURCE=200112L', '-std=c99', '-I' + SRC + '/C-interface']
           + ['-DC_%s=%s_' % (b, b.lower()) for b in _BLAS])
_MPI = ['-DBML_USE_MPI', '-DBML_USE_SCALAPACK', '-DNUMROC=numroc_',
        '-DPCHEEVD=pcheevd_', '-DPDSYEVD=pdsyevd_', '-DPSSYEVD=pssyevd_',
        '-DPZHEEVD=pzheevd_',
        '-I/usr/lib/x86_64-linux-gnu/openmpi/include',
        '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']


def configs(tier='quick'):
    A = _COMMON + ['-fopenmp', '-I' + VERIF + '/include']
    B = _COMMON + _MPI
    c = {'A': A, 'B': B}
    if tier == 'thorough':
        c['AB'] = A + _MPI
        c['noblas'] = [f for f in A if f not in ('-DBML_SYEVD',)] + ['-DBML_INTERNAL_GEMM']
    return c


def tu_list(cfg):
    out = []
    root = SRC
    for d, dirs, files in sorted(os.walk(root)):
        dirs.sort()
        cm = os.path.join(d, 'CMakeLists.txt')
        txt = open(cm).read() if os.path.exists(cm) else ''
        if os.path.basename(d) == 'distributed2d' and cfg not in ('B', 'AB'):
            continue
        for f in sorted(files):
            if not f.endswith('.c'):
                continue
            if not re.search(r'(?<![\w.-])' + re.escape(f) + r'(?![\w.-])', txt):
                continue
            p = os.path.join(d, f)
            if f.endswith('_typed.c') or p.endswith('internal-blas/bml_gemm.c'):
                for pr in PRECS:
                    out.append((p, pr))
            else:
                out.append((p, None))
    return out


def extractor():
    """Build the libTooling extractor on demand (about 20 s)."""
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(VERIF, 'engine', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(CACHE, 'extract-' + h)
    if os.path.exists(exe):
        return exe
    flags = subprocess.check_output(['/usr/lib/llvm-18/bin/llvm-config', '--cxxflags'], text=True).split()
    tmp = exe + '.%d' % os.getpid()
    subprocess.check_call(['g++', '-O1'] + flags + ['-fno-rtti', '-w', src, '-o', tmp,
                          '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
    os.rename(tmp, exe)
    return exe


def extract(tier='quick', outdir=None, files=None):
    """Parse /repo's current tree.  Returns {cfg: [jsonl paths]}."""
    exe = extractor()
    res = {}
    procs = []
    njobs = 8
    for cfg, flags in configs(tier).items():
        tus = tu_list(cfg)
        chunks = [[] for _ in range(njobs)]
        for i, (p, pr) in enumerate(tus):
            chunks[i % njobs].append(
                {'file': p, 'tag': pr or '', 'flags': flags + (['-D' + pr] if pr else []) +
                 ['-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-w', '-ferror-limit=3']})
        res[cfg] = []
        for i, ch in enumerate(chunks):
            jf = os.path.join(outdir, '%s.%d.jobs' % (cfg, i))
            of = os.path.join(outdir, '%s.%d.jsonl' % (cfg, i))
            with open(jf, 'w') as fh:
                for j in ch:
                    fh.write(json.dumps(j) + '\n')
            procs.append((cfg, i, of, subprocess.Popen([exe, SRC, jf, of], stderr=open(of + '.err', 'w'))))
            res[cfg].append(of)
    for cfg, i, of, p in procs:
        rc = p.wait()
        if rc != 0:
            sys.stderr.write(open(of + '.err').read()[-3000:])
            raise RuntimeError('parse failed in configuration %s chunk %d' % (cfg, i))
    return res


if __name__ == '__main__':
    d = sys.argv[1]
    os.makedirs(d, exist_ok=True)
    import time
    t = time.time()
    r = extract(outdir=d)
    print(time.time() - t, {k: sum(os.path.getsize(f) for f in v) for k, v in r.items()})
