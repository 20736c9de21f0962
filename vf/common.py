"""Paths, environment and the out-of-tree native builds shared by every check."""
import hashlib, os, shutil, subprocess, sys, sysconfig, glob, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
PY = '/opt/venv/bin/python'
BUILD = os.path.join(VERIF, '.build')

# extension module name -> path stem below the build's lib directory
EXTENSIONS = {
    'lsl.reader._gofast': 'lsl/reader/_gofast',
    'lsl.correlator._spec': 'lsl/correlator/_spec',
    'lsl.correlator._stokes': 'lsl/correlator/_stokes',
    'lsl.correlator._core': 'lsl/correlator/_core',
    'lsl.imaging._gridder': 'lsl/imaging/_gridder',
    'lsl.misc._beamformer': 'lsl/misc/_beamformer',
    'lsl.misc._wisdom': 'lsl/misc/_wisdom',
    'lsl.sim._simfast': 'lsl/sim/_simfast',
}

FLAGS = {
    'plain': ('', ''),
    'asan': ('-fsanitize=address,undefined -fsanitize-recover=undefined '
             '-fno-sanitize=vptr -fno-omit-frame-pointer -O1 -g',
             '-fsanitize=address,undefined'),
    'tsan': ('-fsanitize=thread -fno-omit-frame-pointer -O1 -g', '-fsanitize=thread'),
}


class BuildError(Exception):
    pass


def source_hash(variant):
    h = hashlib.sha256(b'2' + variant.encode() + repr(FLAGS[variant]).encode())
    h.update(open(os.path.join(REPO, 'setup.py'), 'rb').read())
    for root, dirs, files in os.walk(os.path.join(REPO, 'lsl')):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.cpp', '.c', '.hpp', '.h', '.cc', '.hh')):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


def lib(name):
    return subprocess.run(['gcc', '-print-file-name=' + name], stdout=subprocess.PIPE,
                          text=True, check=True).stdout.strip()


def build(variant):
    """Build every native extension of /repo's working tree out of tree; return its lib directory."""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, '%s-%s' % (variant, source_hash(variant)))
    with open(os.path.join(BUILD, 'lock.' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, 'ok')):
            return os.path.join(out, 'lib')
        for old in glob.glob(os.path.join(BUILD, variant + '-*')):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out)
        cflags, ldflags = FLAGS[variant]
        env = dict(os.environ)
        for k in ('LD_PRELOAD', 'PYTHONPATH', 'CFLAGS', 'LDFLAGS'):
            env.pop(k, None)
        env.update(CCACHE_DISABLE='1', PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8', TZ='UTC',
                   PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
        if cflags:
            # CC and CXX, so that the programs setup.py links to find out about OpenMP are linked with the sanitizer as well
            env.update(CFLAGS=cflags, CXXFLAGS=cflags, LDFLAGS=ldflags, CC='gcc ' + ldflags, CXX='g++ ' + ldflags)
        r = subprocess.run([PY, 'setup.py', '-q', 'build_ext', '--force', '-j8',
                            '--build-lib', os.path.join(out, 'lib'),
                            '--build-temp', os.path.join(out, 'tmp')],
                           cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors='replace')
        missing = [m for m, s in EXTENSIONS.items()
                   if not glob.glob(os.path.join(out, 'lib', s + '*.so'))]
        if r.returncode == 0 and not missing and variant != 'plain':
            core = glob.glob(os.path.join(out, 'lib', EXTENSIONS['lsl.correlator._core'] + '*.so'))[0]
            if b'libgomp' not in open(core, 'rb').read():
                raise BuildError('the %s variant was built without OpenMP\n%s' % (variant, r.stdout[-4000:]))
        if r.returncode != 0 or missing:
            raise BuildError('building the %s variant failed (rc=%s, missing=%s)\n%s'
                             % (variant, r.returncode, missing, r.stdout[-4000:]))
        shutil.rmtree(os.path.join(out, 'tmp'), ignore_errors=True)
        open(os.path.join(out, 'ok'), 'w').write('ok\n')
        return os.path.join(out, 'lib')


def build_minigomp():
    """The TSan-visible OpenMP runtime (see native/minigomp.c)."""
    src = os.path.join(VERIF, 'native', 'minigomp.c')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
    out = os.path.join(BUILD, 'minigomp-%s.so' % h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        r = subprocess.run(['gcc', '-O1', '-g', '-fPIC', '-shared', '-fsanitize=thread', '-o', tmp, src,
                            '-lpthread', '-ldl'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError('minigomp: ' + r.stdout)
        os.replace(tmp, out)
    return out


ASTROPY_CFG = """
[utils.iers.iers]
auto_download = False
auto_max_age = inf

[utils.data]
allow_internet = False
remote_timeout = 0.5
"""


def worker_env(variant, scratch, threads=2):
    """Environment of a worker: nothing of the real user's configuration, no network, fixed hashing."""
    home = os.path.join(scratch, 'home')
    xdg = os.path.join(scratch, 'xdg')
    os.makedirs(os.path.join(home, '.lsl'), exist_ok=True)
    os.makedirs(os.path.join(xdg, 'astropy'), exist_ok=True)
    with open(os.path.join(xdg, 'astropy', 'astropy.cfg'), 'w') as fh:
        fh.write(ASTROPY_CFG)
    tmp = os.path.join(scratch, 'tmp')
    os.makedirs(tmp, exist_ok=True)
    env = {
        'HOME': home, 'LSLCONFIGDIR': os.path.join(home, '.lsl'), 'XDG_CONFIG_HOME': xdg,
        'XDG_CACHE_HOME': os.path.join(scratch, 'cache'), 'TMPDIR': tmp,
        'LANG': 'C.UTF-8', 'TZ': 'UTC', 'MPLBACKEND': 'Agg', 'PYTHONHASHSEED': '0',
        'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': str(threads), 'OPENBLAS_NUM_THREADS': '1',
        'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
        'VF_REPO': REPO, 'VF_SCRATCH': scratch, 'VF_VARIANT': variant,
        'PYTHONPATH': VERIF, 'PYTHONFAULTHANDLER': '1',
    }
    if variant == 'asan':
        env['LD_PRELOAD'] = lib('libasan.so') + ':' + lib('libstdc++.so')
        env['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:'
                               'max_allocation_size_mb=4096:detect_stack_use_after_return=0:'
                               'handle_segv=1:log_path=' + os.path.join(scratch, 'san'))
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=0:log_path=' + os.path.join(scratch, 'san')
        env['PYTHONMALLOC'] = 'malloc'
        env.pop('PYTHONFAULTHANDLER')
    elif variant == 'tsan':
        env['LD_PRELOAD'] = lib('libtsan.so') + ':' + lib('libstdc++.so') + ':' + build_minigomp()
        env['TSAN_OPTIONS'] = ('halt_on_error=0:exitcode=0:report_thread_leaks=0:second_deadlock_stack=1:'
                               'history_size=4:log_path=' + os.path.join(scratch, 'san'))
        env['PYTHONMALLOC'] = 'malloc'
        env.pop('PYTHONFAULTHANDLER')
    return env
