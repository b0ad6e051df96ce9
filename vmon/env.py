"""Environment: where things are, building the native stand-in, importing the code under test."""
import hashlib
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VMON_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
SITE = '/opt/venv/lib/python3.12/site-packages'

FLAVORS = {
    'plain': (['gcc'], ['-O2']),
    'asan': (['gcc'], ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                       '-fno-sanitize-recover=undefined']),
}


class SetupError(Exception):
    pass


def _build_dirs():
    yield os.path.join(VERIF, '.build')
    yield os.path.join(tempfile.gettempdir(), 'vmon-build-%d' % os.getuid())


def build_native(flavor='plain'):
    """Return the path of the shared object, building it if it is not there.

    Safe for concurrent callers: builds to a private name, then renames."""
    src = os.path.join(VERIF, 'native', 'zkp.c')
    with open(src, 'rb') as f:
        tag = hashlib.sha256(f.read() + repr(FLAVORS[flavor]).encode()).hexdigest()[:16]
    err = None
    for d in _build_dirs():
        out = os.path.join(d, 'libzkp-%s-%s.so' % (flavor, tag))
        if os.path.exists(out):
            return out
        try:
            os.makedirs(d, exist_ok=True)
            tmp = out + '.%d.tmp' % os.getpid()
            cc, fl = FLAVORS[flavor]
            subprocess.run(cc + fl + ['-Wall', '-fPIC', '-fvisibility=hidden', '-shared', '-o', tmp, src,
                                      '-lsecp256k1'], check=True, capture_output=True, text=True)
            os.rename(tmp, out)
            return out
        except subprocess.CalledProcessError as e:
            raise SetupError('native build failed: ' + e.stderr)
        except OSError as e:
            err = e
    raise SetupError('native build failed: %r' % err)


def asan_runtime():
    r = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True, check=True)
    p = os.path.realpath(r.stdout.strip())
    if not os.path.exists(p):
        raise SetupError('libasan.so not found')
    return p


def worker_env(flavor='plain'):
    e = dict(os.environ)
    e.pop('ELEMENTSTX_TESTS_SECP256K1_PATH', None)
    e.update(PYTHONPATH=VERIF + os.pathsep + REPO, PYTHONDONTWRITEBYTECODE='1',
             PYTHONPYCACHEPREFIX='/nonexistent/pycache', PYTHONHASHSEED='0', LC_ALL='C.UTF-8')
    if flavor == 'asan':
        e.update(LD_PRELOAD=asan_runtime(), PYTHONMALLOC='malloc',
                 ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1',
                 UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=77')
    return e


def import_repo(native=None, chain='elements'):
    """Import elementstx from the working tree.  native: path of the library, or None for the system one."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import elementstx
    if not os.path.abspath(elementstx.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise SetupError('elementstx imported from %s, not from %s' % (elementstx.__file__, REPO))
    import bitcointx
    if native:
        elementstx.set_custom_secp256k1_path(native)
    if chain:
        bitcointx.select_chain_params(chain)
    return elementstx
