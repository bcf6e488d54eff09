"""Build what a check needs from the working tree of /repo.

`package(modules, out)` compiles the named binding units of
/repo/src/pyinterp/core/module (and the library units they use) into an
extension module, and lays a copy of the Python sources of /repo around it, so
that `import pyinterp` runs the code of the current working tree.
"""
import concurrent.futures
import os
import shutil
import subprocess
import sys
import sysconfig

from . import pybind_patch

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VK_REPO', '/repo')
CORE = os.path.join(REPO, 'src', 'pyinterp', 'core')
CXX = 'g++'
INC = ['-I/usr/include/eigen3', f'-I{CORE}/include']
FLAGS = ['-std=c++17', '-O1', '-DHAVE_IEC559', '-DEIGEN_USE_BLAS',
         '-D_GLIBCXX_ASSERTIONS']

# name of the unit -> (init function, submodule that receives it)
UNITS = {
    'axis': [('init_axis', 'm')],
    'bicubic': [('init_bicubic', 'm')],
    'binning': [('init_binning', 'm')],
    'bivariate_interpolator': [('init_bivariate_interpolator', 'm')],
    'bivariate': [('init_bivariate', 'm')],
    'dateutils': [('init_dateutils', 'dateutils')],
    'descriptive_statistics': [('init_descriptive_statistics', 'm')],
    'enum': [('init_enum', 'mfill')],
    'fill': [('init_fill', 'fill')],
    'geodetic': [('init_geodetic', 'geodetic')],
    # our bindings of the classes that the geohash functions take
    'geodetic-min': [('init_geodetic', 'geodetic')],
    'geohash': [('init_geohash_class', 'm')],
    'geohash/int64': [('init_geohash_int64', 'int64')],
    'geohash/string': [('init_geohash_string', 'geohash')],
    'grid': [('init_grid', 'm')],
    'histogram2d': [('init_histogram2d', 'm')],
    'interpolate1d': [('init_interpolate1d', 'm')],
    'period': [('init_period', 'm')],
    'quadrivariate': [('init_quadrivariate', 'm')],
    'rtree': [('init_rtree', 'm')],
    'streaming_histogram': [('init_streaming_histogram', 'm')],
    'trivariate': [('init_trivariate', 'm')],
}
# order in which the module of the repository registers them
ORDER = ['enum', 'dateutils', 'geodetic', 'geodetic-min', 'period', 'axis', 'binning',
         'histogram2d', 'bivariate_interpolator', 'descriptive_statistics',
         'interpolate1d', 'grid', 'bivariate', 'trivariate', 'quadrivariate',
         'bicubic', 'fill', 'rtree', 'streaming_histogram', 'geohash/int64',
         'geohash/string', 'geohash']
LIBS = {'geodetic': ['geodetic'], 'geodetic-min': ['geodetic'],
        'geohash': ['geohash', 'geodetic'],
        'geohash/int64': ['geohash', 'geodetic'],
        'geohash/string': ['geohash', 'geodetic']}
# longest first
SLOW = ['module/geodetic', 'module/rtree', 'lib/geodetic/polygon',
        'lib/geodetic/multipolygon', 'lib/geodetic/line_string',
        'lib/geodetic/rtree', 'module/binning', 'module/grid',
        'module/histogram2d', 'lib/geodetic/box', 'lib/geodetic/crossover']


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def _env():
    env = dict(os.environ)
    env['CCACHE_DIR'] = f'{VERIF}/build/ccache'
    env['CCACHE_MAXSIZE'] = '2G'
    return env


def compile_one(src, obj, extra=()):
    cmd = [CXX, *FLAGS, *INC, *extra, '-c', src, '-o', obj]
    if shutil.which('ccache') and not os.environ.get('VK_NO_CCACHE'):
        cmd.insert(0, 'ccache')
    r = subprocess.run(cmd, env=_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError(f'cannot compile {src}:\n{r.stdout[-6000:]}')
    return obj


def compile_all(sources, out, extra=()):
    """sources: list of (path, object name). Compile in parallel."""
    os.makedirs(out, exist_ok=True)

    def rank(s):
        for i, w in enumerate(SLOW):
            if s[0].endswith(w + '.cpp'):
                return i
        return len(SLOW)

    sources = sorted(sources, key=rank)
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        return list(ex.map(
            lambda s: compile_one(s[0], os.path.join(out, s[1]), extra),
            sources))


def _main_cpp(path, names):
    init = []
    decl = []
    for n in ORDER:
        if n not in names:
            continue
        for fn, where in UNITS[n]:
            if where == 'mfill':
                decl.append(f'extern void {fn}(py::module &, py::module &);')
                init.append(f'  {fn}(m, fill);')
            else:
                decl.append(f'extern void {fn}(py::module &);')
                init.append(f'  {fn}({where});')
    with open(path, 'w') as f:
        f.write('#include <pybind11/pybind11.h>\nnamespace py = pybind11;\n')
        f.write('\n'.join(decl))
        f.write('''
PYBIND11_MODULE(core, m) {
  auto dateutils = m.def_submodule("dateutils", "");
  auto geodetic = m.def_submodule("geodetic", "");
  auto geohash = m.def_submodule("geohash", "");
  auto fill = m.def_submodule("fill", "");
  auto int64 = geohash.def_submodule("int64", "");
''')
        f.write('\n'.join(init) + '''
  auto install = py::module::import("vkproxy").attr("install");
  for (auto item : {m, dateutils, geodetic, geohash, fill, int64}) {
    install(item);
  }
}
''')


def pybind_include():
    """Patched copy of the pybind11 headers."""
    pb = f'{VERIF}/build/pb'
    tmp = f'{pb}.{os.getpid()}'
    if not os.path.exists(f'{pb}/done'):
        pybind_patch.patch(tmp)
        open(f'{tmp}/done', 'w').close()
        try:
            os.rename(tmp, pb)
        except OSError:
            shutil.rmtree(tmp)
    return pb


def package(modules, out):
    """Returns the directory to put in front of sys.path."""
    names = set(modules)
    pb = pybind_include()
    os.makedirs(out, exist_ok=True)
    srcs = []
    libs = set()
    for n in names:
        srcs.append((f'{VERIF}/cpp/vkgeodetic_min.cpp' if n ==
                     'geodetic-min' else f'{CORE}/module/{n}.cpp',
                     'm_' + n.replace('/', '_') + '.o'))
        libs.update(LIBS.get(n, []))
    for lib in sorted(libs):
        for f in sorted(os.listdir(f'{CORE}/lib/{lib}')):
            if f.endswith('.cpp'):
                srcs.append((f'{CORE}/lib/{lib}/{f}', f'l_{lib}_{f[:-4]}.o'))
    main = f'{out}/main.cpp'
    _main_cpp(main, names)
    srcs.append((main, 'main.o'))
    extra = ['-fPIC', '-fvisibility=hidden',
             '-DPYBIND11_ASSERT_GIL_HELD_INCREF_DECREF', f'-I{pb}',
             '-isystem', '/usr/include/python3.12', '-include',
             f'{VERIF}/shim/compat.hpp']
    objs = compile_all(srcs, f'{out}/o', extra)
    pkg = f'{out}/pkg'
    if os.path.exists(pkg):
        shutil.rmtree(pkg)
    ignore = shutil.ignore_patterns('core', 'tests', '__pycache__', '*.so')
    shutil.copytree(f'{REPO}/src/pyinterp', f'{pkg}/pyinterp', ignore=ignore)
    so = f'{pkg}/pyinterp/core.cpython-312-x86_64-linux-gnu.so'
    cmd = [CXX, '-shared', '-o', so, *objs, '-lopenblas', '-pthread',
           '-Wl,-z,now', '-Wl,--no-undefined-version']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if r.returncode:
        raise RuntimeError('cannot link:\n' + r.stdout[-6000:])
    with open(f'{pkg}/pyinterp/version.py', 'w') as f:
        f.write('def release():\n    return "0"\n\n\ndef date():\n'
                '    return ""\n')
    # stand-ins for third party packages that are not installed
    os.makedirs(f'{pkg}/dask/array', exist_ok=True)
    open(f'{pkg}/dask/__init__.py', 'w').write('')
    open(f'{pkg}/dask/array/__init__.py', 'w').write('')
    shutil.copy(f'{VERIF}/shim/dask_core.py', f'{pkg}/dask/array/core.py')
    shutil.copy(f'{VERIF}/shim/xarray.py', f'{pkg}/xarray.py')
    # names of the units that this check does not build
    shutil.copy(f'{VERIF}/shim/vkproxy.py', f'{pkg}/vkproxy.py')
    return pkg


def module(name, source, out):
    """Build one more extension module, a harness of ours that exposes library
    code of /repo; returns the directory to put in sys.path."""
    pb = pybind_include()
    extra = ['-fPIC', '-fvisibility=hidden', f'-I{pb}', '-isystem',
             '/usr/include/python3.12']
    objs = compile_all([(source, f'x_{name}.o')], f'{out}/o', extra)
    os.makedirs(f'{out}/ext', exist_ok=True)
    cmd = [CXX, '-shared', '-o', f'{out}/ext/{name}.so', *objs, '-lopenblas',
           '-pthread', '-Wl,-z,now']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if r.returncode:
        raise RuntimeError('cannot link:\n' + r.stdout[-6000:])
    return f'{out}/ext'


def executable(name, sources, out, extra=(), link=()):
    """Build a C++ harness; sources are absolute paths."""
    objs = compile_all([(s, os.path.basename(s)[:-4] + '.o') for s in sources],
                       f'{out}/o', extra)
    exe = f'{out}/{name}'
    cmd = [CXX, '-o', exe, *objs, *[e for e in extra if
                                   e.startswith('-fsanitize')],
           '-lopenblas', '-pthread', *link]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if r.returncode:
        raise RuntimeError('cannot link:\n' + r.stdout[-6000:])
    return exe


def shared(name, source, out, extra=()):
    """Build a library that does not depend on /repo."""
    os.makedirs(out, exist_ok=True)
    lib = f'{out}/lib{name}.so'
    cmd = [CXX, '-std=c++17', '-O2', '-w', '-fPIC', '-shared', '-o', lib,
           source, *extra, '-ldl', '-pthread']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if r.returncode:
        raise RuntimeError('cannot link:\n' + r.stdout[-6000:])
    return lib
