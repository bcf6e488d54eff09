"""Copy the installed pybind11 headers, patched to talk to numpy 2.

pybind11 2.11.1 is the only one installed and knows the numpy 1 ABI only; the
numpy that is installed (python3-vt) is 2.x.  Three things differ: the module
that exports the C API, one slot of the API table, and the layout of a dtype.
"""
import os, shutil, sys

def patch(dst, src='/usr/include/pybind11'):
    out = os.path.join(dst, 'pybind11')
    os.makedirs(dst, exist_ok=True)
    shutil.copytree(src, out, dirs_exist_ok=True)
    p = os.path.join(out, 'numpy.h')
    s = open(p).read()
    def sub(a, b):
        nonlocal s
        if s.count(a) < 1:
            raise SystemExit('pybind_patch: pattern not found: ' + a)
        s = s.replace(a, b)
    sub('''    char byteorder;
    char flags;
    int type_num;
    int elsize;
    int alignment;
    char *subarray;
    PyObject *fields;
    PyObject *names;
''', '''    char byteorder;
    char _former_flags;
    int type_num;
    std::uint64_t flags;
    Py_ssize_t elsize;
    Py_ssize_t alignment;
    PyObject *metadata;
    Py_hash_t hash;
    void *reserved_null[2];
    char *subarray;
    PyObject *fields;
    PyObject *names;
''')
    sub('numpy.core.multiarray', 'numpy._core.multiarray')
    sub('numpy.core._internal', 'numpy._core._internal')
    sub('API_PyArray_CopyInto = 82', 'API_PyArray_CopyInto = 50')
    sub('        DECL_NPY_API(PyArray_GetArrayParamsFromObject);\n', '')
    open(p, 'w').write(s)

if __name__ == '__main__':
    patch(sys.argv[1])
