"""A stand-in for cupy on a machine without a GPU.

Device arrays are a class of their own around a numpy array: mixing them with
numpy arrays, or converting them implicitly, is a TypeError as in cupy. The
CUDA kernels of redrock are the real source text, compiled as C++ and run over
every block and thread sequentially in a chosen order, with every array access
bounds-checked.
"""
import ctypes, hashlib, operator, os, re, subprocess, sys, types
import numpy as np
from mc import core

ORDERS = ('fwd', 'rev', 'lane', 'odd')
STATE = dict(order='fwd', perm=None, faults=[], launches=0, threads=0, uninit=0, block=None)
CACHE = os.path.join(core.VERIF, 'build', 'cuda')


class Unsupported(Exception):
    """A kernel which cannot be run thread by thread."""


class KernelFault(Exception):
    """An array access outside of its bounds, a missing synchronisation or a bad launch."""


def un(x):
    """Host view of the arguments of a call."""
    if isinstance(x, ndarray):
        return x._a
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return type(x)(un(v) for v in x)
    if isinstance(x, dict) and type(x) is dict:
        return {k: un(v) for k, v in x.items()}
    return x


def wrap(x):
    if isinstance(x, (np.ndarray, np.generic)):
        return ndarray(np.asarray(x))
    if isinstance(x, tuple):
        return tuple(wrap(v) for v in x)
    if isinstance(x, list):
        return [wrap(v) for v in x]
    return x


def mixed(*args):
    for x in args:
        if isinstance(x, np.ndarray) and x.ndim > 0:
            raise TypeError("Unsupported type <class 'numpy.ndarray'>")


class ndarray:
    __array_priority__ = 100
    __hash__ = None

    def __init__(self, a, dtype=None):
        if isinstance(a, (tuple, int, np.integer)):
            a = np.full(a, np.nan, dtype=dtype or np.float64) if np.dtype(dtype or float).kind == 'f' else np.zeros(a, dtype)
        self._a = a

    def get(self, *a, **k):
        return self._a.copy()

    def __array__(self, *a, **k):
        raise TypeError('Implicit conversion to a NumPy array is not allowed. Please use `.get()` to construct a NumPy array explicitly.')

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.pop('out', None)
        mixed(*inputs)
        r = getattr(ufunc, method)(*un(inputs), **un(kw))
        if out is not None:
            o = out[0]
            if not isinstance(o, ndarray):
                raise TypeError('the output must be a cupy array')
            o._a[...] = r
            return o
        return wrap(r)

    def __array_function__(self, func, typs, args, kw):
        return wrap(func(*un(args), **un(kw)))

    def __getattr__(self, name):
        if name.startswith('__') or name == '_a':
            raise AttributeError(name)
        v = getattr(self._a, name)
        if callable(v):
            def call(*a, **k):
                mixed(*[x for x in a if name not in ('reshape', 'transpose')])
                r = v(*un(a), **un(k))
                return wrap(r) if not isinstance(r, (bytes, list)) else r
            return call
        return wrap(v) if isinstance(v, np.ndarray) else v

    def item(self, *a):
        return self._a.item(*a)

    def tolist(self):
        return self._a.tolist()

    def __len__(self):
        return len(self._a)

    def __iter__(self):
        return (wrap(x) for x in self._a)

    def __bool__(self):
        return bool(self._a)

    def __float__(self):
        return float(self._a)

    def __int__(self):
        return int(self._a)

    def __index__(self):
        return operator.index(self._a)

    def __repr__(self):
        return f'cupy({self._a!r})'

    def __format__(self, spec):
        return format(self._a[()] if self._a.ndim == 0 else str(self._a), spec)

    def __getitem__(self, k):
        r = self._a[un(k)]
        return wrap(r)

    def __setitem__(self, k, v):
        self._a[un(k)] = un(v)


def _bin(name):
    op = getattr(operator, name.strip('_') if name.strip('_') not in ('and', 'or') else name.strip('_') + '_')

    def f(self, other):
        mixed(other)
        return wrap(op(self._a, un(other)))

    def r(self, other):
        mixed(other)
        return wrap(op(un(other), self._a))

    def i(self, other):
        mixed(other)
        self._a = getattr(operator, 'i' + name)(self._a, un(other))
        return self
    return f, r, i


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'matmul', 'and', 'or', 'xor', 'lshift', 'rshift'):
    _f, _r, _i = _bin(_n)
    setattr(ndarray, f'__{_n}__', _f)
    setattr(ndarray, f'__r{_n}__', _r)
    setattr(ndarray, f'__i{_n}__', _i)
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(ndarray, f'__{_n}__', _bin(_n)[0])
for _n in ('neg', 'pos', 'abs', 'invert'):
    setattr(ndarray, f'__{_n}__', (lambda o: lambda self: wrap(o(self._a)))(getattr(operator, _n)))


# ---------------------------------------------------------------- kernels
PRE = r'''
#include <cmath>
#include <cstdlib>
#include <cstdint>
#include <algorithm>
using std::min; using std::max;
struct dim3_ { int x, y, z; };
static thread_local dim3_ threadIdx, blockIdx, blockDim, gridDim;
struct Fault { const char *array; long index, size; int write; };
static thread_local Fault fault;
static thread_local int nfault;
template <class T> struct P {
    T *p; long n, off; const char *name;
    T &operator[](long i) const {
        i += off;
        if (i < 0 || i >= n) {
            if (!nfault++) { fault.array = name; fault.index = i; fault.size = n; }
            static thread_local typename std::remove_const<T>::type junk; junk = (typename std::remove_const<T>::type)0; 
            return *(T *)&junk;
        }
        return p[i];
    }
    P operator+(long k) const { P q = *this; q.off += k; return q; }
    P operator-(long k) const { P q = *this; q.off -= k; return q; }
    P &operator+=(long k) { off += k; return *this; }
    P &operator++() { off++; return *this; }
    T &operator*() const { return (*this)[0]; }
    operator P<const T>() const { P<const T> q; q.p = p; q.n = n; q.off = off; q.name = name; return q; }
};
template <class T> static T atomicAdd(T *a, T v) { T o = *a; *a += v; return o; }
template <class T> static T __ldg(const T *a) { return *a; }
#define __global__ static
#define __device__ static
#define __host__
#define __forceinline__ inline
#define __restrict__
#define __launch_bounds__(...)
'''
_LIBS = {}


def _params(text):
    out = []
    for p in text.split(','):
        p = ' '.join(p.replace('*', ' * ').split())
        p = p.replace('__restrict__', ' ')
        ptr = '*' in p
        toks = [t for t in p.replace('*', ' ').split()]
        name = toks[-1]
        typ = ' '.join(toks[:-1])
        out.append((typ, ptr, name))
    return out


SIZES = {'double': 'f8', 'float': 'f4', 'int': 'i4', 'unsigned int': 'u4', 'long': 'i8', 'long long': 'i8', 'unsigned long': 'u8', 'size_t': 'u8',
         'int64_t': 'i8', 'int32_t': 'i4', 'bool': '?', 'char': 'i1'}


TYPES = r'(?:unsigned\s+)?(?:double|float|long\s+long|long|int|size_t|int64_t|int32_t|bool|char)'


def build(code, checked=True):
    if re.search(r'__sync|__shared__|__shfl|\b(?:threadIdx|blockIdx|blockDim|gridDim)\.[yz]', code):
        raise Unsupported('kernels with shared memory, synchronisation or several dimensions')
    h = hashlib.sha1((code + PRE + str(checked)).encode()).hexdigest()[:16]
    if h in _LIBS:
        return _LIBS[h]
    kernels = {}
    body = re.sub(r'//[^\n]*', '', code)
    body = re.sub(r'/\*.*?\*/', '', body, flags=re.S)

    def sub(m):
        ps = _params(m.group(2))
        kernels[m.group(1)] = ps
        return '__global__ void %s(%s)' % (m.group(1), ', '.join(f'P<{t}> {n}' if ptr else f'{t} {n}' for t, ptr, n in ps))
    body = re.sub(r'__global__\s+void\s+(?:__launch_bounds__\([^)]*\)\s*)?(\w+)\s*\(([^)]*)\)', sub, body)
    if checked:
        # pointers of helper functions and local pointers are checked too
        body = re.sub(r'((?:const\s+)?' + TYPES + r')\s*\*\s*(?:const\s+)?(?:__restrict__\s*)?(?=\w+\s*[,)=;])', r'P<\1> ', body)
        src = PRE + body
    else:
        src = PRE + 'template <class T> struct Raw { typedef T *type; };\n' + re.sub(r'\bP<([^<>]*)>', r'typename Raw<\1>::type', body).replace('typename Raw', 'Raw')
    for k, ps in kernels.items():
        call = ', '.join((f'{{({t}*)ptr[{i}], size[{i}], 0, "{n}"}}' if checked else f'({t}*)ptr[{i}]') if ptr else f'*({t}*)ptr[{i}]' for i, (t, ptr, n) in enumerate(ps))
        src += f'''
extern "C" int launch_{k}(int grid, int block, const int *order, const int *lanes, int laned, void **ptr, long *size, Fault *out) {{
    blockDim = {{block, 1, 1}}; gridDim = {{grid, 1, 1}}; nfault = 0;
    for (long q = 0; q < (long)grid * block; q++) {{
        long b = laned ? q % grid : q / block, t = laned ? q / grid : q % block;
        blockIdx = {{order[b], 0, 0}}; threadIdx = {{lanes[t], 0, 0}};
        {k}({call});
    }}
    *out = fault;
    return nfault;
}}
'''
    os.makedirs(CACHE, exist_ok=True)
    so = os.path.join(CACHE, h + '.so')
    if not os.path.exists(so):
        tmp = so + f'.{os.getpid()}'
        open(tmp + '.cpp', 'w').write(src)
        r = subprocess.run(['g++', '-O1', '-ffp-contract=off', '-fPIC', '-shared', '-w', '-o', tmp, tmp + '.cpp'], capture_output=True, text=True)
        os.unlink(tmp + '.cpp')
        if r.returncode and checked:
            _LIBS[h] = build(code, False)
            return _LIBS[h]
        if r.returncode:
            raise Unsupported('kernel does not compile as C++: ' + r.stderr[:2000])
        os.rename(tmp, so)
    _LIBS[h] = (ctypes.CDLL(so), kernels)
    return _LIBS[h]


class Kernel:
    def __init__(self, lib, name, params):
        self.f, self.name, self.params = getattr(lib, 'launch_' + name), name, params

    def __call__(self, grid, block, args, **kw):
        grid, block = [int(np.prod([int(v) for v in (q if isinstance(q, tuple) else (q,))])) for q in (grid, block)]
        if len(args) != len(self.params):
            raise KernelFault(f'{self.name}: {len(args)} arguments for {len(self.params)} parameters')
        if grid <= 0 or block <= 0 or block > 1024:
            raise KernelFault(f'{self.name}: launch of {grid} blocks of {block} threads')
        ptr = (ctypes.c_void_p * len(args))()
        size = (ctypes.c_long * len(args))()
        keep, out = [], []
        for i, (a, (t, isp, n)) in enumerate(zip(args, self.params)):
            base = t.replace('const', '').strip()
            dt = np.dtype(SIZES[base])
            if isp:
                if not isinstance(a, ndarray):
                    raise TypeError(f'{self.name}: argument {n} is a {type(a).__name__}, not a device array')
                x = a._a
                if x.dtype.itemsize != dt.itemsize or x.dtype.kind not in {'f': 'f', 'i': 'iu', 'u': 'iu', 'b': 'b'}[dt.kind]:
                    raise KernelFault(f'{self.name}: argument {n} has type {x.dtype}, the kernel reads {t}')
                # the kernel sees the memory from the first element on, whatever the strides are
                last = sum((s - 1) * st for s, st in zip(x.shape, x.strides) if s > 0 and st > 0)
                nel = last // dt.itemsize + 1 if x.size else 0
                ptr[i] = x.ctypes.data
                size[i] = nel
                keep.append(x)
                if 'const' not in t:
                    out.append((n, x))
            else:
                v = np.array(un(a)).astype(dt)
                keep.append(v)
                ptr[i] = v.ctypes.data
        o = STATE['order']
        bl, ln = np.arange(grid), np.arange(block)
        if o == 'rev':
            bl, ln = bl[::-1], ln[::-1]
        elif o == 'odd':
            bl, ln = np.r_[bl[1::2], bl[::2]], np.r_[ln[1::2], ln[::2]]
        if STATE['perm'] is not None:
            p = STATE['perm']
            k = len(p)
            if block % k == 0:
                ln = (np.arange(block // k)[:, None] * k + np.array(p)[None]).ravel()
        bl, ln = [np.ascontiguousarray(q, dtype=np.int32) for q in (bl, ln)]
        fl = (ctypes.c_long * 8)()
        pi = ctypes.POINTER(ctypes.c_int)
        self.f.restype = ctypes.c_int
        nf = self.f(grid, block, bl.ctypes.data_as(pi), ln.ctypes.data_as(pi), int(o == 'lane'), ptr, size, ctypes.byref(fl))
        STATE['launches'] += 1
        STATE['threads'] += grid * block
        if nf:
            name = ctypes.cast(fl[0], ctypes.c_char_p).value.decode()
            raise KernelFault(f'{self.name}: {nf} accesses outside of array {name}: index {fl[1]} of {fl[2]} elements')


class RawModule:
    def __init__(self, code=None, **kw):
        self.lib, self.kernels = build(code)

    def get_function(self, name):
        return Kernel(self.lib, name, self.kernels[name])


class RawKernel(Kernel):
    def __init__(self, code, name, **kw):
        lib, k = build(code)
        super().__init__(lib, name, k[name])


# ---------------------------------------------------------------- the module
def _array(x, dtype=None, *a, copy=True, **kw):
    if isinstance(x, ndarray):
        if dtype is None or x._a.dtype == np.dtype(dtype):
            return ndarray(x._a.copy()) if copy else x
        return ndarray(x._a.astype(dtype))
    return ndarray(np.array(un(x), dtype=dtype))


def _solve(M, y):
    """No error for singular matrices: undefined values."""
    mixed(M, y)
    M, y = un(M), un(y)
    if M.ndim == 2:
        return wrap(np.linalg.solve(M, y))
    if y.ndim != M.ndim:
        raise ValueError('b must have (..., M, K) shape')
    r = np.empty(y.shape)
    for i in np.ndindex(M.shape[:-2]):
        try:
            r[i] = np.linalg.solve(M[i], y[i])
        except np.linalg.LinAlgError:
            r[i] = np.nan
    return wrap(r)


class Device:
    mem = (64 * 2 ** 30, 64 * 2 ** 30)

    def __init__(self, *a):
        pass

    @property
    def mem_info(self):
        return Device.mem

    def use(self):
        pass

    def synchronize(self):
        pass

    __enter__ = lambda self: self
    __exit__ = lambda self, *a: None


class _Mod(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = getattr(np, name)
        if isinstance(v, type) or not callable(v):
            return v

        def f(*a, **k):
            if isinstance(v, np.ufunc):
                mixed(*a)
            r = v(*un(a), **un(k))
            if name in ('concatenate', 'append', 'stack', 'hstack', 'vstack', 'dstack', 'column_stack'):
                r = np.ascontiguousarray(r)      # cupy allocates these in C order whatever the inputs are
            return wrap(r)
        f.__name__ = name
        return f


def module(ndev=1, ids=None, available=True):
    m = _Mod('cupy')
    m.ndarray = ndarray
    m.array = m.asarray = m.asanyarray = m.ascontiguousarray = None
    m.array = lambda x, dtype=None, *a, **k: _array(x, dtype, copy=k.get('copy', True))
    m.asarray = lambda x, dtype=None, *a, **k: _array(x, dtype, copy=False)
    m.asanyarray = m.asarray
    m.ascontiguousarray = lambda x, dtype=None: ndarray(np.ascontiguousarray(un(m.asarray(x, dtype))))
    m.empty = lambda shape, dtype=float, *a, **k: ndarray(np.full(un(shape), np.nan if np.dtype(dtype).kind == 'f' else 0, dtype=dtype))
    m.asnumpy = lambda x, *a, **k: x.get() if isinstance(x, ndarray) else np.asarray(x)
    m.isscalar = lambda x: np.isscalar(x)
    m.is_available = lambda: available
    m.RawModule, m.RawKernel = RawModule, RawKernel
    m.linalg = _Mod('cupy.linalg')
    for n in ('norm', 'inv', 'eigh', 'svd', 'cholesky', 'lstsq'):
        setattr(m.linalg, n, (lambda g: lambda *a, **k: wrap(g(*un(a), **un(k))))(getattr(np.linalg, n)))
    m.linalg.solve = _solve
    m.linalg.LinAlgError = np.linalg.LinAlgError
    sn = types.SimpleNamespace
    m.cuda = sn(Device=Device, Stream=sn(null=sn(synchronize=lambda: None)),
                runtime=sn(getDeviceCount=lambda: ndev, getDevice=lambda: 0, deviceGetPCIBusId=lambda n: (ids() if ids else '0000:01:00.0')))
    m.get_default_memory_pool = lambda: sn(free_all_blocks=lambda: None)
    m.get_default_pinned_memory_pool = m.get_default_memory_pool
    return m


def install(**kw):
    """Put the stand-in where the code finds cupy; call before and after redrock is imported."""
    m = module(**kw)
    sys.modules['cupy'] = m
    import redrock.igm, redrock.zscan
    redrock.igm.cp = m
    for mod in list(sys.modules.values()):
        if getattr(mod, '__name__', '').startswith('redrock') and hasattr(mod, 'cp') and mod.__name__ not in ('redrock.zscan',):
            mod.cp = m
    return m


def schedule(order='fwd', perm=None):
    STATE['order'], STATE['perm'] = order, perm
