# distribution routines that log their arguments, driven through randomgen.broadcasting
import numpy as np
cimport numpy as np
from cpython.pycapsule cimport PyCapsule_GetPointer
from libc.stdint cimport int64_t, uint64_t
from numpy.random cimport bitgen_t
from randomgen cimport broadcasting as B

np.import_array()

cdef extern from *:
    """
    #include <string.h>
    #define VF_CAP 70000
    typedef struct { uint64_t kind, a, b, c; } vf_rec;
    static vf_rec vf_log[VF_CAP];
    static uint64_t vf_n = 0;
    static uint64_t vf_bits(double x) { uint64_t u; memcpy(&u, &x, 8); return u; }
    static uint64_t vf_mix(bitgen_t *s, uint64_t kind, uint64_t a, uint64_t b, uint64_t c) {
      if (vf_n < VF_CAP) { vf_rec r = {kind, a, b, c}; vf_log[vf_n] = r; }
      vf_n++;
      uint64_t h = a * 0x9E3779B97F4A7C15ull + b * 0xC2B2AE3D27D4EB4Full + c * 0x165667B19E3779F9ull + kind;
      h ^= h >> 29;
      int k = 1 + (int)(h % 3), i;
      for (i = 0; i < k; i++) h = h * 0xD6E8FEB86659FD93ull + s->next_uint64(s->state);
      return h;
    }
    static double vf_d(uint64_t h) { return (double)(h >> 11) / 9007199254740992.0; }
    static double vf_d0(void *s) { return vf_d(vf_mix((bitgen_t *)s, 0, 0, 0, 0)); }
    static double vf_d1(void *s, double a) { return vf_d(vf_mix((bitgen_t *)s, 1, vf_bits(a), 0, 0)); }
    static double vf_d2(void *s, double a, double b) { return vf_d(vf_mix((bitgen_t *)s, 2, vf_bits(a), vf_bits(b), 0)); }
    static double vf_d3(void *s, double a, double b, double c) { return vf_d(vf_mix((bitgen_t *)s, 3, vf_bits(a), vf_bits(b), vf_bits(c))); }
    static float vf_f0(bitgen_t *s) { return (float)(vf_mix(s, 4, 0, 0, 0) >> 40) / 16777216.0f; }
    static float vf_f1(bitgen_t *s, float a) { return (float)(vf_mix(s, 5, vf_bits(a), 0, 0) >> 40) / 16777216.0f; }
    static int64_t vf_i0(void *s) { return (int64_t)vf_mix((bitgen_t *)s, 6, 0, 0, 0); }
    static int64_t vf_id(void *s, double a) { return (int64_t)vf_mix((bitgen_t *)s, 7, vf_bits(a), 0, 0); }
    static int64_t vf_idd(void *s, double a, double b) { return (int64_t)vf_mix((bitgen_t *)s, 8, vf_bits(a), vf_bits(b), 0); }
    static int64_t vf_idi(void *s, double a, uint64_t b) { return (int64_t)vf_mix((bitgen_t *)s, 9, vf_bits(a), b, 0); }
    static int64_t vf_ii(void *s, int64_t a) { return (int64_t)vf_mix((bitgen_t *)s, 10, (uint64_t)a, 0, 0); }
    static int64_t vf_iiii(void *s, int64_t a, int64_t b, int64_t c) { return (int64_t)vf_mix((bitgen_t *)s, 11, (uint64_t)a, (uint64_t)b, (uint64_t)c); }
    static double vf_fill(bitgen_t *s, npy_intp n, double *out) {
      npy_intp i;
      for (i = 0; i < n; i++) out[i] = vf_d(vf_mix(s, 12, 0, 0, 0));
      return 0;
    }
    """
    ctypedef struct vf_rec:
        uint64_t kind
    vf_rec *vf_log
    uint64_t vf_n
    double vf_d0(void *s) noexcept nogil
    double vf_d1(void *s, double a) noexcept nogil
    double vf_d2(void *s, double a, double b) noexcept nogil
    double vf_d3(void *s, double a, double b, double c) noexcept nogil
    float vf_f0(bitgen_t *s) noexcept nogil
    float vf_f1(bitgen_t *s, float a) noexcept nogil
    int64_t vf_i0(void *s) noexcept nogil
    int64_t vf_id(void *s, double a) noexcept nogil
    int64_t vf_idd(void *s, double a, double b) noexcept nogil
    int64_t vf_idi(void *s, double a, uint64_t b) noexcept nogil
    int64_t vf_ii(void *s, int64_t a) noexcept nogil
    int64_t vf_iiii(void *s, int64_t a, int64_t b, int64_t c) noexcept nogil
    double vf_fill(bitgen_t *s, np.npy_intp n, double *out) noexcept nogil

CONS = {'none': B.CONS_NONE, 'nonneg': B.CONS_NON_NEGATIVE, 'pos': B.CONS_POSITIVE, 'posnan': B.CONS_POSITIVE_NOT_NAN,
        '01': B.CONS_BOUNDED_0_1, 'gt01': B.CONS_BOUNDED_GT_0_1, 'gt1': B.CONS_GT_1, 'gte1': B.CONS_GTE_1,
        'poisson': B.CONS_POISSON, 'legacy': B.LEGACY_CONS_POISSON}


def count():
    return vf_n


def reset():
    global vf_n
    vf_n = 0


def log():
    cdef uint64_t n = min(vf_n, 70000)
    cdef uint64_t i
    out = np.empty((n, 4), np.uint64)
    cdef uint64_t[:, ::1] o = out
    cdef uint64_t *p = <uint64_t *> vf_log
    for i in range(n):
        o[i, 0], o[i, 1], o[i, 2], o[i, 3] = p[4 * i], p[4 * i + 1], p[4 * i + 2], p[4 * i + 3]
    return out


cdef class Gen:
    cdef bitgen_t s
    cdef object b, lock

    def __init__(self, b, lock):
        self.b = b
        self.lock = lock
        self.s = (<bitgen_t *> PyCapsule_GetPointer(b.capsule, "BitGenerator"))[0]

    def cont(self, int narg, a, str ca, b, str cb, c, str cc, size, out):
        cdef void **fs = [<void *> &vf_d0, <void *> &vf_d1, <void *> &vf_d2, <void *> &vf_d3]
        cdef void *f = fs[narg]
        cdef B.ConstraintType ka = CONS[ca], kb = CONS[cb], kc = CONS[cc]
        return B.cont(f, &self.s, size, self.lock, narg, a, 'a', ka, b, 'b', kb, c, 'c', kc, out)

    def cont_f(self, a, str ca, size, out):
        cdef B.ConstraintType ka = CONS[ca]
        return B.cont_f(<void *> &vf_f1, &self.s, size, self.lock, a, 'a', ka, out)

    def disc(self, int nd, int ni, a, str ca, b, str cb, c, str cc, size):
        cdef B.ConstraintType ka = CONS[ca], kb = CONS[cb], kc = CONS[cc]
        cdef void *f
        if (nd, ni) == (0, 0):
            f = <void *> &vf_i0
        elif (nd, ni) == (1, 0):
            f = <void *> &vf_id
        elif (nd, ni) == (2, 0):
            f = <void *> &vf_idd
        elif (nd, ni) == (1, 1):
            f = <void *> &vf_idi
        elif (nd, ni) == (0, 1):
            f = <void *> &vf_ii
        elif (nd, ni) == (0, 3):
            f = <void *> &vf_iiii
        else:
            raise AssertionError
        return B.disc(f, &self.s, size, self.lock, nd, ni, a, 'a', ka, b, 'b', kb, c, 'c', kc)

    def double_fill(self, size, out):
        return B.double_fill(<void *> &vf_fill, &self.s, size, self.lock, out)

    def float_fill(self, size, out):
        return B.float_fill(<void *> &vf_f0, &self.s, size, self.lock, out)

    def float_fill_from_double(self, size, out):
        return B.float_fill_from_double(<void *> &vf_d0, &self.s, size, self.lock, out)


def check_output(out, dtype, size, bint require_c):
    B.check_output(out, dtype, size, require_c)


def check_scalar(double v, str cons):
    cdef B.ConstraintType k = CONS[cons]
    B.check_constraint(v, 'v', k)


def check_array(np.ndarray v, str cons):
    cdef B.ConstraintType k = CONS[cons]
    B.check_array_constraint(v, 'v', k)
