import build
from run import Job
SPECS = {}
NOT_APPLICABLE = {"C35": "no code to check: libraries/dirac and the conjugate gradient cannot be compiled at the pinned commit (they include datatypes/sun.h, which does not exist in the repository)"}


def spec(pid, bounds, jobs, outside="", assumptions=(), level="model_checking", technique=None):
    SPECS[pid] = dict(level=level, bounds=bounds, jobs=jobs, outside=outside, assumptions=list(assumptions), technique=technique,
                      note="Holds for all values of the symbolic inputs within: %s.%s" % (bounds, " Outside: %s." % outside if outside else ""))


R = lambda lo, hi: {"lmin": lo, "lmax": hi}
T = dict(tier="thorough", t=1500)


def lattices(h, avx=True, omp=True, d4=True, **k):
    """the usual configurations for a harness that takes lmin, lmax"""
    j = [Job(h, 2, ranks=n, params=R(2, 5), **k) for n in (1, 2, 3, 4)]
    j += [Job(h, 3, ranks=n, params=R(2, 4), **k) for n in (1, 2, 4, 6)]
    if d4:
        j += [Job(h, 4, ranks=n, params=R(2, 3), **k) for n in (1,)]
        j += [Job(h, 4, ranks=n, params=dict(R(2, 4), L0=4, L1=4), **k) for n in (2, 3)]
    if avx:
        j += [Job(h, 3, "avx", ranks=n, params={"lmin": 4, "L0": 4, "L2": 4, "lmax": 8}, **k) for n in (1, 2)]
    if omp:
        j += [Job(h, 3, "openmp", ranks=n, params=R(3, 3), **k) for n in (1, 2)]
    j += [Job(h, 2, ranks=n, params=R(2, 9), **dict(k, **T)) for n in (1, 2, 3, 4, 5, 6, 8)]
    j += [Job(h, 3, ranks=n, params=R(2, 6), **dict(k, **T)) for n in (2, 3, 5, 8, 12)]
    if d4:
        j += [Job(h, 4, ranks=n, params=R(2, 4), **dict(k, **T)) for n in (2, 4, 8)]
    return j


LB = "2D lattices 2..5 (thorough 2..9), 3D 2..4 (thorough 2..6), 4D 2..4, every combination of sizes, 1..6 processes (thorough ..12), vectorized (AVX2) 4..8"
spec("C01", LB, lattices("layout", omp=False), "larger lattices and process counts; layouts other than the default block layout")
spec("C02", LB + ", OpenMP with 3 threads", lattices("index"), "larger lattices and process counts")
spec("C03", LB + "; all field contents; element types double, float, int, char, long, unsigned long, complex, vector",
     [Job("nb", 2, ranks=n, params=R(2, 5)) for n in (1, 2, 3, 4)]
     + [Job("nb", 3, ranks=n, params=R(2, 4)) for n in (1, 2, 4, 6)]
     + [Job("nb", 4, ranks=n, params=R(2, 3)) for n in (1,)] + [Job("nb", 4, ranks=2, params=dict(R(2, 3), L0=4))]
     + [Job("nb", 3, "avx", ranks=n, params={"lmin": 4, "L0": 4, "lmax": 8}) for n in (1, 2, 4)]
     + [Job("nb", 3, "openmp", ranks=n, params=R(4, 4)) for n in (1, 2)]
     + [Job("nb", 2, ranks=n, params=R(2, 8), **T) for n in (1, 2, 3, 4, 6, 8)]
     + [Job("nb", 3, ranks=n, params=R(2, 6), **T) for n in (2, 3, 8, 12)]
     + [Job("nb", 4, "avx", ranks=n, params={"lmin": 4, "L0": 4, "L1": 4, "lmax": 8}, **T) for n in (1, 2, 4)],
     "larger lattices, other element types")


def bcjobs():
    j = []
    for t in (0, 1, 2, 3):
        j += [Job("bc", 2, ranks=n, params=dict(R(2, 4), type=t)) for n in ((1, 2, 4) if t == 0 else (2,))]
    j += [Job("bc", 3, ranks=n, params=dict(L0=4, L1=4, L2=3, type=0)) for n in (1, 2, 4)]
    j += [Job("bc", 3, "avx", ranks=n, params=dict(L0=4, L1=l, L2=4, type=t)) for n in (1, 2) for t in (0, 1, 3, 4) for l in (4, 8) if (l == 4) == (n == 1)]
    j += [Job("bc", 3, ranks=n, params=dict(R(3, 5), type=t), **T) for n in (1, 2, 4, 8) for t in (0, 2)]
    j += [Job("bc", 3, "avx", ranks=n, params=dict(R(4, 8), type=t), **T) for n in (1, 2, 4) for t in (0, 1, 3, 4)]
    return j


spec("C04", "2D lattices 2..4, 3D 4x4x3 (thorough 3..5), AVX 4x4x4 and 4x8x4 (thorough 4..8); 1..4 processes; every set of antiperiodic directions; all contents; double, int, complex, vector, non-vectorizable types", bcjobs(), "larger lattices, other sequences of setting conditions")
spec("C05", "all histories of 3 (thorough 4) of 26 field operations on a 4x4 lattice (2 operations on AVX 4x4x8 and on odd sizes), each direction class, 1..4 processes, all field contents",
     [Job("stale", 2, ranks=n, params=dict(L0=4, L1=4, depth=3, dir=d)) for n, d in ((1, 0), (2, 1), (2, 3))] +
     [Job("stale", 2, ranks=n, params=dict(L0=4, L1=4, depth=2, dir=d)) for n, d in ((2, 0), (4, 2), (4, 1))] +
     [Job("stale", 2, ranks=n, params=dict(L0=a, L1=b, depth=2, dir=d)) for a, b, n, d in ((3, 4, 2, 0), (5, 4, 2, 1), (3, 4, 1, 0), (5, 4, 2, 0), (5, 5, 4, 0), (5, 5, 4, 3))] +
     [Job("stale", 3, "avx", ranks=n, params=dict(L0=4, L1=4, L2=8, depth=2, dir=d)) for n, d in ((1, 0), (2, 2), (2, 5))] +
     [Job("stale", 2, ranks=n, params=dict(L0=4, L1=4, depth=4, dir=d), **T) for n, d in ((2, 0), (2, 3), (4, 1))],
     "longer histories, larger lattices")
spec("C06", "all histories of 2 of 34 communicating operations on three fields, two scalar and one array reduction, 3 operations of the 17 that leave transfers under way (thorough: 3 of 34); 2D 4x4, 3x6, 4x6, 3D AVX 4x4x8; 1..4 processes; two partitions with different histories; least buffering the standard allows",
     [Job("comm", 2, ranks=n, params=dict(L0=a, L1=b, depth=2, tail=1, d=d, e=e, delay=y)) for n, a, b, d, e, y in ((1, 4, 4, 0, 1, 0), (2, 4, 4, 0, 1, 1), (2, 4, 4, 3, 1, 0), (3, 3, 6, 1, 2, 0), (4, 4, 4, 0, 1, 0), (4, 4, 6, 2, 3, 1))]
     + [Job("comm", 2, ranks=n, params=dict(L0=4, L1=4, depth=3, few=1, d=d, e=e, delay=y)) for n, d, e, y in ((2, 1, 0, 0), (4, 0, 1, 1))]
     + [Job("comm", 2, ranks=4, params=dict(L0=4, L1=4, depth=1, parts=2))]
     + [Job("comm", 3, "avx", ranks=2, params=dict(L0=4, L1=4, L2=8, depth=1, tail=1, d=2, e=0)), Job("comm", 3, "openmp", ranks=2, params=dict(L0=3, L1=4, L2=4, depth=1, tail=1, d=2, e=1))]
     + [Job("comm", 2, ranks=n, params=dict(L0=4, L1=4, depth=3, first=f, tail=1), **T) for n in (2, 4) for f in (0, 2, 7, 10, 14, 21, 22, 24, 25, 28, 33)]
     + [Job("comm", 2, ranks=4, params=dict(L0=4, L1=4, depth=2, parts=2), **T), Job("comm", 2, ranks=6, params=dict(L0=6, L1=4, depth=2, tail=1), **T), Job("comm", 3, "avx", ranks=2, params=dict(L0=4, L1=4, L2=8, depth=2, d=5, e=0), **T)],
     "longer histories, larger lattices; receives from any source (not used by the code); threads calling MPI at the same time")
spec("C07", "2D lattices up to 4x6, 5x4, 3x5, AVX 4x4x8; all offsets -2..2 (AVX -1..1) and one of 121 steps; all parities and sets of antiperiodic directions; 1..4 processes; all contents",
     [Job("shift", 2, ranks=n, params=dict(L0=a, L1=b, vmax=2, bc=bc, type=t)) for a, b, n, bc, t in ((4, 4, 1, 0, 0), (4, 4, 2, 0, 1), (4, 6, 4, 0, 0), (5, 4, 1, 0, 0), (3, 5, 2, 0, 0), (4, 4, 2, 1, 0), (4, 6, 1, 1, 1))]
     + [Job("shift", 2, ranks=1, params=dict(L0=4, L1=4, v0=60, v1=-61, light=1))]
     + [Job("shift", 3, "avx", ranks=n, params=dict(L0=4, L1=4, L2=8, v0=1, vmax=1, bc=bc, type=t)) for n, bc, t in ((1, 0, 0), (2, 0, 1), (2, 1, 0), (1, 1, 1))]
     + [Job("shift", 3, ranks=n, params=dict(L0=4, L1=a, L2=b, vmax=3, bc=1, type=0), **T) for n in (1, 2, 4) for a, b in ((4, 4), (5, 3))],
     "longer offsets, larger lattices")


def redjobs():
    j = []
    for what in (0, 1, 2):
        for ty in range(4 if what < 2 else 3):
            for n in (1, 2, 4):
                L = dict(L0=4, L1=4) if what < 2 or n == 4 else dict(L0=4, L1=2)
                j.append(Job("red", 2, ranks=n, params=dict(L, what=what, type=ty)))
            if ty == 0 or what != 1:
                j.append(Job("red", 3, "openmp", ranks=1, params=dict(L0=3 if what < 2 else 2, L1=2, L2=2, what=what, type=ty)))
                j.append(Job("red", 3, "avx", ranks=2 if what < 2 else 1, params=dict(L0=4, L1=4, L2=8 if what < 2 else 4, what=what, type=ty)))
    for what in (0, 1):
        for ty in range(3):
            j.append(Job("red", 2, ranks=3, params=dict(L0=3, L1=6, what=what, type=ty), defs=("NONSCALAR",)))
            j.append(Job("red", 3, "avx", ranks=1, params=dict(L0=4, L1=4, L2=4, what=what, type=ty), defs=("NONSCALAR",)))
            j.append(Job("red", 3, "openmp", ranks=1, params=dict(L0=3, L1=2, L2=2, what=what, type=ty), defs=("NONSCALAR",)))
    for n, ty, d in ((1, 0, ()), (2, 0, ()), (2, 2, ()), (3, 0, ("NONSCALAR",)), (4, 1, ("NONSCALAR",))):
        j.append(Job("red", 2, ranks=n, params=dict(L0=4, L1=4 if n != 3 else 6, what=3, type=ty), defs=d))
    j.append(Job("red", 3, "avx", ranks=2, params=dict(L0=4, L1=4, L2=8, what=3, type=0)))
    for n in (2, 3, 4):
        j += [Job("red", 2, ranks=n, params=dict(L0=5, L1=6, what=what, type=t), **T) for what in (0, 1) for t in range(4)]
        j += [Job("red", 4, ranks=n, params=dict(L0=4, L1=4, L2=3, L3=2, what=what, type=0), **T) for what in (0, 1)]
        j += [Job("red", 3, "openmp", ranks=n, params=dict(L0=4, L1=4, L2=2, what=what, type=0), **T) for what in (0, 1)]
    return j


spec("C08", "2D 4x4 and 3x6, 3D AVX 4x4x4, 4x4x8, OpenMP 3x2x2 with 3 threads; 1..4 processes; double, float, int, long, complex, vector, matrix; all contents; plain, allreduce-less, delayed and non-blocking sums, products of arithmetic types",
     redjobs(), "larger lattices; rounding (sums are compared over the reals)")
spec("C10", "2D 3x2, 4x2, 3D AVX 4x2x2, OpenMP 3x2x1 with 3 threads; 1..3 processes; double, float, int, long over their whole finite range; all parities and overloads",
     [Job("minmax", 2, ranks=n, params=dict(L0=3 if n != 2 else 4, L1=2, type=t, light=int(n == 2 and t > 1))) for t in range(4) for n in (1, 2)]
     + [Job("minmax", 3, "openmp", ranks=1, params=dict(L0=2 + (t == 0), L1=2, L2=2, type=t, light=1, omprev=r)) for t, r in ((0, 0), (2, 1))]
     + [Job("minmax", 3, "avx", ranks=n, params=dict(L0=4, L1=4, L2=4 * n, type=t, light=1, nsym=3)) for t, n in ((0, 1), (1, 2), (2, 1))],
     "larger lattices; not-a-number values")
spec("C09", "arrays of 3 elements; 2D 4x4, 3x6, AVX 4x4x4 and 4x4x8, OpenMP 3x2x2; 1..4 processes; double, int, float, complex; all contents; the element named by 2 of the sites symbolic; sums and products, direct, non-blocking, delayed, repeated",
     [Job("redvec", 2, ranks=n, params=dict(L0=4, L1=4, type=t, what=w)) for n, t, w in ((1, 0, 0), (2, 0, 0), (4, 1, 0), (2, 3, 0), (2, 0, 1), (4, 1, 1))]
     + [Job("redvec", 2, ranks=3, params=dict(L0=3, L1=6, type=2, what=w)) for w in (0, 1)]
     + [Job("redvec", 3, "avx", ranks=n, params=dict(L0=4, L1=4, L2=4 * n, type=t, what=w)) for n, t, w in ((1, 0, 0), (2, 2, 0), (1, 1, 1))]
     + [Job("redvec", 3, "openmp", ranks=1, params=dict(L0=3, L1=2, L2=2, type=t, what=w)) for t, w in ((0, 0), (1, 1))],
     "larger arrays and lattices; rounding")
spec("C11", "2D 4x4, 5x4, 3x5, 3D AVX 4x4x4, 4x4x8, OpenMP 3x3x3; 1..4 processes; double, int, complex, vector; all contents; every single element, every sub-volume and slice, lists of up to 6 sites, local data with halo",
     [Job("access", 2, ranks=n, params=dict(L0=a, L1=b, type=t, what=w)) for w in (0, 1, 2) for n, a, b, t in ((1, 3, 4, 1), (2, 4, 4, 0), (4, 4, 4, 2), (2, 5, 4, 3), (3, 3, 6, 0))]
     + [Job("access", 3, "avx", ranks=n, params=dict(L0=4, L1=4, L2=4 * n, type=t, what=w)) for n, t, w in ((1, 0, 2), (2, 2, 2))]
     + [Job("access", 3, ranks=n, params=dict(L0=4, L1=4, L2=4, type=0, what=2)) for n in (2, 8)]
     + [Job("access", 4, ranks=n, params=dict(L0=4, L1=4, L2=2, L3=2, type=0, what=2)) for n in (1, 4)]
     + [Job("access", 2, ranks=2, params=dict(L0=3, L1=3, type=0, what=2, thin=1), reach=())]
     + [Job("access", 3, "openmp", ranks=1, params=dict(L0=3, L1=3, L2=3, type=0, what=2))]
     + [Job("access", 3, "avx", ranks=n, params=dict(L0=4, L1=4, L2=4 * n, type=t, what=w), **T) for n, t, w in ((1, 0, 0), (1, 1, 1), (2, 2, 0))]
     + [Job("access", 2, ranks=n, params=dict(R(3, 6), type=t, what=w), **T) for w in (0, 2) for n, t in ((2, 0), (3, 3))],
     "larger lattices")
BUF = ("WRITE_BUFFER_SIZE=56",)
spec("C12", "2D 3x4, 4x4, 5x4, 3x6, 3D AVX 4x4x4 and 4x4x8; 1..4 processes; double, int, complex<float>, vector; all contents; buffers of 2 to 14 sites, so that the lattice is handled in several pieces, and the buffer of the tree; streams of several fields, every sub-volume and slice, with conversion to float, every smaller lattice that divides the lattice; text output of concrete integers",
     [Job("io", 2, ranks=n, params=dict(L0=a, L1=b, type=t, what=w), defs=BUF) for w in (0, 1, 2, 3) for n, a, b, t in ((1, 3, 4, 1), (2, 4, 4, 0), (4, 4, 4, 2), (3, 3, 6, 3))]
     + [Job("io", 2, ranks=2, params=dict(L0=5, L1=4, type=0, what=w)) for w in (0, 3)]
     + [Job("io", 3, "avx", ranks=n, params=dict(L0=4, L1=4, L2=4 * n, type=t, what=w), defs=BUF) for n, t, w in ((1, 0, 0), (2, 2, 0), (1, 1, 3))],
     "larger lattices; formatting of real numbers as text; the libstdc++ stream implementation (replaced by a model of files as byte strings)")
spec("C13", "2D 4x4, 3x4, 3x6, 4D 4x2x2x2 (processes 1..4); SU(2) links; all contents; every value of the identification numbers of the header, sizes 1..4 and eight ill-formed ones in each direction, complete and truncated files",
     [Job("config", 2, ranks=n, params=dict(L0=a, L1=b, what=w), defs=("WRITE_BUFFER_SIZE=200",)) for w, n, a, b in ((0, 1, 3, 4), (0, 2, 4, 4), (0, 4, 4, 4), (0, 3, 3, 6), (1, 1, 4, 4), (1, 2, 4, 4))]
     + [Job("config", 4, ranks=n, params=dict(L0=4, L1=2, L2=2, L3=2, what=0)) for n in (1,)],
     "larger lattices and other matrices; the libstdc++ stream implementation")
spec("C14", "2D 3x4, 4x4, 3x6, 3D AVX 4x4x4, OpenMP 3x2x2; 1..4 processes; every subset of 5 sites (the others in a fixed pattern), all values; maximum sizes 0..5; joined at once and by hand; repeated use",
     [Job("select", 2, ranks=n, params=dict(L0=a, L1=b, type=t)) for n, a, b, t in ((1, 3, 4, 0), (2, 4, 4, 0), (4, 4, 4, 1), (3, 3, 6, 2))]
     + [Job("select", 3, "openmp", ranks=n, params=dict(L0=3, L1=2, L2=2, type=t)) for n, t in ((1, 0),)]
     + [Job("select", 3, "avx", ranks=1, params=dict(L0=4, L1=4, L2=4, type=t, nsym=3)) for t in (0, 1)],
     "larger lattices")
spec("C15", "2D 4x4, 6x4, 8x4, 6x6, OpenMP 3D 4x4x2; 1..4 processes; every pair of blocking factors 1..4 that divides the lattice, one and two levels of blocking, gauge links with factors 1 and 2; all contents",
     [Job("block", 2, ranks=n, params=dict(L0=a, L1=b, type=t, two=w, fmax=f)) for n, a, b, t, w, f in ((1, 6, 4, 1, 0, 4), (2, 4, 4, 0, 0, 2), (2, 8, 4, 2, 0, 2), (3, 6, 6, 0, 0, 2), (4, 8, 8, 0, 0, 4), (1, 4, 4, 0, 1, 4), (2, 8, 4, 0, 1, 2), (2, 8, 8, 3, 0, 2), (1, 4, 6, 3, 0, 2), (4, 4, 4, 0, 0, 4), (4, 4, 4, 0, 1, 4), (4, 4, 4, 3, 0, 2), (4, 8, 4, 1, 0, 4))]
     + [Job("block", 3, "openmp", ranks=1, params=dict(L0=4, L1=4, L2=2, type=t, two=0, fmax=2)) for t in (0,)],
     "larger lattices; vectorized targets (the tree refuses to block there)")
spec("C21", "all operands up to 1000 in size, denominators not zero; float and double, mixed with float, double, int, long, unsigned; operands that are the variable changed",
     [Job("cplx", 2, params=dict(what=w), reach=("end",) + (() if w < 2 else ("division",))) for w in range(14)],
     "rounding, overflow and underflow (arithmetic over the reals); the values of the elementary functions (uninterpreted, except sin^2+cos^2=1 and sqrt)")
spec("C22", "matrices of up to 3x3, 2x4 and 4x1, vectors and row vectors, arrays and diagonal matrices; double, float, int, Complex<double>, Complex<float> and mixtures; all elements up to 1000 in size (integers up to 100); powers up to 5, exponentials of order up to 3; operands that are elements of the variable changed; sorting of 3 elements",
     [Job("matrix", 2, params=dict(what=w), reach=("end",)) for w in range(27)] + [Job("matrix", 2, params=dict(what=w), defs=("INTS",), reach=("end",)) for w in range(11)],
     "rounding and overflow (arithmetic over the reals); larger matrices; formatting")
LINALG = ((0, -1, 0), (1, 3, 0), (1, 9, 0), (3, 0x1, 0), (3, 0x10, 0), (4, 0x8421, 0), (4, 0x35, 1), (5, 0x1, 0), (5, 0x40, 1), (6, 0x111, 0), (7, 0x1, 1), (7, 0x40, 3),
          (8, -1, 0), (9, 0x1041041, 0), (9, 0x111111, 1), (10, 0x1d7, 1), (11, -1, 0), (12, 0x8421, 1),
          (20, -1, 0), (21, -1, 0), (22, -1, 0), (22, 0x153, 1), (23, 0x1, 1), (23, 0x8, 0), (24, 0x421, 1), (24, 0x8421, 0), (25, -1, 0), (26, 9, 0), (27, -1, 0),
          (40, -1, 0), (41, -1, 0), (42, -1, 0), (42, 0x153, 1), (43, 0x9, 1), (43, 0x10, 0), (44, 0x421, 1), (44, 0x8421, 0), (45, -1, 0), (60, -1, 0), (61, -1, 0), (62, -1, 0), (63, -1, 0))
LINALG_T = ((2, -1, 0), (10, -1, 1), (6, 0x2222, 1), (7, 0x2, 0), (5, 0x11, 1), (6, 0x1051, 3))
LU_ENG = ("--forksel", "--exact", "--branchms", "200")
spec("C24", "arithmetic over the reals; real matrices: all elements symbolic (up to 100 in size) for 2x2 and 3x3 solvers and inverses and up to 5 symbolic elements for determinants and for sizes 4 and 5; complex matrices: all elements for 2x2 solvers and inverses, one or two symbolic elements for 3x3 to 5x5; fixed elements small integers, with and without zero diagonal; all pivot choices; integer matrices with elements up to 9; inverse of a diagonal plus a constant matrix",
     [Job("linalg", 2, params=dict(what=w, mask=m, seed=s), reach=("end",), eng=LU_ENG) for w, m, s in LINALG] +
     [Job("linalg", 2, params=dict(what=w, mask=m, seed=s), reach=("end",), eng=LU_ENG, tier="thorough", t=600) for w, m, s in LINALG_T],
     "rounding (arithmetic over the reals); larger matrices; singular value and eigenvalue decompositions (iterations that end by rounding)")
spec("C27", "1 to 4 dimensions; all directions; coordinates up to 10^6 in size (moduli: up to 1000 with moduli 1..40; thorough: 20000 and 300), factors up to 40; on lattices of size 2..7 (1 dimension), 2..4 (2 dimensions), 2..3 (3 and 4 dimensions)",
     [Job("coord", nd, params=dict(what=w), reach=("end",)) for nd in (1, 2, 3, 4) for w in (0, 1, 2, 3)] +
     [Job("coord", 1, params=dict(what=4, lmin=2, lmax=7, n=50), reach=("end",)), Job("coord", 2, params=dict(what=4, lmin=2, lmax=4, n=50), reach=("end",)), Job("coord", 3, params=dict(what=4, lmin=2, lmax=3), reach=("end",)), Job("coord", 4, params=dict(what=4, lmin=2, lmax=3, n=30), reach=("end",))] +
     [Job("coord", nd, params=dict(what=3, n=20000, m=300), reach=("end",), tier="thorough", t=800) for nd in (2, 4)],
     "sums that overflow int; moduli of zero or less")
spec("C28", "every value of every draw of the generator (symbolic 64-bit draws, IEEE arithmetic for the range and the shuffles, real arithmetic for Gaussian numbers); shuffles of 0..4 elements, of directions, parities and their combinations in 1, 2 and 4 dimensions, 1..2 processes; random loops on 4^2 and 4^3 lattices, 1..2 processes, plain, OpenMP, AVX; seeds 1..2^62 and the time seed, 2..4 processes",
     [Job("rand", 2, mode="ieee", params=dict(what=0), reach=("range", "end"), native=False)] +
     [Job("rand", 2, mode="ieee", params=dict(what=1, n=n), reach=("shuffles", "end"), native=False) for n in (0, 1, 2, 3, 4)] +
     [Job("rand", nd, mode="ieee", ranks=r, params=dict(what=2, list=l), reach=("dirs", "end"), native=False, t=300) for nd, r, l in ((2, 1, 0), (2, 2, 1), (2, 1, 2), (1, 2, 2), (2, 2, 0), (4, 1, 0))] +
     [Job("rand", 2, params=dict(what=3, pair=p), reach=("gauss", "end"), native=False) for p in (0, 1)] +
     [Job("rand", 2, params=dict(what=8, type=p), reach=("gtypes", "end"), native=False) for p in (0, 1, 2, 3)] +
     [Job("rand", 2, mode="ieee", params=dict(what=4), reach=("types", "end"), native=False)] +
     [Job("rand", nd, tg, mode="ieee", ranks=r, params=dict(what=5), reach=("sites", "end"), native=False, t=120) for nd, tg, r in ((2, "vanilla", 1), (2, "vanilla", 2), (2, "openmp", 2), (3, "avx", 1))] +
     [Job("rand", 2, mode="ieee", ranks=r, params=dict(what=6, zero=z), reach=("seeds", "end"), native=False) for r, z in ((2, 0), (4, 0), (2, 1), (4, 1))] +
     [Job("rand", 2, mode="ieee", params=dict(what=7), reach=("unseeded",), native=False)],
     "the generator itself (std::mt19937_64 is replaced by symbolic draws); GPU generators; statistical quality")
FFT = dict(eng=("--exact",), reach=("end",))
def fft(what, nd, target="vanilla", ranks=1, **k):
    return Job("fft", nd, target, ranks=ranks, params=dict(k, what=what), **FFT)
def dims(*L):
    return {"L%d" % i: l for i, l in enumerate(L)}
SHAPES = ((dims(4, 4), 1), (dims(3, 5), 1), (dims(6, 4), 2), (dims(5, 5), 2), (dims(4, 6), 3), (dims(4, 4), 4), (dims(5, 7), 4), (dims(7, 10), 6))
spec("C17", "2D 4x4, 3x5, 6x4, 5x5, 5x7, 7x10 and others, 1D 7, 9, 12, 3D 3x2x4, 4x4x4, 4D 2x2x3x2 and 4^4; 1..6 processes, also with uneven shares; every set of directions, none included; both signs; all contents, complex double, float and vectors; forward and back for sizes whose roots of unity are square roots (2, 3, 4, 6, 8, 12); to a new field, a field in use and in place; neighbours after the transform; OpenMP and AVX",
     [fft(0, 2, ranks=n, type=t, **d) for t, (d, n) in zip((0, 0, 1, 0, 2, 0, 0, 0), SHAPES)] + [fft(0, 1, ranks=n, L0=l) for l, n in ((12, 1), (9, 3), (7, 2))] +
     [fft(0, 3, **dims(3, 2, 4)), fft(0, 3, ranks=2, type=1, **dims(4, 4, 4)), fft(0, 4, **dims(2, 2, 3, 2)), fft(0, 4, ranks=2, mask=15, **dims(4, 4, 4, 4)), fft(0, 2, "openmp", 2, **dims(4, 4)), fft(0, 3, "avx", 2, type=2, **dims(4, 4, 8))] +
     [fft(1, 2, ranks=n, type=t, **d) for d, n, t in ((dims(4, 4), 1, 0), (dims(6, 8), 1, 0), (dims(3, 6), 3, 1), (dims(12, 8), 4, 0), (dims(4, 6), 2, 2))] + [fft(1, 1, ranks=2, L0=8), fft(1, 3, ranks=4, **dims(4, 4, 4))] +
     [fft(8, 2, ranks=n, type=t, **d) for d, n, t in ((dims(4, 4), 1, 0), (dims(4, 4), 2, 0), (dims(6, 4), 3, 1))],
     "larger lattices; rounding (arithmetic over the reals); the one-dimensional transform of FFTW itself (replaced by the textbook sum); GPU transforms")
spec("C18", "2D 4x4, 3x5, 6x4, 5x5, 5x7, 7x10, 7x9 and others, 1D 1..9, 3D 3x4x5, 4D 3x2x2x3; 1..6 processes, also with uneven shares; every set of directions, none included; all contents, complex double and float; OpenMP and AVX",
     [fft(2, 2, ranks=n, type=t, **d) for t, (d, n) in zip((0, 1, 0, 0, 1, 0, 0, 0), SHAPES)] + [fft(2, 2, ranks=6, **dims(7, 9)), fft(2, 1, lmin=2, lmax=9), fft(2, 1, ranks=2, lmin=4, lmax=9), fft(2, 3, **dims(3, 4, 5)), fft(2, 3, ranks=3, **dims(6, 5, 4)), fft(2, 4, **dims(3, 2, 2, 3)), fft(2, 2, "openmp", 2, **dims(4, 5)), fft(2, 3, "avx", **dims(4, 4, 4)), fft(2, 3, "avx", 2, type=1, **dims(4, 4, 8))],
     "larger lattices; other types of fields (the tree does not compile them); GPU reflections")
spec("C19", "real to complex: 2D 4x4, 3x4, 6x4, 5x5, 3D 4x4x8, 1D 8 and 9; complex to real and back (odd sizes are refused): even sizes 2D 4x4, 6x4, 4x2, 8x6, 3D 4x2x4, 4x4x4, 1D 2..12; both signs, all contents, double and float; 1..4 processes, plain, OpenMP, AVX; the half space: every mode for all even sizes up to 12 in 1 to 4 dimensions",
     [fft(3, 2, ranks=n, type=t, mask=0, **d) for d, n, t in ((dims(4, 4), 1, 0), (dims(3, 4), 2, 1), (dims(6, 4), 3, 0), (dims(5, 5), 2, 0))] + [fft(3, 1, mask=0, L0=8), fft(3, 1, ranks=2, mask=0, L0=9), fft(3, 3, "avx", 2, mask=0, **dims(4, 4, 8))] +
     [fft(4, 2, ranks=n, type=t, sign=g, mask=0, **d) for d, n, t, g in ((dims(4, 4), 1, 0, -1), (dims(4, 6), 2, 0, -1), (dims(4, 2), 1, 0, 1), (dims(8, 6), 4, 1, 1), (dims(6, 4), 3, 0, 1))] +
     [Job("fft", 2, ranks=n, params=dict(what=4, mask=0, **d), eng=("--exact",), reach=("refused",)) for d, n in ((dims(3, 4), 1), (dims(4, 5), 2))] +
     [fft(4, 1, sign=1, mask=0, L0=l) for l in (2, 4, 6, 12)] + [fft(4, 3, mask=0, sign=1, **dims(4, 2, 4)), fft(4, 3, "avx", mask=0, **dims(4, 4, 4)), fft(4, 2, "openmp", 2, mask=0, **dims(4, 4))] +
     [fft(5, 2, ranks=n, type=t, mask=0, **d) for d, n, t in ((dims(4, 4), 1, 0), (dims(6, 4), 2, 1), (dims(8, 4), 4, 0))] + [fft(5, 1, mask=0, L0=12), fft(5, 3, ranks=2, mask=0, **dims(4, 4, 4))] +
     [fft(6, 1, mask=0, L0=l) for l in (2, 4, 6, 8, 10, 12)] + [fft(6, 2, mask=0, **dims(*d)) for d in ((2, 2), (4, 6), (8, 2), (12, 10))] + [fft(6, 3, mask=0, **dims(*d)) for d in ((2, 4, 6), (8, 4, 10))] + [fft(6, 4, mask=0, **dims(*d)) for d in ((2, 4, 2, 6), (8, 6, 4, 12))],
     "larger lattices; rounding (arithmetic over the reals)")
def clus(what, nd, d, target="vanilla", ranks=1, tier="quick", **k):
    return Job("clusters", nd, target, ranks=ranks, params=dict(k, what=what, **d), reach=("end", "clusters"), tier=tier, t=600 if tier == "thorough" else 150)
spec("C16", "every set of accepted sites on 3x3, 2x4 and 4x2 lattices and every set of 6 to 8 sites (the others in several fixed patterns) on 4x4, 3x5, 5x5, 6x4, 5x7, 3x3x3 and 2x3x2x2 lattices; up to 4 types of sites; every set of 6 to 9 links, the others in fixed patterns, on the same; repeated searches; 1..6 processes, plain, OpenMP and AVX (sites only, labels and sizes); labels, numbers, sizes, types, areas and lists of sites",
     [clus(0, 2, dims(3, 3), nsym=9), clus(1, 2, dims(3, 3), nsym=5, types=3, pat=1), clus(0, 2, dims(2, 4), nsym=8), clus(0, 2, dims(4, 2), nsym=8), clus(0, 2, dims(3, 3), nsym=6, types=2, pat=2)] +
     [clus(w, 2, d, ranks=n, nsym=7, pat=g) for w, d, n, g in ((0, dims(4, 4), 1, 1), (0, dims(4, 4), 2, 0), (1, dims(4, 4), 4, 2), (0, dims(3, 5), 2, 0), (0, dims(5, 5), 2, 1), (1, dims(6, 4), 3, 0), (0, dims(5, 7), 4, 0), (0, dims(6, 6), 6, 1))] +
     [clus(0, 2, dims(4, 4), ranks=2, nsym=4, types=2, pat=1, twice=1), clus(0, 3, dims(3, 3, 3), nsym=6), clus(0, 3, dims(2, 2, 4), ranks=1, nsym=7, pat=1), clus(0, 4, dims(2, 3, 2, 2), nsym=6), clus(0, 1, dims(8), nsym=8), clus(0, 1, dims(9), ranks=2, nsym=9)] +
     [clus(w, 2, d, ranks=n, nsym=7, pat=g) for w, d, n, g in ((2, dims(3, 3), 1, 1), (2, dims(4, 4), 2, 0), (3, dims(4, 4), 4, 2), (2, dims(3, 5), 2, 0), (2, dims(5, 5), 2, 1), (2, dims(5, 7), 4, 0), (2, dims(2, 3), 1, 0))] +
     [clus(2, 3, dims(3, 3, 3), nsym=6), clus(2, 1, dims(8), nsym=8), clus(2, 2, dims(4, 4), nsym=9, pat=3)] +
     [clus(w, 2, dims(4, 4), "openmp", 2, nsym=4) for w in (0, 2)] + [Job("clusters", 3, "avx", ranks=n, params=dict(what=1, nsym=3, pat=n, slow=0, **dims(4, 4, 4 * n)), defs=("INTS",), reach=("end",)) for n in (1, 2)] +
     [clus(0, 2, dims(4, 4), tier="thorough", nsym=12, slow=0), clus(2, 2, dims(4, 4), tier="thorough", nsym=12, slow=0, pat=1), clus(0, 2, dims(6, 6), ranks=4, tier="thorough", nsym=10)],
     "larger lattices; GPU code")
def binj(what, nd, d, target="vanilla", ranks=1, reach=("end",), **k):
    return Job("bin", nd, target, ranks=ranks, params=dict(k, what=what, **d), reach=reach, t=200)
spec("C20", "every sequence of 2 of 9 settings (bins 1, 3, 7, maximum 2.3, 4.9, exponent 2, 1/2, bin width 0.7, none) with queries and sums between, of 3 settings with queries at the end; 2D 4x4, 5x4, 6x4, 6x6, 3D 4x4x4, 4D 2x2x4x2, 1D 9; all contents: double, complex and vectors; spectral densities of real and complex fields of 1 to 4 components on lattices of size 2 and 4; wave numbers of every coordinate up to twice the size; 1..4 processes, plain, OpenMP, AVX",
     [binj(0, 2, dims(4, 4), n=2, reach=("end", "mean")), binj(0, 2, dims(6, 4), n=2, ranks=2), binj(2, 2, dims(6, 6), n=3, ops=6, ranks=2), binj(0, 1, dims(9), n=2), binj(0, 3, dims(4, 4, 4), n=1), binj(0, 4, dims(2, 2, 4, 2), n=1), binj(2, 3, dims(4, 3, 5), n=2)] +
     [binj(1, 2, d, ranks=r, type=t, n=n, reach=("end", "sums")) for d, r, t, n in ((dims(4, 4), 1, 0, 2), (dims(5, 4), 2, 1, 1), (dims(6, 4), 3, 2, 1), (dims(4, 4), 4, 0, 1))] +
     [binj(3, 2, dims(4, 4), ranks=r, n=2) for r in (1, 2)] + [binj(3, 2, dims(6, 4), n=3, ops=5), binj(3, 2, dims(4, 4), "openmp", 2, n=1), binj(1, 3, dims(4, 4, 4), "avx", n=1, type=1)] +
     [binj(4, 2, d, ranks=r, type=t, n=0, reach=("end", "density")) for d, r, t in ((dims(4, 4), 1, 0), (dims(4, 4), 2, 1), (dims(4, 2), 1, 2), (dims(4, 4), 4, 3), (dims(4, 4), 1, 4))] + [binj(4, 3, dims(4, 2, 4), type=0, n=0), binj(4, 3, dims(4, 4, 4), "avx", type=2, n=0)] +
     [binj(6, 2, d) for d in (dims(5, 4), dims(6, 3))] + [binj(6, 1, dims(l)) for l in (2, 3, 8, 11)],
     "modes that rounding may put to either side of a limit between bins; rounding (arithmetic over the reals); exponents and limits other than those above; lattices too large to follow")
RND = dict(eng=("--round", "2"))
spec("C26", "arithmetic rounded exactly as IEEE doubles (to nearest, ties to even): all operands that are multiples of a common unit, up to 2^53 units (adding a double and comparisons: any value with any two corrections; adding two extended numbers: corrections up to 8; sums of up to 4 doubles up to 2^52 units); numbers of every built-in type; products with 0..3, +-, and 9 larger numbers of 6 types; sums over the sites and 1..3 processes, plain, OpenMP and AVX",
     [Job("ext", 2, params=dict(what=w), reach=("end",), **RND) for w in (0, 1, 4, 5)] +
     [Job("ext", 2, params=dict(what=2, cbits=3, dbits=3), reach=("end",), **RND)] + [Job("ext", 2, params=dict(what=w, cbits=c, dbits=0, **k), reach=("end",), **RND) for w, c, k in ((3, 8, dict(bits=52)), (6, 2, {}), (6, 2, dict(minus=1)))] +
     [Job("ext", 2, params=dict(what=7, type=t), reach=("end",), **RND) for t in range(4)] +
     [Job("ext", 2, params=dict(what=8, big=t), reach=("end",), **RND) for t in range(6)] +
     [Job("ext", 2, params=dict(what=9, op=t), reach=("end",), **RND) for t in range(6)] +
     [Job("ext", 2, params=dict(what=9, op=t, na=a, nb=b, bits=i), reach=("end",), **RND) for t, a, b, i in ((0, 2, 2, 52), (2, 2, 2, 52), (4, 3, 1, 52), (3, 3, 2, 51))] +
     [Job("ext", 2, params=dict(what=10, type=t), reach=("end",), **RND) for t in range(5)] +
     [Job("ext", 2, params=dict(what=11, n=n, bits=52), reach=("end",), **RND) for n in (2, 3, 4)] +
     [Job("ext", nd, tg, ranks=n, params=dict(what=12, bits=52, last=8), reach=("end",), **RND) for nd, tg, n in ((2, "vanilla", 1), (2, "vanilla", 2), (2, "vanilla", 3), (2, "openmp", 2), (3, "avx", 2))],
     "operands whose exponents differ by more than that; overflow and underflow; sums whose rounded-off parts need more than three terms; Reduction<ExtendedPrecision> (the tree refuses it at run time); compiler options that break IEEE arithmetic")
EXACT = dict(eng=("--exact", "--forksel", "--branchms", "200"), extra=build.NOFOLD)
spec("C23", "arithmetic over the reals with exact square roots; SU(2), SU(3) and SU(4) with their algebras (SU(4) without the conjugations, bilinear projections for SU(2) and SU(3)), the quaternion form of SU(2) (double, float and mixed) and U(1); every element up to 100 in size; all generators and their products; quaternion conjugation by every unit quaternion",
     [Job("algebra", 2, params=dict(what=w), reach=("end",) + (("zero", "nonzero") if w in (15, 16) else ()), **EXACT) for w in (0, 1, 2, 3, 4, 5, 10, 11, 12, 13, 14, 15, 16, 17, 18)] +
     [Job("algebra", 2, params=dict(what=w), defs=("NC=3",), reach=("end",), **EXACT) for w in (0, 1, 2, 3, 4, 5)] +
     [Job("algebra", 2, params=dict(what=w), defs=("NC=4",), reach=("end",), **EXACT) for w in (0, 1, 2)],
     "rounding; the values of the elementary functions; the logarithm of SU(N) matrices (an iteration that ends by rounding); representations.h (includes a header that is not part of the repository, so that no program can use it)")
UNI3 = ((0, 1, 1), (0, 3, 1), (0, 65, 1), (0, 4097, 2), (0, 16384, 0), (1, 4161, 1), (1, 131072, 2), (1, 4095, 1))
spec("C25", "arithmetic over the reals with exact square roots; SU(2): all elements symbolic (up to 10 in size); SU(3): one or two symbolic elements and for orthonormality all elements of two rows; SU(4): one or two symbolic elements, orthonormality only; matrices with |det|^2 > 0.001; every special unitary matrix made of one to three symbolic SU(2) subgroups; every phase of the determinant; random matrices for all random numbers; projection to the algebra for all matrices of size 2, 3 and 4",
     [Job("unitary", 2, params=dict(what=w, mask=m, neg=g), reach=("end",), **EXACT) for w, m, g in ((0, 255, 0), (0, 1, 0), (2, 0, 0), (3, 0, 0), (3, 0, 1), (5, 0, 0), (6, 1, 0))] +
     [Job("unitary", 2, params=dict(what=4), reach=("end",), native=False, **EXACT), Job("unitary", 2, params=dict(what=4), defs=("NC=3",), reach=("end",), native=False, **EXACT), Job("unitary", 3, ranks=2, params=dict(what=5), reach=("end",), **EXACT)] +
     [Job("unitary", 2, params=dict(what=w, mask=m, seed=s), defs=("NC=3",), reach=("end",), **EXACT) for w, m, s in UNI3] +
     [Job("unitary", 2, params=dict(what=w, n=n), defs=("NC=3",), reach=("end",), **EXACT) for w, n in ((2, 1), (2, 2), (2, 3), (3, 1), (3, 2))] +
     [Job("unitary", 2, params=dict(what=w, mask=m, seed=s), defs=("NC=4",), reach=("end",), **EXACT) for w, m, s in ((1, 1, 1), (1, 257, 3), (2, 0, 0))] +
     [Job("algebra", 2, params=dict(what=1), defs=d, reach=("end",), **EXACT) for d in ((), ("NC=3",), ("NC=4",))],
     "rounding; the unit determinant for N > 3")
FS = dict(eng=("--forksel",))
spec("C29", "every history of up to 5 requests, releases (also of memory that is not in use) and purges, with every size of a request up to 1000 bytes left symbolic; plain and aligned allocation",
     [Job("pool", 2, params=dict(n=n), reach=("end", "reused", "purge", "misuse"), **FS) for n in (4, 5)] + [Job("pool", 2, params=dict(n=3, last=1, max=300, misuse=0), reach=("end", "reused", "purge"), **FS)] +
     [Job("pool", 3, "avx", params=dict(n=4, align=32), reach=("end", "reused", "purge", "misuse"), **FS)] +
     [Job("pool", 2, params=dict(n=n), reach=("end", "reused", "purge", "misuse"), tier="thorough", t=800, **FS) for n in (6, 7)],
     "accelerators: their allocation calls are replaced by the plain ones, as the tree does without them; running out of memory; larger requests")
spec("C31", "flags -a, -bb, -c, -d1 declared with 0, 1, 2 and any number of arguments; every list of up to 2 arguments from 12 kinds (the flags, an undeclared one, numbers, -, - with any character, a longer flag, empty), of 4 from 9 kinds and of 5 from 6; every integer of up to 3 characters of +-0927 x.e; misuse of every query",
     [Job("cmdline", 2, params=dict(what=0, n=n, hi=h), reach=("end", "accepted", "refused")) for n, h in ((1, 11), (2, 10), (3, 8), (4, 8), (5, 5))] + [Job("cmdline", 2, params=dict(what=0, n=2, hi=11), tier="thorough", reach=("end", "accepted", "refused"))] +
     [Job("cmdline", 2, params=dict(what=1, n=n), reach=("end", "integer", "refused")) for n in (1, 2, 3)] + [Job("cmdline", 2, params=dict(what=2), reach=("misuse",))] + [Job("cmdline", 3, ranks=2, params=dict(what=0, n=2, hi=8), reach=("end",))] +
     [Job("cmdline", 2, params=dict(what=0, n=n, hi=h), reach=("end",), tier="thorough", t=800) for n, h in ((5, 8), (6, 5))],
     "longer command lines; the options of the library itself; numbers that do not fit")
def inp(what, n=3, set=0, ranks=1, quiet=None, reach=("end",), **k):
    return Job("input", 2, ranks=ranks, params=dict(what=what, n=n, set=set, quiet=(set == 1) if quiet is None else quiet), reach=reach, **k)
spec("C30", "files whose key is followed by any 3 characters (for integers any 2) or by 4 characters of the relevant kinds (digits, sign, point, exponent, comma, blank, newline, comment, parenthesis, letter, quote), then another line: integers, reals, strings, vectors, coordinate vectors, lists of numbers and strings; complex numbers with every kind of blank in every place; keys of one and two words; lists of alternatives; several files read with one variable; values given on the command line; 1 and 2 processes",
     [inp(w, 2, 1, reach=("end", "number", "error")) for w in (0, 1)] + [inp(2, 3, 1, reach=("end", "string", "error", "quotes")), inp(7, 3, 1, reach=("end", "list", "single", "error", "quotes")), inp(8, 3, 1, reach=("end", "key", "error"))] +
     [inp(0, 3, reach=("end", "number", "error")), inp(1, 4, 2, reach=("end", "number", "error")), inp(3, reach=("end", "complex")), inp(4, 5, 4, reach=("end", "vector", "error")), inp(4, 4, 3), inp(5, 4, 4, reach=("end", "vector", "error"))] +
     [inp(6, 5, 4, reach=("end", "list", "single", "error")), inp(7, 4, 5, reach=("end", "list", "single", "error")), inp(8, 4, 6, reach=("end", "key", "error")), inp(9, reach=("end", "item", "none")), inp(10, reach=("files",)), inp(11, reach=("end", "override", "unused"))] +
     [inp(w, 2, s, 2) for w, s in ((0, 2), (1, 2), (4, 4), (6, 4))] + [inp(2, 2, 6, 2), inp(7, 2, 6, 2), inp(8, 3, 6, 2), inp(9, ranks=2), inp(11, ranks=2), inp(10, ranks=2, reach=("files",))] +
     [inp(w, n, 1, tier="thorough", t=1200) for w, n in ((2, 4), (7, 4), (8, 4), (0, 3), (6, 3))] + [inp(w, n, s, tier="thorough", t=1200) for w, n, s in ((0, 4, 0), (1, 6, 2), (6, 6, 4), (7, 6, 5), (4, 7, 4), (8, 6, 6))],
     "longer values; characters that are not ASCII; reading from standard input; unpaired quotes with several processes")
def muca(what, N=3, ranks=1, reach=("end",), **k):
    eng, tier, t = k.pop("eng", ()), k.pop("tier", "quick"), k.pop("t", 200)
    return Job("muca", 2, ranks=ranks, params=dict(what=what, N=N, **k), reach=reach, eng=eng, tier=tier, t=t, native=what not in (2, 3, 8))
spec("C36", "arithmetic over the reals; tables of 2 to 5 bins with any rising bin points at least 1/16 apart and any weights; every order parameter up to 12; acceptance for every random number (the logarithm left uninterpreted); direct, single and smooth iterations of up to 6 arbitrary measurements with 2, 3 and 5 bins, and the first update of the canonical method with every distribution of 3 or 4 measurements; every table of 2 to 4 bins with weights 0, -1.5, 2.25 written and read back; 1 and 2 processes",
     [muca(w, n, r, reach=("end",) + x) for w, x in ((0, ("weight",)), (1, ("inside", "outside"))) for n in (2, 3, 5) for r in ((1, 2) if w == 0 and n < 5 else (1,))] +
     [muca(2, n, r, reach=("end", "accepted", "rejected")) for n, r in ((2, 1), (3, 1), (3, 2), (4, 1))] + [muca(3, 3), muca(3, 3, 2)] + [muca(4, n, r, reach=("end",)) for n, r in ((2, 1), (3, 2), (5, 1))] +
     [muca(5, 3, kind=k, steps=4, reach=("end", "finer") if k != 1 else ("end", "finer"), eng=("--fill", f)) for k in (0, 1, 2) for f in ("0", "205")] +
     [muca(5, 2, kind=k, steps=6, samples=2, ends=1, reach=("end", "finer", "done")) for k in (0, 1, 2)] + [muca(5, 5, 2, kind=k, steps=3, samples=3, every=3) for k in (0, 1, 2)] + [muca(5, 3, kind=0, steps=6, samples=3, ends=1, reach=("end", "finer"))] +
     [muca(6, n, r, samples=s, maxit=m, reach=("end", "update")) for n, r, s, m in ((3, 1, 3, 200), (3, 2, 4, 50), (2, 1, 4, 100))] + [muca(7, n, r, reach=("end", "file")) for n, r in ((2, 1), (4, 1), (3, 2))] + [muca(8, n, r, reach=("end", "continuous")) for n, r in ((2, 1), (3, 2))] +
     [muca(5, 5, kind=k, steps=6, samples=3, every=3, tier="thorough", t=900) for k in (0, 1, 2)] + [muca(0, 8, tier="thorough"), muca(2, 6, tier="thorough")],
     "rounding and the 7 digits to which tables are written; later updates of the canonical method; the printed histograms; plain target only (the code has no site loops)")


def gen(nd, target, L, ranks=1, a=0, b=19, **k):
    return Job("gen", nd, target, ranks=ranks, params=dict({"L%d" % i: l for i, l in enumerate(L)}, **{"from": a, "to": b}), reach=("end",), t=400, **k)
spec("C32", "20 groups of loop programs (about 60 loops: one line assignments, sequences of assignments, local variables and arrays, loops, switch, continue and conditional expressions inside, conditions on coordinates, on contents, on neighbours and independent of the site, constant, variable and loop-local directions, offsets, checkerboard updates in place, functions, templates and methods that return or change their arguments, user types, arrays of fields, tables looked up with site values, mixed types, reductions, parities from functions and arrays), every content of the fields; conditions on contents symbolic at up to 5 sites and with fixed contents elsewhere; every direction and parity; plain, OpenMP and AVX; 2D 4x4, 5x4, 4x6, 3D 4x4x4, 4x4x8 (thorough: 4D, 8x4x4); 1, 2 and 4 processes",
     [gen(2, "vanilla", (4, 4)), gen(2, "vanilla", (5, 4)), gen(2, "vanilla", (4, 6), 4), gen(3, "vanilla", (4, 4, 4)), gen(3, "vanilla", (4, 4, 8), 2)] +
     [gen(3, t, (4, 4, 4), 1, a, b) for t in ("avx", "openmp") for a, b in ((0, 6), (7, 19))] + [gen(3, t, (4, 4, 8), 2, a, b) for t in ("avx", "openmp") for a, b in ((0, 6), (7, 19))] +
     [gen(3, t, (8, 4, 8), r, tier="thorough") for t in ("vanilla", "avx", "openmp") for r in (1, 4)] + [gen(4, t, (4, 4, 4, 4), 1, tier="thorough") for t in ("vanilla", "avx", "openmp")],
     "programs other than those; loops that read a neighbour of a field they change (an error of the user); GPU code; in vectorized loops hilapp decides by an incomplete analysis (as its source says) whether a function can be vectorized: functions with conditions are marked novector here as the C++ compiler refuses them otherwise")


def frc(nd=2, L=(3, 3), target="vanilla", ranks=1, defs=(), tier="quick", t=300, **k):
    return Job("force", nd, target, ranks=ranks, params=dict({"L%d" % i: l for i, l in enumerate(L)}, **k), reach=("end",), defs=defs, tier=tier, t=t)
def stp(nd, L, target="vanilla", ranks=1, N=2, **k):
    return Job("staples", nd, target, ranks=ranks, params=dict({"L%d" % i: l for i, l in enumerate(L)}, **k), reach=("end",), defs=("N_=%d" % N,), t=300)
spec("C33", "arithmetic over the reals; SU(2) links with 1 to 4 symbolic links (Euler angles) near the link whose force is taken, the others fixed group elements (Wilson action: also arbitrary complex matrices for the derivative alone); Wilson, improved, clover and bulk-prevention (fixed links) actions, and forces of six closed Wilson paths; every site (or every 5th to 21st), direction and generator; K compared with -2 eps dS/dtheta by symbolic differentiation of the action the code computes; staples, plaquettes and Polyakov loops for SU(2) and SU(3) of all contents; 2D 2x2, 3x3, 4x4, 3D 3x3x3, 3x3x2, 4x4x4, 4x4x8; plain, OpenMP, AVX; 1, 2 and 4 processes",
     [frc(act=0, nsym=4), frc(L=(2, 2), act=0, any=1), frc(act=0, nsym=2, add=1), frc(act=1, nsym=1), frc(act=3, nsym=1), frc(L=(4, 4), ranks=2, act=1, nsym=2, stride=5), frc(L=(4, 4), ranks=4, act=3, nsym=0, stride=5), frc(act=2, nsym=0, stride=2)] +
     [frc(3, (3, 3, 2), act=2, nsym=0, stride=5)] + [frc(3, (3, 3, 3), act=a, nsym=1, stride=13) for a in (0, 1, 3)] + [frc(3, (4, 4, 4), "avx", act=1, nsym=1, stride=21), frc(3, (3, 3, 3), "openmp", act=1, nsym=1, stride=13)] +
     [frc(act=4, path=p) for p in (0, 1, 2, 3)] + [frc(3, (3, 3, 2), act=4, path=4, stride=7), frc(act=4, path=5), frc(act=4, path=5, add=1)] +
     [stp(2, (4, 4), what=0), stp(3, (3, 3, 3), what=0), stp(3, (4, 4, 8), "avx", 2, 3, what=0, only=17), stp(3, (4, 4, 4), "openmp", 2, what=0, only=5), stp(3, (4, 4, 4), what=1, ranks=2, only=5), stp(2, (4, 4), what=1, N=3, only=3), stp(3, (4, 4, 4), "avx", what=1, only=7), stp(3, (3, 3, 4), what=2, only=3), stp(3, (4, 4, 4), ranks=2, what=2, only=7), stp(3, (4, 4, 4), "avx", what=2, only=7)] +
     [frc(act=1, nsym=4, tier="thorough", t=900), frc(act=3, nsym=2, tier="thorough", t=900), frc(3, (3, 3, 3), act=0, nsym=2, stride=5, tier="thorough", t=900), frc(3, (4, 4, 4), "avx", act=3, nsym=1, stride=21, tier="thorough", t=900)],
     "larger groups; the logarithmic plaquette action (its matrix logarithm is an iteration); gradient flow, energy and topological charge; the code of hmc/gauge_field.h (includes a header that does not exist)")
spec("C34", "arithmetic over the reals; two field and two momentum components with any values, any step length, forces that are arbitrary (uninterpreted) functions of the fields; leapfrog and Omelyan levels alone, nested in both orders and with a sum of actions, 1 to 3 steps inside a level, trajectories of 1, 2, 3 and 8 steps",
     [Job("intg", 2, params=dict(steps=s, nmax=n), reach=("end",), t=300) for s, n in ((1, 3), (2, 2), (3, 2), (8, 2))] + [Job("intg", 2, params=dict(steps=20, nmax=2), reach=("end",), tier="thorough", t=900)],
     "rounding; more than two levels; fields on a lattice (the integrators do not depend on what a field is)")
