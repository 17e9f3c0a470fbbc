#!/usr/bin/env python3
"""writes properties.jsonl"""
import json, os
P = []


def p(pid, title, statement, over, text, why, files, mech, observe=()):
    L = "libraries/"
    f = [x if x.startswith("hilapp") or x.startswith("app") else L + x for x in files]
    m = [{"name": a, "where": (b if b.startswith("hilapp") or b.startswith("app") else L + b)} for a, b in mech]
    d = {"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": f, "mechanism": m}}
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    P.append(d)


p("C01", "Every lattice site belongs to exactly one process, and set-up terminates",
  "For every lattice size and number of processes, setting up the lattice either ends in the documented refusal or divides the lattice so that every site is owned by exactly one process, and every process computes the same owner for every site. Set-up always terminates, and no process is left without sites.",
  ["inputs", "configurations"], "all lattice sizes, dimensions, process counts, layouts",
  "the tests use a couple of even sizes on one or two processes; division depends on the arithmetic relation of sizes and process counts",
  ["plumbing/setup_layout_generic.cpp", "plumbing/setup_layout_vector.cpp", "plumbing/lattice.cpp", "plumbing/map_node_layout.cpp"],
  [("division of the lattice into node blocks", "plumbing/setup_layout_generic.cpp"), ("node_rank / setup_nodes", "plumbing/lattice.cpp"), ("node remapping", "plumbing/map_node_layout.cpp")])
p("C02", "Site numbering is a bijection that agrees with coordinates and parity",
  "On every process the local site numbers 0..volume-1 correspond one to one to the coordinates that process owns; coordinate to number and number to coordinate are inverse to each other; even sites come before odd ones and parity loops visit exactly the sites of that parity once.",
  ["inputs", "configurations"], "all lattice sizes, process counts and data layouts (plain and vectorized)",
  "tests sample one layout; vectorized layouts are not built by the test suite at all",
  ["plumbing/lattice.cpp", "plumbing/lattice.h", "plumbing/backend_vector/lattice_vector.h"],
  [("site_index / coordinates", "plumbing/lattice.cpp"), ("vectorized_lattice_struct", "plumbing/backend_vector/lattice_vector.h"), ("loop_begin / loop_end", "plumbing/lattice.h")])
p("C03", "Reading a neighbouring site returns the value at the neighbouring coordinate",
  "In a site loop, reading a field one step away in any direction gives the value stored at the periodically wrapped neighbouring coordinate, for every element type, lattice size, distribution over processes and target architecture.",
  ["inputs", "configurations"], "all field contents, directions, lattice sizes, process grids, element types, targets",
  "tests check one size and a few types with one process",
  ["plumbing/lattice.cpp", "plumbing/field_comm.h", "plumbing/backend_cpu/field_storage_backend.h", "plumbing/backend_vector/field_storage_backend.h", "plumbing/backend_vector/lattice_vector.h"],
  [("neighbour tables and send lists", "plumbing/lattice.cpp"), ("start_gather / wait_gather", "plumbing/field_comm.h"), ("packing and unpacking", "plumbing/backend_vector/field_storage_backend.h")])
p("C04", "Antiperiodic boundaries change the sign exactly when the boundary is crossed",
  "With antiperiodic boundary conditions in any set of directions, a neighbour read that crosses such a boundary gives minus the value and every other read gives the value itself. Changing, copying or mixing the conditions of different fields takes effect from the next read on.",
  ["inputs", "configurations", "histories"], "all sets of directions, sizes, process grids, targets, orders of setting conditions and reading",
  "tests do not exercise antiperiodic conditions on several processes or vectorized targets",
  ["plumbing/field.h", "plumbing/field_comm.h", "plumbing/lattice.cpp", "plumbing/backend_cpu/field_storage_backend.h", "plumbing/backend_vector/field_storage_backend.h"],
  [("set_boundary_condition", "plumbing/field.h"), ("special boundary tables", "plumbing/lattice.cpp"), ("set_local_boundary_elements / gather_elements_negated", "plumbing/backend_vector/field_storage_backend.h")])
p("C05", "Site loops never see out-of-date neighbour values",
  "After any sequence of assignments, single-element writes, copies, moves, swaps, explicit halo fetches and reads by parity, every neighbour or offset read returns the values most recently written. The bookkeeping that avoids repeated communication never changes a result.",
  ["histories", "inputs", "configurations"], "all histories of field operations of bounded length, all directions and parities, several process grids and targets",
  "the number of histories is exponential and the tests follow a handful of straight lines on one process, where nothing is communicated",
  ["plumbing/field.h", "plumbing/field_comm.h", "hilapp/src/codegen.cpp"],
  [("mark_changed / gather status", "plumbing/field.h"), ("start_gather / wait_gather / drop_comms", "plumbing/field_comm.h"), ("generated start_gather and mark_changed calls", "hilapp/src/codegen.cpp")])
p("C06", "Message passing is disciplined: no deadlock, mismatch or buffer reuse",
  "Every message sent is received with the same size, all processes call collective operations in the same order, no buffer is touched while a transfer on it is pending, and no combination of operations makes the processes wait for each other for ever.",
  ["schedules", "histories", "configurations"], "all process grids, all histories of bounded length mixing fetches, reductions, element access and I/O, with unbuffered sends",
  "a missing wait or a mismatch usually goes unnoticed with buffered small messages on one machine",
  ["plumbing/field_comm.h", "plumbing/com_mpi.cpp", "plumbing/com_mpi.h", "plumbing/lattice.cpp", "plumbing/reduction.h"],
  [("gather start/wait pairs", "plumbing/field_comm.h"), ("broadcast / reduce / send_to", "plumbing/com_mpi.h"), ("delayed and non-blocking reductions", "plumbing/reduction.h")])
p("C07", "Reading at an arbitrary offset returns the value at the wrapped coordinate",
  "Reading a field at a site displaced by any coordinate vector, and shifting a field by any vector, give the values at the displaced, boundary-condition-respecting coordinates for all requested sites and leave the other sites and the source unchanged.",
  ["inputs", "configurations"], "all offsets up to a bound, parities, boundary conditions, lattice sizes and process grids",
  "tests use a few short offsets",
  ["plumbing/field_comm.h", "plumbing/field.h", "hilapp/src/codegen.cpp"],
  [("shift / do_buffered_shift", "plumbing/field_comm.h"), ("handle_field_plus_offsets", "hilapp/src/codegen.cpp")])
p("C08", "Reductions give the sum or product over exactly the sites of the loop",
  "A sum or product reduction over a site loop equals, on every process, its previous value combined with the contribution of each site of the loop exactly once, independent of the number of processes and target. This holds for all parities, for reductions that are delayed or overlapped with other work, and for repeated use of the same variable.",
  ["inputs", "configurations", "histories"], "all field contents, initial values, parities, process counts, settings of delay and non-blocking operation",
  "tests compare a few values on one process",
  ["plumbing/reduction.h", "plumbing/com_mpi.h", "plumbing/com_mpi.cpp", "hilapp/src/codegen_cpu.cpp", "hilapp/src/codegen_avx_new.cpp"],
  [("Reduction", "plumbing/reduction.h"), ("generated accumulation", "hilapp/src/codegen.cpp"), ("reduce_node_sum", "plumbing/com_mpi.h")])
p("C09", "Vector reductions put every contribution into the right element",
  "A reduction into an array indexed by a site-dependent value adds (or multiplies) each site's contribution into exactly the element it names, on every process alike, for direct, delayed and repeated use, leaving other elements at their previous value.",
  ["inputs", "configurations", "histories"], "all index functions with values in range, all contents, process counts",
  "tests use one fixed index pattern",
  ["plumbing/reductionvector.h", "plumbing/com_mpi.h", "hilapp/src/codegen.cpp"],
  [("ReductionVector", "plumbing/reductionvector.h"), ("generated accumulation", "hilapp/src/codegen.cpp")])
p("C10", "Minimum and maximum return the true extremum and a site that attains it",
  "The minimum and maximum of a field over any parity are the extreme values over exactly those sites, the returned coordinate is a site of that parity with that value, and all processes agree - for all contents, including all-negative and all-positive ones.",
  ["inputs", "configurations"], "all field contents of every numeric type, parities, process counts",
  "tests use a couple of value patterns",
  ["plumbing/reduction.h", "plumbing/field.h"],
  [("minmax", "plumbing/reduction.h")])
p("C11", "Element, slice and local-data access agree with the field everywhere",
  "Reading or writing single elements, lists of elements, sub-volumes, slices and local data copies touches exactly the coordinates named, returns the same values on every process that should get them, and leaves all other sites unchanged.",
  ["inputs", "configurations"], "all coordinates, boxes and lists within a bound, process grids",
  "tests access a few elements on one process",
  ["plumbing/field.h", "plumbing/field_comm.h", "plumbing/com_mpi.h", "plumbing/lattice.cpp"],
  [("set_element(s) / get_element(s)", "plumbing/field.h"), ("gather_elements / scatter_elements, subvolumes, slices, local data", "plumbing/field_comm.h")])
p("C12", "Writing a field to a file and reading it back restores every site",
  "A field written to a stream or file and read back, with any number of processes on either side, has the same value at every coordinate, and the file holds the sites in coordinate order independent of the process grid. Sub-volume and slice output contains exactly the named sites in order.",
  ["inputs", "configurations"], "all contents, lattice sizes, writer and reader process grids",
  "tests write and read with one process and one size",
  ["plumbing/field_io.h", "plumbing/field_comm.h"],
  [("write / read and the collecting loops", "plumbing/field_io.h"), ("gather_elements / scatter_elements", "plumbing/field_comm.h")])
p("C13", "Gauge configuration files round-trip and reject foreign headers",
  "A gauge configuration written to a file and read back has the same links at every site and direction for any process grid; a file whose header has another lattice size, dimension or matrix size is refused before any data is used.",
  ["inputs", "configurations", "fault_sequences"], "all link contents, process grids, header corruptions",
  "tests do one round trip",
  ["plumbing/gaugefield.h", "plumbing/field_io.h"],
  [("GaugeField::write / read / config_write / config_read", "plumbing/gaugefield.h")])
p("C14", "Site selection returns exactly the selected sites with their values",
  "Selecting sites in a loop yields, on the root process after gathering, each selected coordinate exactly once with the value given for it, for any subset of sites, any process count, with and without a maximum size.",
  ["inputs", "configurations", "histories"], "all subsets of sites, values, maximum sizes, process grids",
  "tests select one pattern",
  ["plumbing/site_select.h", "hilapp/src/codegen.cpp"],
  [("SiteSelect / SiteValueSelect", "plumbing/site_select.h")])
p("C15", "Blocking maps between fine and coarse lattices by coordinates",
  "Blocking a field to a coarser lattice keeps exactly the sites whose coordinates are multiples of the blocking factor, and unblocking puts each value back to those sites and leaves the others unchanged, for any process grid on which blocking is possible.",
  ["inputs", "configurations", "histories"], "all contents, blocking factors, lattice sizes, process grids, nested blocking",
  "tests block once on one process",
  ["plumbing/field.h", "plumbing/lattice.cpp"],
  [("block_from / unblock_to", "plumbing/field.h"), ("block_by_factor / lattice switching", "plumbing/lattice.cpp")])
p("C16", "Cluster search labels exactly the connected components",
  "The cluster finder gives two sites the same label if and only if they are connected by a path of accepted links among accepted sites, and reported sizes and areas match the labelling, for every configuration of sites and process grid.",
  ["inputs", "configurations"], "all configurations of accepted sites on small lattices, process grids",
  "tests use one geometric pattern",
  ["plumbing/clusters.h"],
  [("clusters::find / classify", "plumbing/clusters.h")])
p("C17", "The Fourier transform is the discrete Fourier transform, and inverts",
  "Transforming a field in any set of directions gives the discrete Fourier sum over those directions at every momentum, and forward followed by inverse gives the lattice volume times the original, independent of the process grid and element type.",
  ["inputs", "configurations"], "all contents, direction sets, lattice sizes, process grids",
  "tests transform a constant and a plane wave on one process",
  ["plumbing/fft.h", "plumbing/fft.cpp", "plumbing/fft_fftw_transform.h"],
  [("pencil redistribution", "plumbing/fft.cpp"), ("collect / save data", "plumbing/fft.h")])
p("C18", "Reflecting a field maps each coordinate to its mirror image",
  "Reflection in any set of directions gives at each coordinate the value at the coordinate negated modulo the lattice size in those directions, and applying it twice restores the field.",
  ["inputs", "configurations"], "all contents, direction sets, even and odd sizes, process grids",
  "tests reflect one field of even size on one process",
  ["plumbing/fft.h", "plumbing/fft_fftw_transform.h"],
  [("reflect", "plumbing/fft_fftw_transform.h")])
p("C19", "Real transforms agree with the complex transform",
  "The real-to-complex transform equals the complex transform of the same data in the packed half space, transforming back gives volume times the original, and the half-space bookkeeping assigns every independent mode to exactly one site.",
  ["inputs", "configurations"], "all contents, lattice sizes (even and odd), process grids",
  "tests check norms for one size",
  ["plumbing/fft.h", "plumbing/fft_fftw_transform.h"],
  [("FFT_real_to_complex / complex_to_real", "plumbing/fft.h"), ("FFT_complex_to_real_site / loc", "plumbing/fft.h")])
p("C20", "Momentum binning assigns every mode to the bin of its wave number",
  "Binning adds each mode's contribution to the bin given by its wave number and the current settings (number of bins, maximum, exponent), counts and mean wave numbers match the same assignment, and modes beyond the maximum are dropped.",
  ["inputs", "configurations", "histories"], "all contents, lattice sizes, settings and orders of changing settings",
  "tests bin one field with default settings",
  ["plumbing/spectraldensity.h"],
  [("k_binning / spectral density", "plumbing/spectraldensity.h")])
p("C21", "Complex arithmetic obeys the field axioms and its definitions",
  "Sum, product, quotient, conjugate, norms, phases and mixed operations with real numbers give the mathematical complex result for every operand, in all overloads and compound assignments.",
  ["inputs"], "all real and imaginary parts", "tests sample a few values", ["datatypes/cmplx.h"], [("Complex", "datatypes/cmplx.h")])
p("C22", "Matrix, vector and array operations equal their component definitions",
  "Products, sums, transposes, adjoints, traces, outer and inner products, dagger-products, column and row access and mixed real/complex operations of matrices, vectors, diagonal matrices and arrays equal their component-wise mathematical definition for every operand.",
  ["inputs"], "all entries, several sizes and element types", "tests sample a few matrices",
  ["datatypes/matrix.h", "datatypes/array.h", "datatypes/diagonal_matrix.h"], [("Matrix_t operators", "datatypes/matrix.h"), ("Array operators", "datatypes/array.h"), ("DiagonalMatrix", "datatypes/diagonal_matrix.h")])
p("C23", "Lie algebra and group representations are consistent",
  "Converting between algebra vectors and matrices is inverse in both directions with traceless anti-hermitean results, the generators are orthonormal, the quaternion form of 2x2 unitary matrices reproduces the matrix product, and adjoint representations act like the fundamental one.",
  ["inputs"], "all algebra components and matrix entries, N = 2..4", "tests sample random matrices",
  ["datatypes/sun_matrix.h", "datatypes/su2.h", "datatypes/u1.h", "datatypes/representations.h"], [("Algebra", "datatypes/sun_matrix.h"), ("SU2", "datatypes/su2.h")])
p("C24", "Determinants and inverses are exact for every invertible matrix",
  "The determinant equals the permutation-sum definition, including matrices that need pivoting, and the inverse and the linear solver give a matrix whose product with the original is the identity, for every invertible matrix.",
  ["inputs"], "all entries, sizes 1 to 5", "tests sample random matrices, which almost never need pivoting",
  ["datatypes/matrix.h", "datatypes/matrix_linalg.h"], [("det_lu / det_laplace / inverse / LU_solve", "datatypes/matrix_linalg.h")])
p("C25", "Projection to the unitary group returns a unitary matrix of unit determinant",
  "Reunitarizing any non-singular matrix gives a matrix with orthonormal rows and unit determinant and leaves matrices that already have this form unchanged; the anti-hermitean projection is linear, idempotent, traceless and anti-hermitean.",
  ["inputs"], "all entries, N = 2, 3", "tests sample random matrices",
  ["datatypes/sun_matrix.h", "datatypes/su2.h", "datatypes/matrix.h"], [("reunitarize / make_unitary / fix_det", "datatypes/sun_matrix.h")])
p("C26", "Extended precision sums are as accurate as promised",
  "Adding, subtracting, multiplying and comparing extended precision numbers keeps the leading and the correction terms so that error-free transformations are exact, comparisons agree with the represented values, and sums over processes lose nothing that the representation can hold.",
  ["inputs"], "all finite binary floating point operands in a bounded exponent range, IEEE semantics",
  "floating-point corner cases are rare in random samples",
  ["datatypes/extended.h", "datatypes/extended.cpp"], [("ExtendedPrecision", "datatypes/extended.h")])
p("C27", "Coordinate, direction and parity arithmetic is consistent",
  "Directions, opposite directions, coordinate vectors, parities and their sums, moduli, comparisons and conversions obey the lattice's group laws for every operand.",
  ["inputs"], "all directions, coordinates and moduli in the integer range", "tests sample a few",
  ["plumbing/coordinates.h", "datatypes/matrix.h"], [("Direction, Parity, CoordinateVector", "plumbing/coordinates.h")])
p("C28", "Random helpers stay in range and shuffles are permutations",
  "Uniform numbers lie in the documented interval, Gaussian pairs use both numbers correctly, shuffling is a permutation of its input whatever numbers the generator returns, and seeding makes processes differ as documented.",
  ["inputs", "configurations"], "all values the generator can return", "tests look at averages",
  ["plumbing/random.h", "plumbing/random.cpp", "plumbing/shuffle.h"], [("random / gaussrand", "plumbing/random.cpp"), ("shuffle", "plumbing/shuffle.h")])
p("C29", "The memory pool never hands out overlapping or lost memory",
  "Whatever the order and sizes of allocations and releases, live blocks are disjoint, aligned and at least as large as requested, released memory becomes available again, and the accounting matches.",
  ["histories"], "all histories of bounded length with symbolic sizes", "tests never use the pool: it serves accelerators",
  ["plumbing/memory_pool.cpp", "plumbing/memalloc.cpp"], [("gpu_memory_pool_alloc / free", "plumbing/memory_pool.cpp")])
p("C30", "Parameter files are parsed exactly as written or refused",
  "For every key and type, a value read from a parameter file is the value written there, a wrong key, a missing or malformed value is reported as an error, and all processes get the same result; comments, blanks and quoted strings follow the documented syntax.",
  ["inputs"], "all short lines over the syntactically relevant characters", "tests read one well-formed file",
  ["plumbing/input.h", "plumbing/input.cpp", "tools/string_format.h"], [("hila::input", "plumbing/input.cpp")])
p("C31", "Command line flags are interpreted as declared",
  "Every declared flag is recognised with exactly its declared number of arguments in any order and its values are returned unchanged; unknown flags and wrong argument counts are refused.",
  ["inputs"], "all short argument lists over declared and undeclared flags", "tests pass one command line",
  ["plumbing/cmdline.h", "plumbing/cmdline.cpp"], [("hila::cmdlinearguments", "plumbing/cmdline.cpp")])
p("C32", "Generated loops compute what the source says on every target",
  "For every supported site-loop construct - conditionals, neighbour reads, local variables, functions, reductions, parity loops, coordinate and random access - the code generated for the plain, vectorized and threaded targets gives the result of executing the loop body site by site as written.",
  ["programs", "inputs", "configurations"], "a suite of loop programs, all field contents, three targets",
  "the test-suite builds only the plain target",
  ["hilapp/src/codegen.cpp", "hilapp/src/codegen_cpu.cpp", "hilapp/src/codegen_avx_new.cpp", "hilapp/src/codegen_cpu.cpp", "hilapp/src/toplevelvisitor.cpp"],
  [("loop body rewriting", "hilapp/src/codegen.cpp"), ("vectorization", "hilapp/src/codegen_avx_new.cpp"), ("function transformation", "hilapp/src/loop_function.cpp")])
p("C33", "The gauge force is the derivative of the action",
  "The force of each gauge action equals the derivative of that action along every algebra direction at every link, for every link configuration, and plaquette and staple sums count every loop once.",
  ["inputs"], "all link matrices on a small lattice", "tests check no derivatives",
  ["plumbing/gaugefield.h", "hmc/gauge_field.h", "plumbing/plaquettefield.h"], [("staplesum, measure_plaq, gauge action force", "plumbing/gaugefield.h")])
p("C34", "Molecular dynamics integrators are time-reversible",
  "Integrating forward, flipping the momenta and integrating back restores fields and momenta, for every integrator, step count and action, up to rounding.",
  ["inputs"], "all initial fields and momenta, integrators, step counts up to a bound", "tests sample one trajectory",
  ["hmc/integrator.h", "hmc/hmc.h", "hmc/gauge_field.h"], [("leapfrog, O2, force-gradient", "hmc/integrator.h")])
p("C35", "Dirac operators have the declared adjoint",
  "For every gauge field and pair of spinors, the inner product of one with the operator applied to the other equals that of the adjoint operator applied to the first, and even-odd preconditioned forms agree with the full operator.",
  ["inputs"], "all spinor and link contents on a small lattice", "tests use random samples",
  ["dirac/wilson.h", "dirac/staggered.h", "dirac/Hasenbusch.h", "datatypes/wilson_vector.h"], [("Dirac_Wilson, dirac_staggered", "dirac/wilson.h")])
p("C36", "Multicanonical weights are continuous and interpolate the table",
  "The weight function equals the stored values at the bin points, is linear in between, constant outside, and acceptance uses the difference of weights; updating and saving weights preserves the table.",
  ["inputs", "histories"], "all order parameter values and weight tables of small size", "tests sample a few values",
  ["tools/multicanonical.h", "tools/multicanonical.cpp"], [("muca::weight / accept_reject", "tools/multicanonical.cpp")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
if __name__ == "__main__":
    R = os.environ.get("HV_REPO", "/repo")
    for d in P:
        for f in d["anchors"]["files"] + [m["where"] for m in d["anchors"]["mechanism"]]:
            if not os.path.exists(R + "/" + f):
                print(d["id"], "missing", f)
        if len(d["title"]) > 80:
            print("title too long", d["id"])
    open(out, "w").write("".join(json.dumps(d) + "\n" for d in P))
