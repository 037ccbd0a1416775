"""The properties: text, anchors, and how each is decided.  `python3 tools/gen.py` writes properties.jsonl and MANIFEST.json."""
CI = 'src/C-interface/'
P = []


def p(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=[f if f.startswith('src/') else CI + f for f in files], mech=mech, tech=tech, note=note, na=na,
                  state=state or []))


p('C01', 'Operations reach the implementation of the matrix\'s own storage format',
  'For every public operation and every storage format (dense, ELLPACK, CSR, ELLBLOCK, distributed2d), the operation is '
  'carried out by that format\'s implementation of that operation, with the caller\'s arguments in the caller\'s order, and its '
  'result is what the caller gets back. A format that does not support the operation ends in a fatal error, never in '
  'another format\'s code or a silently skipped operation.',
  ['inputs', 'configurations'], 'every public operation x every storage format x every distribution mode, all argument values',
  'Tests call each operation with some formats and with symmetric or repeated operands (A=B, alpha=beta), so a swapped argument '
  'or a missing format case survives; distributed2d is only exercised for a few operations.',
  ['bml_add.c', 'bml_multiply.c', 'bml_allocate.c', 'bml_getters.c', 'bml_setters.c', 'bml_submatrix.c', 'bml_domain.c'],
  [('switch on the matrix type in each public function', CI + 'bml_*.c')],
  'constant propagation of the format tag through every path of each dispatcher\'s syntax tree, against a reviewed dispatch table',
  'The tag\'s value is propagated through the syntax tree of every dispatcher for each format and mode; the called function, the position of '
  'every argument and the returned value are compared with spec/dispatch.json. Trusts that table and the clang front end.')

p('C02', 'Operations run in the element type the matrix was created with',
  'For every operation and every element type (single/double, real/complex), the code that touches a matrix\'s elements is the '
  'variant compiled for that matrix\'s own element type, called with the caller\'s arguments in order; no other variant '
  'ever interprets the stored values, and an unknown element type ends in a fatal error.',
  ['inputs', 'configurations'], 'every typed operation of every format x every element type, all argument values',
  'Each precision is tested with the same small real-valued data; a wrong variant for one precision of an untested operation, '
  'or one that only differs for imaginary parts or for values below single precision, is not seen.',
  ['ellpack/bml_add_ellpack.c', 'dense/bml_add_dense.c', 'csr/bml_add_csr.c', 'ellblock/bml_add_ellblock.c',
   'distributed2d/bml_allocate_distributed2d.c'],
  [('switch on the matrix precision in each format-level function', CI + '*/bml_*.c'),
   ('TYPED_FUNC name mangling', CI + '../macros.h')],
  'constant propagation of the element-type tag through every path of each format-level function, against a reviewed table',
  'All paths of all format-level functions, all four element types, in the shared-memory and MPI builds; compared with '
  'spec/precision.json. Calls between typed functions must stay within the element type.')

p('C03', 'Operations never modify the operands they only read',
  'An operation changes only the matrices, vectors and scalars it is documented to produce or update: copying, adding into '
  'another matrix, multiplying, norms, traces, element access, export, conversion, printing, writing and sending leave every '
  'input matrix (values, pattern, row counts and metadata) exactly as it was.',
  ['inputs'], 'every public operation, every operand it may only read, every content of that operand',
  'Tests compare results, not inputs afterwards, and use an operand once; an operation that scribbles on its input is only seen if '
  'the operand is reused with that element.',
  ['ellpack/bml_add_ellpack_typed.c', 'csr/bml_multiply_csr_typed.c', 'dense/bml_copy_dense_typed.c', 'ellblock/bml_norm_ellblock_typed.c'],
  [('the set of operands each operation writes', CI)],
  'interprocedural modification (side-effect) analysis against a reviewed table of writable operands',
  'Flow-insensitive points-to of parameters through local pointers and callees; over-approximates writes, so a write that is '
  'reachable in the source is reported. External BLAS/LAPACK/MPI effects come from a table.')

p('C04', 'Heap objects and handles are released exactly once',
  'On every path through the library, every heap object, open file, lock, MPI datatype and communicator it acquires is either '
  'handed to the caller or released exactly once, and is not used after its release. Deallocating a matrix releases everything the '
  'matrix owns, and replacing the contents of an existing matrix releases the contents it replaces.',
  ['inputs', 'histories'], 'every path of every function, every sequence of operations on matrices',
  'Tests never measure leaks or run paths twice on one matrix; error and early-exit paths, repeated use of an output matrix, '
  'non-blocking receives and mode-dependent branches are not reached.',
  ['bml_allocate.c', 'ellblock/bml_allocate_ellblock_typed.c', 'csr/bml_allocate_csr_typed.c',
   'distributed2d/bml_allocate_distributed2d.c'],
  [('bml_allocate_memory / bml_free_memory', CI + 'bml_allocate.c'),
   ('bml_deallocate of each format', CI + '*/bml_allocate_*.c')],
  'typestate (allocated / handed over / released) analysis over the control-flow graph with ownership summaries',
  'All functions of both builds, path-sensitive in repeated conditions; interprocedural through summaries of what callees release, keep or '
  'create. Assumes allocation helpers do not return NULL.')

p('C05', 'Distinct matrices never share storage',
  'Two matrices returned by the library never share mutable storage: after creating, copying, converting, transposing, '
  'extracting or combining matrices, modifying or deallocating one of them never changes or invalidates another.',
  ['inputs', 'histories'], 'every operation that takes or returns matrices, every later sequence of operations on them',
  'Tests deallocate all matrices at the end and seldom modify a source after copying from it.',
  ['ellpack/bml_copy_ellpack_typed.c', 'ellblock/bml_copy_ellblock_typed.c', 'csr/bml_copy_csr_typed.c', 'bml_domain.c',
   'distributed2d/bml_copy_distributed2d_typed.c'],
  [('deep copies in copy / convert / transpose', CI)],
  'ownership analysis: no owned pointer of one matrix is stored into another matrix without being moved out',
  'Every store of a pointer into a structure field or block slot in both builds.')

p('C06', 'Parallel loops are free of data races',
  'In every OpenMP parallel region, for every number of threads and every schedule, no two threads access the same memory location '
  'unordered when one of them writes: each iteration writes only its own rows, its private scratch, a lock-protected row or a declared '
  'reduction, so results do not depend on the thread count or schedule.',
  ['schedules', 'inputs'], 'every parallel region, every thread count, loop schedule and interleaving',
  'The tests run tiny matrices with one or a few threads and default schedule; a race corrupts a result only in rare interleavings.',
  ['ellpack/bml_multiply_ellpack_typed.c', 'ellpack/bml_transpose_ellpack_typed.c', 'dense/bml_add_dense_typed.c',
   'ellblock/bml_multiply_ellblock_typed.c', 'csr/bml_add_csr_typed.c'],
  [('OpenMP data-sharing clauses, reductions and per-row locks', CI + '*/*_typed.c')],
  'data-sharing and index-partition analysis of every OpenMP region',
  'Every parallel region of the OpenMP build; writes through callees via summaries. The partition argument is the affine form of the '
  'index in the parallel loop variable.')

p('C07', 'Sparse rows never grow past their allocated capacity',
  'No operation ever stores more entries in a row of an ELLPACK or ELLBLOCK matrix, or in a CSR row, than that row has room for: before an '
  'entry is appended the row count is known to be below the capacity, and the operation stops with an error (or drops the entry as '
  'documented) otherwise. No entry is written outside its own row.',
  ['inputs'], 'every operation that appends entries, every pattern, fill and capacity (M, MB, alloc size)',
  'Tests allocate M = N or enough capacity, so a missing or misplaced capacity check never triggers.',
  ['ellpack/bml_multiply_ellpack_typed.c', 'ellpack/bml_setters_ellpack_typed.c', 'ellblock/bml_setters_ellblock_typed.c',
   'csr/bml_setters_csr_typed.c'],
  [('capacity test before append', CI + '*/*_typed.c')],
  'zone (difference-bound) dataflow over row counts, positions and capacities: every stored position is below the capacity of its row',
  'All stores into row storage of the three sparse formats, both builds, no bound on sizes. Assumes positions handed in by callers are row positions (listed in evidence), CSR capacities only grow, and leaves the banded constructors\' positions undecided (listed).')

p('C09', 'The Fortran interface passes every argument to C faithfully',
  'Every Fortran wrapper calls the C function of the same operation with the arguments C expects: the same number, order, kind and '
  'passing convention (by value or by reference), with 1-based Fortran indices converted to 0-based C indices and back, matrix, element and mode '
  'names mapped to the C constants, optional arguments replaced by their documented defaults, results assigned to the argument or result the caller '
  'reads and freed when they are copies, a matrix argument that is redefined released first, and the constants of the two languages agree. An array '
  'section passed by the caller reaches C without gaps.',
  ['inputs', 'configurations'], 'every interface block and every wrapper procedure (all typed variants), all argument values and presence of optionals',
  'The compiler does not check a bind(C) interface against the C prototype; Fortran tests cover part of the API with symmetric data.',
  ['src/Fortran-interface/bml_c_interface_m.F90', 'src/Fortran-interface/bml_types_m.F90', 'src/Fortran-interface/bml_interface_m.F90',
   'src/Fortran-interface/bml_introspection_m.F90', 'src/Fortran-interface/bml_setters_typed_m.F90'],
  [('bind(C) interface blocks', 'src/Fortran-interface/bml_c_interface_m.F90'), ('wrapper procedures', 'src/Fortran-interface/*.F90')],
  'cross-language signature check of bind(C) interfaces against C prototypes, and effect summaries of every Fortran wrapper compared with reviewed ones',
  'All interface blocks and all public procedures of all typed variants, parsed from the Fortran source by engine/fortran.py (preprocessed with the '
  'complex and MPI options on); the C side comes from clang. The reviewed summaries (spec/effects/C09.json) are the oracle; '
  'formatted output in Fortran and the text of messages are not compared.')

p('C11', 'The element size used is that of the elements actually stored',
  'Whenever matrix elements, row indices or counts are allocated, copied, cleared, sorted, packed or sent as a message, the element size or message '
  'datatype used is that of the type actually stored in that buffer, for every element type, so n elements are always n elements\' worth of bytes. '
  'A position in such a buffer is always reached in steps of whole elements, and stored elements are never accessed as elements of another size.',
  ['inputs', 'configurations'], 'every byte-count, message datatype, pointer step and pointer conversion, every element type',
  'A size that is right for one element type is right in that test; over-allocation and small slack hide the others, and messages of a wrong '
  'datatype show only on several processes with a type other than double.',
  ['ellpack/bml_allocate_ellpack_typed.c', 'dense/bml_copy_dense_typed.c', 'dense/bml_add_dense_typed.c', 'dense/bml_parallel_dense_typed.c',
   'ellblock/bml_multiply_ellblock_typed.c'],
  [('sizeof(REAL_T) in allocation and copy calls, MPI_T in messages', CI + '*/*_typed.c')],
  'type-resolved size analysis of allocations, copies, messages, pointer steps and pointer conversions',
  'All allocation, copy, clear, sort and message calls, steps on untyped pointers and pointer conversions of all typed variants in both builds. The number of '
  'elements itself is not judged here (C07, C22-C31 do).')

p('C12', 'Results keep the precision and complexity of the matrix',
  'Work on double-precision matrices never passes a value through single precision, and no operation cuts an element to an integer, so results keep '
  'the precision of the operands. For complex matrices the imaginary part of an element is never dropped on its way into another element: only '
  'quantities that are real by definition (norms, bounds, traces, sums of squares, thresholds) are formed from real parts and moduli.',
  ['inputs', 'configurations'], 'every floating-point conversion in code compiled for each element type, and every value stored in a matrix, all values',
  'Tests use tolerances around 1e-6 and mostly real data, which single-precision intermediates and lost imaginary parts satisfy.',
  ['ellpack/bml_multiply_ellpack_typed.c', 'ellpack/bml_norm_ellpack_typed.c', 'ellpack/bml_normalize_ellpack_typed.c', 'dense/bml_scale_dense_typed.c'],
  [('REAL_T and the math function macros', 'src/typed.h')],
  'type-conversion analysis of every implicit and explicit floating conversion, and value-loss flow from complex operands into stored elements',
  'Every conversion of every function of both builds; the loss of an imaginary part is followed through local variables, scratch arrays and scalar helper '
  'functions into matrix storage, setters and returned arrays.')

p('C13', 'No operation uses a value that was never written',
  'Every local variable, thread-private copy, scratch array and buffer requested without clearing is written on every path before an operation reads '
  'it, passes it on or hands it to the caller; matrix storage is requested cleared except by the constructors documented to leave it unset, and '
  'a dense matrix made by such a constructor is filled completely before an operation returns it. Results therefore depend on the arguments only.',
  ['inputs', 'histories', 'schedules'], 'every path of every function, every element type and build',
  'Fresh heap pages and stack slots read as zero in a small test process, and a stale value shows only after memory is reused.',
  ['bml_allocate.c', 'ellpack/bml_multiply_ellpack_typed.c', 'ellblock/bml_add_ellblock_typed.c', 'dense/bml_threshold_dense_typed.c'],
  [('zero-initialising allocation and explicit clearing', CI + 'bml_allocate.c')],
  'definite-assignment dataflow over locals, thread-private copies, scratch arrays and uncleared buffers',
  'All functions of both builds with helpers expanded. A buffer counts as filled by a loop over all its elements as the loop bound states them; a stale value of '
  'an earlier iteration is a value that was written (C22-C31 judge it). Contents behind pointers inside untyped storage are not followed.')

p('C14', 'Failures of the operating system and numerical libraries are not ignored',
  'When LAPACK, ScaLAPACK, a memory request or opening or parsing a file fails, the operation stops with an error; it never continues and '
  'returns a result computed from data the failed call did not produce.',
  ['fault_sequences', 'inputs'], 'every call that can fail, every failure it reports',
  'No test makes these calls fail.',
  ['dense/bml_inverse_dense_typed.c', 'dense/bml_diagonalize_dense_typed.c', 'bml_allocate.c', 'bml_utilities.c'],
  [('checks of info / NULL / return count', CI)],
  'must-check analysis: each status result is compared and the failing side does not reach the normal exit',
  'All calls of the listed interfaces in both builds.')

p('C15', 'The element and row accessors reject an index outside the matrix',
  'The element and row accessors (bml_get_element, bml_get_row, bml_set_element, bml_set_element_new, bml_set_row) of every format reject a row or '
  'column index that is negative or not below the dimension of the matrix with a fatal error, before the index addresses matrix storage or is stored in it.',
  ['inputs'], 'every public element/row getter and setter, every index value',
  'Tests only pass valid indices.',
  ['ellpack/bml_getters_ellpack_typed.c', 'ellblock/bml_getters_ellblock_typed.c', 'csr/bml_getters_csr_typed.c',
   'dense/bml_getters_dense_typed.c'],
  [('range test at accessor entry', CI + '*/bml_getters_*_typed.c')],
  'zone (difference-bound) dataflow: on every path each use of a caller index as a position or stored column lies within [0, dimension)',
  'All accessors of all formats and everything they hand the index to, both builds.')

p('C16', 'Every array access uses the row stride of the matrix it addresses',
  'When an operation combines matrices, the storage of each matrix is addressed with that matrix\'s own dimensions and row capacity, '
  'block sizes and row counts, so operations are correct for operands whose capacities differ.',
  ['inputs'], 'every access to matrix storage, all combinations of operand capacities',
  'Tests give all operands of a call the same capacity.',
  ['ellpack/bml_add_ellpack_typed.c', 'ellblock/bml_norm_ellblock_typed.c', 'ellpack/bml_norm_ellpack_typed.c'],
  [('ROWMAJOR index macros', 'src/C-interface/../macros.h')],
  'provenance analysis of index expressions (array and stride from the same matrix) and zone dataflow of positions below the row count of the same matrix',
  'Every indexed access to matrix storage in both builds; a position looked up in a table is not decided (counted in evidence).')

p('C18', 'Diagnostic messages are formatted from matching arguments',
  'Every formatted message (log, error, print and file output, and parsed input) passes exactly as many arguments as its format consumes, each of the '
  'type the conversion expects, so that reporting an error never itself reads invalid memory.',
  ['inputs', 'configurations'], 'every formatted output or input call, every path that reaches it',
  'Error and debug messages are not executed by the tests.',
  ['bml_logger.c', 'bml_introspection.c', 'bml_utilities.c'],
  [('LOG_ERROR/LOG_INFO/LOG_DEBUG macros', CI + 'bml_logger.h')],
  'type-resolved format-string analysis of every printf/scanf-like call, with the log functions treated as printf-like',
  'All formatted calls in both builds.')

p('C19', 'Results do not depend on hidden mutable state',
  'Apart from the documented process-wide settings (MPI rank/communicator state, log level, default block size and random seed), operations keep no '
  'mutable state between calls: the same arguments give the same result whatever was called before, and concurrent calls on '
  'different matrices do not interfere.',
  ['histories', 'schedules'], 'every sequence and interleaving of calls on distinct matrices',
  'Tests run one operation per process.',
  ['bml_parallel.c', 'bml_logger.c', 'ellblock/bml_allocate_ellblock.c', 'distributed2d/bml_allocate_distributed2d.c'],
  [('absence of writable statics', CI)],
  'effect analysis: every write to static-duration storage, by whom, against a reviewed table',
  'All static-storage variables and all writes to them in both builds.')

FX = ('comparison of canonical per-function effect summaries (global value numbering over the typed syntax tree, normalised over loop, branch and '
      'statement form) with reviewed summaries')


def e(id, title, statement, over, text, why, files, mech, scope):
    p(id, title, statement, over, text, why, files, mech, FX, scope + ' The reviewed summaries (spec/effects/%s.json) are the oracle; floating-point '
      'rounding is not modelled.' % id)


e('C20', 'Distributed matrices: right blocks, right processes, global results',
  'For a block-distributed (distributed2d) matrix every operation acts on the local blocks of all processes so that the distributed result is the '
  'result of the operation on the whole matrix: scalars (trace, norm, sparsity, bandwidth, Gershgorin bounds, sums of squares) combine the contributions of '
  'all processes with the right reduction and are the same on every rank, global positions map to the process and local position that own them, block '
  'exchanges (multiply, transpose) use the right partners, and diagonal-only updates happen on diagonal blocks only. The reduction primitives '
  '(bml_sumRealReduce, bml_minRealReduce, bml_maxRealReduce) apply the operator they are named after over the communicator of the library.',
  ['inputs', 'configurations'], 'every distributed2d operation, every process grid and content',
  'MPI tests check few operations on a 2x2 grid with symmetric or evenly spread data.',
  ['distributed2d/bml_norm_distributed2d.c', 'distributed2d/bml_multiply_distributed2d_typed.c',
   'distributed2d/bml_normalize_distributed2d_typed.c', 'bml_parallel.c'],
  [('block exchange and reductions', CI + 'distributed2d/')], 'All functions of distributed2d/ and the reduction primitives, MPI build.')

p('C21', 'Every constructor returns a completely described matrix',
  'Every function that creates a matrix (zero, uninitialised, identity, random, banded, block, import, copy, transpose, threshold, scale, convert, extract, '
  'group, inverse, receive) sets its format, element type, dimension, row capacity, distribution mode, block counts and, in the formats that keep '
  'one, domain on every path, to what was requested or to those of the source matrix, and the metadata queries of each format report those fields.',
  ['inputs', 'configurations'], 'every function that builds a matrix, every format and element type',
  'Tests query few attributes of few constructors.',
  ['dense/bml_allocate_dense_typed.c', 'ellpack/bml_allocate_ellpack_typed.c', 'csr/bml_allocate_csr_typed.c',
   'ellblock/bml_allocate_ellblock_typed.c', 'distributed2d/bml_allocate_distributed2d.c'],
  [('field stores in bml_zero_matrix / bml_noinit / import', CI + '*/bml_allocate_*')],
  'definite-initialisation dataflow of every metadata field, with provenance of the stored value',
  'All constructors in both builds, all element types.')

e('C22', 'Dense products, diagonalisation and inversion use BLAS/LAPACK correctly',
  'For dense matrices bml_multiply computes C = alpha*A*B + beta*C in row-major order, bml_diagonalize returns all eigenvalues and, column by '
  'column, the eigenvectors of A, and bml_inverse the inverse: each call into BLAS, LAPACK or the built-in gemm uses the routine of the element type and '
  'passes the right operands, dimensions, leading dimensions, transposition flags, factors and workspace sizes, and results are copied back in the '
  'right order; sparse and block formats do the same through a dense copy.',
  ['inputs', 'configurations'], 'every dense product, eigenproblem and inverse, every size, element type and content',
  'Tests use small matrices and compare a few combinations of factors.',
  ['dense/bml_multiply_dense_typed.c', 'dense/bml_diagonalize_dense.c', 'dense/bml_inverse_dense_typed.c', 'bml_gemm.c'],
  [('C_BLAS and LAPACK calls', CI + 'dense/')], 'All functions of the gemm, diagonalize, inverse and dense multiply files, both builds.')

e('C23', 'Traces, norms, sums, sparsity, bandwidth and spectral bounds are right',
  'bml_trace sums the diagonal and bml_trace_mult gives the trace of A*B, bml_fnorm, bml_fnorm2 and the sum-of-squares functions sum squared moduli over all '
  'elements of the matrix (or of A - B, or of alpha*A + beta*B above the threshold), bml_sum_AB sums alpha*A(i,j)*B(i,j) over values above the threshold, '
  'bml_get_sparsity and bml_get_bandwidth count elements, and the Gershgorin functions return the extremes of diagonal minus and plus the '
  'off-diagonal row sum; each covers every row this rank owns exactly once, in every format and element type, and is reduced over ranks where it is global.',
  ['inputs', 'configurations'], 'every scalar-valued operation, every matrix, format and element type',
  'Tests use positive random data, one threshold and few formats per function.',
  ['dense/bml_norm_dense_typed.c', 'ellpack/bml_norm_ellpack_typed.c', 'csr/bml_trace_csr_typed.c',
   'ellblock/bml_normalize_ellblock_typed.c'],
  [('accumulation loops', CI + '*/bml_norm_*')],
  'All functions of the trace, norm, introspection and Gershgorin files, both builds; three known findings.')

e('C24', 'Sums, scaling, thresholding and normalisation compute what they document',
  'bml_add computes A = alpha*A + beta*B over the union of the stored elements, bml_add_norm also returns the squared norm of A - B, bml_add_identity '
  'and bml_scale_add_identity change the diagonal by beta (adding missing diagonal elements), bml_scale multiplies every element, bml_threshold '
  'keeps exactly the elements whose modulus exceeds the threshold (blocks for ellblock), bml_element_multiply_AB forms A(i,j)*B(i,j), and '
  'bml_normalize maps the spectrum to (maxeval*I - A)/(maxeval - mineval); sparse formats drop exactly the results not above the threshold and keep row '
  'counts and positions consistent.',
  ['inputs', 'configurations'], 'every element-wise operation, every pair of sparsity patterns, factor and threshold',
  'Tests use a few factors, random patterns and one threshold.',
  ['ellpack/bml_add_ellpack_typed.c', 'csr/bml_add_csr_typed.c', 'ellblock/bml_threshold_ellblock_typed.c',
   'dense/bml_normalize_dense_typed.c'],
  [('merge loops', CI + '*/bml_add_*')], 'All functions of the add, scale, threshold, element_multiply and normalize files, both builds.')

e('C25', 'Copy, conversion, import, export and getters reproduce the elements',
  'bml_copy and bml_copy_new give an equal, independent matrix, bml_convert one with the same elements in the other format, bml_import_from_dense '
  'stores the elements above the threshold of the array in the given (row- or column-major) order, bml_export_to_dense writes every element (zero '
  'where nothing is stored) in the given order, and bml_get_element, bml_get_row and bml_get_diagonal return the stored value or zero for the given '
  'position.',
  ['inputs', 'configurations'], 'every matrix, order, threshold, format and element type',
  'Tests round-trip random matrices in one order and look at few elements.',
  ['bml_convert.c', 'ellpack/bml_import_ellpack_typed.c', 'csr/bml_export_csr_typed.c', 'ellblock/bml_getters_ellblock_typed.c'],
  [('element loops', CI + '*/bml_export_*')],
  'All functions of the copy, convert, import, export and getters files, both builds; conversion to another precision is a known finding.')

e('C26', 'Products of sparse matrices contain every contribution',
  'For ellpack, ellblock and csr matrices bml_multiply computes C = alpha*A*B + beta*C, bml_multiply_AB A*B, bml_multiply_x2 X*X with the traces '
  'of X and X*X, and bml_multiply_adjust_AB A*B with an adjusted threshold: every pair of stored A(i,k), B(k,j) contributes once to C(i,j), results '
  'are stored with their column and counted exactly when above the threshold (the diagonal may be kept always), and scratch markers are reset '
  'for the next row.',
  ['inputs', 'configurations'], 'every pair of sparse operands, factors and thresholds, every block partition',
  'Tests multiply random matrices of three sizes.',
  ['ellpack/bml_multiply_ellpack_typed.c', 'ellblock/bml_multiply_ellblock_typed.c', 'csr/bml_multiply_csr_typed.c'],
  [('row-by-row accumulation', CI + '*/bml_multiply_*')], 'All functions of the sparse multiply files and bml_multiply.c, both builds.')

e('C27', 'Transposes, sub-matrices, groupings and orderings move elements rightly',
  'bml_transpose moves element (i,j) to (j,i), the triangle functions copy the chosen triangle onto the other (conjugated for the adjungate), '
  'bml_matrix2submatrix and bml_submatrix2matrix exchange exactly the elements selected by the index lists (core rows only on the way back), the '
  'index-list functions return the core and halo rows of the graph of the matrix, bml_group_matrix and bml_adjacency* return the group and element '
  'adjacency, bml_assign_submatrix puts the blocks at the given offset, and bml_reorder moves row and column i to perm[i].',
  ['inputs', 'configurations'], 'every matrix, index list, group and permutation',
  'Tests use symmetric matrices or one index list; several of these functions are not tested.',
  ['ellpack/bml_submatrix_ellpack_typed.c', 'ellpack/bml_transpose_ellpack_typed.c', 'csr/bml_transpose_csr_typed.c',
   'bml_adjungate_triangle.c'],
  [('index-mapped copies', CI + '*/bml_submatrix_*')],
  'All functions of the transpose, triangle, submatrix files and bml_reorder*, both builds.')

e('C28', 'Constructors produce the matrix they are named after',
  'bml_zero_matrix, bml_identity_matrix, bml_random_matrix, bml_banded_matrix, bml_block_matrix and bml_noinit_matrix return matrices whose stored '
  'pattern and values are those of the named matrix for every size, width and format (row counts, positions and block tables included), bml_clear '
  'empties a matrix completely, and the default and updated domains describe, for each rank, the row range, extent and displacement it owns.',
  ['inputs', 'configurations'], 'every constructor, size, capacity, block partition and number of ranks',
  'Tests build few sizes and look at few elements.',
  ['bml_allocate.c', 'ellpack/bml_allocate_ellpack_typed.c', 'csr/bml_allocate_csr_typed.c', 'ellblock/bml_allocate_ellblock_typed.c'],
  [('fill loops', CI + '*/bml_allocate_*')], 'All functions of the allocate files, both builds.')

e('C29', 'Setting elements, rows and diagonals changes exactly what was named',
  'bml_set_element and bml_set_element_new store the value at the given position (bml_set_element replacing a stored one), bml_set_row stores the values '
  'of the row above the threshold, bml_set_diagonal the whole diagonal, ellblock block setters the block, and the CSR row and hash-table primitives keep '
  'positions, values and counts consistent; no other element changes.',
  ['inputs', 'histories'], 'every sequence of setter calls, all positions and values',
  'Tests set each element once on an empty matrix.',
  ['ellpack/bml_setters_ellpack_typed.c', 'csr/bml_setters_csr_typed.c', 'ellblock/bml_setters_ellblock_typed.c',
   'csr/bml_allocate_csr_typed.c'],
  [('search-then-store loops', CI + '*/bml_setters_*')], 'All functions of the setters files and all csr_* primitives, both builds.')

e('C30', 'Files, printed output and logs show the matrix as it is',
  'bml_write_bml_matrix writes the header, dimensions, true number of entries and every stored entry with 1-based positions and enough digits to read '
  'it back, bml_read_bml_matrix sets exactly the entries listed (mirroring them for "symmetric") and rejects positions outside the matrix, the '
  'print functions print the requested rows and columns with the value of each position, and messages appear exactly at the log levels they are '
  'meant for, with fatal errors stopping the program.',
  ['inputs', 'configurations'], 'every matrix, file, print range and log level',
  'Tests read back one file with a loose tolerance and do not look at printed output.',
  ['bml_utilities.c', 'bml_logger.c', 'ellpack/bml_utilities_ellpack_typed.c', 'csr/bml_utilities_csr_typed.c'],
  [('read, write and print loops', CI + '*/bml_utilities_*')], 'All functions of the utilities, logger, init and shutdown files, both builds.')

e('C31', 'Matrices sent, received, broadcast or gathered arrive complete',
  'The point-to-point, broadcast and gather operations transmit, for each format, all arrays that make up the matrix with matching tags, counts, types '
  'and order on the sending and receiving side, unpack them into the storage they were packed from, complete every non-blocking request before its '
  'buffer is used, and the rank and communicator queries report the communicator given at initialisation.',
  ['inputs', 'schedules', 'configurations'], 'every matrix, format, element type and rank pair',
  'MPI tests send one random matrix between two ranks in few formats.',
  ['bml_parallel.c', 'ellpack/bml_parallel_ellpack_typed.c', 'csr/bml_parallel_csr_typed.c', 'ellblock/bml_parallel_ellblock_typed.c'],
  [('MPI_Send/Recv/Bcast calls', CI + '*/bml_parallel_*')], 'All functions of the parallel files, both builds.')

NA = [
 ('N01', 'Rounding errors stay within the error bounds of the algorithms',
  'For all operands, the computed C = alpha*A*B + beta*C, A = alpha*A + beta*B, norms, traces, inverses and element-wise products differ from the exact result by no more than the rounding error of the element type and the documented threshold allow.',
  ['inputs'], 'all matrices and scalars', 'Tests sample small well-scaled matrices with loose tolerances.',
  ['dense/bml_multiply_dense_typed.c', 'ellpack/bml_add_ellpack_typed.c'],
  'Quantifies over floating-point values produced by data-dependent sums; a bound needs the magnitudes of the operands, which no static argument in reach provides. That the right terms are '
  'summed, with the right factors and in the right element type, is claimed as C02 and C22-C27.'),
 ('N02', 'Diagonalisation and Gershgorin bounds enclose and reproduce the spectrum',
  'Eigenpairs returned by diagonalisation satisfy A v = lambda v, are sorted and orthonormal, and Gershgorin bounds contain the spectrum.',
  ['inputs'], 'all Hermitian matrices', 'Tests use one random symmetric matrix.',
  ['dense/bml_diagonalize_dense_typed.c'],
  'Numerical property of LAPACK output and floating-point sums, which the source of this repository does not determine. Call arguments and status handling are C22 and C14, the Gershgorin sums C23.'),
 ('N04', 'Domain decomposition covers every row exactly once for every size and rank count',
  'The per-rank row ranges of a distributed matrix partition the rows for every N and number of ranks.',
  ['inputs', 'configurations'], 'all N and rank counts', 'Tests use one rank or N divisible by ranks.',
  ['bml_domain.c'],
  'That the floor-divided ranges tile [0, N) for every N and number of ranks is an arithmetic theorem about integer division; it needs a solver or a proof. That each range is computed by the reviewed formulas is claimed in C28.'),
]
