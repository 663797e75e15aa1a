import json
C='src/C-interface/'
def fam(name):
    return [f'{C}{name}.c']+[f'{C}{t}/{name}_{t}_typed.c' for t in ('dense','ellpack','ellblock','csr')]
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None,hook=None):
    import os
    files=[f for f in files if os.path.exists('/repo/'+f)] or files
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['observe_at']=obs or ['public C API return values','dense export of every live matrix after each call']
    d['anchors']['hook_needed']=hook
    P.append(d)
p('C01','Linear combination writes exactly alpha*A + beta*B into A and nothing else',
 'For every storage format and precision, adding two matrices replaces the first by alpha*A+beta*B exactly (up to rounding and the documented drop threshold), leaves the second unchanged, and the variant that also returns a norm, the one that adds a multiple of the identity, and the one that scales and then adds a multiple of the identity do the same for their formulas. Zero factors, disjoint or overlapping sparsity patterns, completely full rows and the same matrix passed twice are no exception.',
 ['inputs','configurations'],'all matrices, sparsity patterns, alpha, beta, thresholds, formats and precisions',
 'The tests add random full-pattern matrices once with one alpha/beta pair; they do not reach disjoint patterns, zero factors, aliasing, exactly-full rows or explicit zeros, nor compare formats.',
 fam('bml_add'),[('row accumulation with index marker arrays','bml_add_ellpack_typed.c / bml_add_csr_typed.c'),('block accumulation','bml_add_ellblock_typed.c'),('BLAS axpy','bml_add_dense_typed.c')])
p('C02','Matrix products equal the exact product in every format',
 'General multiply C<-alpha*A*B+beta*C, plain product, square, threshold-adjusting product and element-wise product yield exactly the mathematical result (up to rounding and the documented drop threshold) in every format that offers them, also when the operands are the same matrix or beta is zero or C holds old contents. The inputs are not modified, and the square also returns the traces of the operand and of the square.',
 ['inputs','configurations'],'all operand values and patterns, alpha, beta, thresholds, formats, precisions, aliasing of A and B',
 'Tests multiply one random pair with fixed alpha/beta per format and compare within a loose tolerance; special-cased paths (A==B, beta=0, alpha=0, old contents of C, empty rows, uneven blocks) are not distinguished.',
 fam('bml_multiply')+[f'{C}bml_element_multiply.c'],[('dispatch A==B to squaring','bml_multiply_*_typed.c'),('row-wise accumulation with marker arrays','bml_multiply_ellpack_typed.c'),('hash-table accumulation','bml_multiply_csr_typed.c'),('block kernels','bml_multiply_ellblock_typed.c'),('gemm','bml_multiply_dense_typed.c')])
p('C03','Copy, scale, transpose and clear give exact and independent results',
 'A copy, scaled copy or (new) transpose has exactly the value s*A or A^T of its source and shares no storage with it: later changes or deallocation of either never affect the other. The in-place and copy-into variants give the same values, completely replace what the destination held before, and leave the source untouched; clearing makes every element zero.',
 ['inputs','histories','configurations'],'all matrices, scale factors (also complex), formats, precisions and later histories of the two matrices',
 'Tests check one copy/scale/transpose of one random matrix; they do not check old destination contents, later mutation of source or copy, rectangular fill patterns, or complex factors.',
 fam('bml_copy')+fam('bml_scale')+fam('bml_transpose')+[f'{C}bml_allocate.c'],[('deep copies of value/index/row arrays','bml_copy_*_typed.c'),('pairwise row locking in in-place transpose','bml_transpose_ellpack_typed.c'),('scale with typed factor','bml_scale_*_typed.c')])
p('C04','Thresholding removes exactly the elements of magnitude at most the threshold',
 'Applying a threshold t to a matrix removes every element with |a|<=t and keeps every element with |a|>t bit for bit, both in place and into a new matrix; the rule is element-wise in every format. When a sparse sum, product or import is given a threshold, results whose magnitude exceeds it are kept exactly and only results at or below it (never diagonal elements of a product) may be dropped.',
 ['inputs','configurations'],'all matrices, thresholds including values equal to element magnitudes, negative and complex elements, formats, precisions',
 'Tests threshold one random matrix at one value; equality with the threshold, sign, complex magnitude and thresholds inside sums, products and imports are not exercised.',
 fam('bml_threshold')+fam('bml_add')+fam('bml_multiply')+fam('bml_import'),[('strict comparison with threshold','is_above_threshold in src/typed.h'),('compaction of kept elements','bml_threshold_*_typed.c')])
p('C05','Import, export and format conversion lose nothing',
 'Importing a dense array and exporting it again in the same order gives back every element exactly, in row-major and in column-major order (the two exports are transposes of each other), and converting a matrix to another format preserves every element exactly. The import threshold drops only elements not above it, and neither the array nor the source matrix is modified.',
 ['inputs','configurations'],'all arrays, orders, formats, precisions, row capacities that fit the pattern',
 'Tests round-trip one random matrix; asymmetric patterns, empty rows, rows filled exactly to capacity and all source/target format pairs are not covered.',
 fam('bml_import')+fam('bml_export')+fam('bml_convert'),[('row/column major index macros','src/macros.h'),('row packing','bml_import_ellpack_typed.c, bml_import_csr_typed.c'),('block packing','bml_import_ellblock_typed.c')])
p('C06','Element, row and diagonal access describe one and the same matrix',
 'After any history of updates, reading single elements, whole rows, the diagonal and the dense export all agree for every position. Setting an element, a row or the diagonal changes exactly the addressed positions (sub-threshold entries of a set row or diagonal become zero or stay out), and a value that was set is the value read back, whether or not the position was stored before.',
 ['histories','inputs','configurations'],'all sequences of setters and other updates, positions, values including zero, formats and precisions',
 'Tests set every element once on an empty matrix and read it back; overwriting stored entries, mixed setters, diagonal updates over existing patterns and cross-view agreement after histories are not covered.',
 fam('bml_setters')+fam('bml_getters')+[f'{C}bml_elemental.c'],[('search-then-append in sparse rows','bml_setters_ellpack_typed.c, bml_setters_csr_typed.c'),('block lookup','bml_setters_ellblock_typed.c')])
p('C07','Scalar reductions equal their defining sums',
 'Trace, trace of a product, sum of squares, sum of squares of alpha*A+beta*B, scaled element-wise inner product, core-submatrix sum of squares, Frobenius norm and norm of a difference, stored sparsity and bandwidth each equal the value of their formula on the matrix contents. They do not modify their arguments and give the same number in every format.',
 ['inputs','configurations'],'all matrices, patterns, coefficients, formats and precisions',
 'Tests check symmetric random matrices (which hide transposition errors) and compare two library functions with each other rather than with the definition.',
 fam('bml_trace')+fam('bml_norm')+[f'{C}bml_introspection.c']+[f'{C}{t}/bml_introspection_{t}_typed.c' for t in('dense','ellpack','ellblock','csr')],[('OpenMP reductions over rows','bml_norm_*_typed.c, bml_trace_*_typed.c'),('sparse row merge','bml_norm_ellpack_typed.c')])
p('C08','Gershgorin bounds and normalisation match their formulas',
 'The Gershgorin bounds returned for a matrix (or for its leading rows) are exactly the minimum of diagonal minus off-diagonal absolute row sum and the maximum of diagonal plus that sum, for positive, negative and mixed spectra alike. Normalising with bounds [a,b] replaces A by (b*I-A)/(b-a) exactly, in every format.',
 ['inputs','configurations'],'all matrices (any sign pattern, empty rows, missing diagonal entries), bounds, formats, precisions',
 'Tests use one matrix with positive spectrum; negative-definite matrices, rows without stored diagonal and asymmetric rows are not reached.',
 fam('bml_normalize'),[('row-wise radius accumulation and min/max reduction','bml_normalize_*_typed.c')])
p('C09','Diagonalisation returns a true orthonormal eigendecomposition',
 'For every symmetric (Hermitian) matrix, diagonalisation returns the eigenvalues in ascending order and eigenvectors, as columns, that are orthonormal and satisfy A*v=lambda*v, and leaves A unchanged. All storage formats return the same spectrum.',
 ['inputs','configurations'],'all symmetric/Hermitian matrices including diagonal, degenerate and indefinite ones, formats, precisions',
 'Tests diagonalise one random symmetric real-valued matrix and accept loose residuals; complex Hermitian input with non-zero imaginary part, degenerate spectra and the ordering are not covered.',
 fam('bml_diagonalize'),[('LAPACK driver and row/column-major transposition of eigenvectors','bml_diagonalize_dense_typed.c')])
p('C10','Inverse satisfies A*inv(A)=I and leaves A unchanged',
 'For every non-singular matrix the returned inverse X satisfies A*X=I and X*A=I up to rounding in every format, including non-symmetric matrices and matrices that need row pivoting, and the input matrix is not modified.',
 ['inputs','configurations'],'all non-singular matrices, formats, precisions','Tests invert one diagonally weighted random matrix; permutation-like matrices requiring pivoting and complex entries are not covered.',
 fam('bml_inverse'),[('LU factorisation and inversion via LAPACK on a copy','bml_inverse_dense_typed.c')])
p('C11','Submatrix extraction and assignment move exactly the addressed elements',
 'Extracting a block or an indexed core+halo submatrix yields exactly the addressed elements in the order of the index list, and assigning a block replaces exactly the addressed block; scattering a core+halo submatrix back replaces exactly the rows of the core nodes (with the elements of the submatrix above the threshold) and leaves every other row as it was. The computed core+halo index list holds every core node first and every neighbour of a core node (in the matrix, or also in the given graph) exactly once.',
 ['inputs','configurations'],'all matrices, node lists, offsets, sizes, jump flags, formats and precisions',
 'Tests extract with one node list from a banded matrix and compare one norm; overlapping patterns, unsorted node lists, offsets and write-back are not examined element by element.',
 [f'{C}bml_submatrix.c']+[f'{C}{t}/bml_submatrix_{t}_typed.c' for t in('dense','ellpack','ellblock','csr')],[('index gather/scatter via marker arrays','bml_submatrix_ellpack_typed.c')])
p('C12','Adjacency and group graphs list exactly the off-diagonal pattern',
 'The adjacency arrays built from a matrix describe, row by row, exactly its stored off-diagonal positions (or, for a list of nodes, the positions among the listed nodes), with consistent offsets and the requested 0- or 1-based numbering, without reading or writing outside the arrays. Group matrices connect each group with itself and with another exactly when some element between their nodes exceeds the threshold.',
 ['inputs','configurations'],'all sparsity patterns, group partitions, base flags, thresholds',
 'The adjacency test uses one fixed banded matrix and prints the arrays; patterns with missing diagonals, empty rows and groups are not covered.',
 [f'{C}bml_submatrix.c',f'{C}ellpack/bml_submatrix_ellpack_typed.c'],[('prefix sums of row counts','bml_adjacency_ellpack')])
p('C13','Permutation and triangle operations act element-exactly',
 'Reordering a matrix by a permutation moves element (i,j) to (p(i),p(j)) for every i and j, in every format that offers it; mirroring a triangle copies (or conjugates) exactly that triangle onto the other and leaves the source triangle and the diagonal as they were.',
 ['inputs','configurations'],'all matrices, permutations, triangles, formats, precisions',
 'Reordering is not tested at all; the adjungate-triangle test body is a copy of the adjacency test and never checks a value.',
 fam('bml_copy')+[f'{C}bml_adjungate_triangle.c',f'{C}bml_transpose_triangle.c',f'{C}dense/bml_adjungate_triangle_dense_typed.c',f'{C}ellpack/bml_adjungate_triangle_ellpack_typed.c'],[('row/column relabelling','bml_reorder_*'),('mirroring loops','bml_adjungate_triangle_*_typed.c')])
p('C14','Writing a matrix to a file and reading it back reproduces it',
 'A matrix written to a Matrix Market file and read into a matrix of the same dimensions has the same elements, for every format, precision and pattern (negative and large values, empty rows, full rows), and the file itself is a well-formed coordinate file whose header counts match its entries. Printing any block of a matrix shows exactly its elements, row by row. Neither modifies the matrix.',
 ['inputs','configurations'],'all matrices, formats, precisions, write/read format pairs','The io test writes one random matrix with values in [0,1) and reads it with the same format and precision.',
 [f'{C}bml_utilities.c']+[f'{C}{t}/bml_utilities_{t}_typed.c' for t in('dense','ellpack','ellblock','csr')],[('MatrixMarket writer/reader loops','bml_utilities_*_typed.c')])
p('C15','Results do not depend on the number or scheduling of threads',
 'For any number of OpenMP threads and any interleaving of them, every operation produces the same matrix values and the same returned scalars as with a single thread (up to rounding of sums), and no operation loses, duplicates or corrupts an entry.',
 ['schedules','inputs','configurations'],'all thread counts and interleavings, all operations with parallel loops, formats, precisions',
 'The test suite runs every test with a fixed two threads and small matrices, so a missing private clause, a shared accumulator or an unlocked update rarely shows.',
 [f'{C}{t}/bml_{n}_{t}_typed.c' for n in('add','multiply','norm','transpose','normalize','threshold','trace') for t in('dense','ellpack','csr')],[('OpenMP data-sharing clauses and reductions','#pragma omp parallel for in *_typed.c'),('pairwise omp locks','bml_transpose_ellpack_typed.c')])
p('C16','Every matrix is released completely and independently',
 'After deallocating every matrix a program created (and freeing returned arrays) no memory allocated by the library remains in use, whatever operations ran in between; deallocating one matrix never frees or invalidates memory of another, and no call reads or writes outside the storage it owns or uses released or uninitialised memory.',
 ['histories','configurations'],'all sequences of constructors, operations and deallocations, formats, precisions','Tests deallocate at exit and are not run under a memory checker; growth, shrink and rewrite of rows followed by release is not observed.',
 [f'{C}bml_allocate.c']+[f'{C}{t}/bml_allocate_{t}.c' for t in('dense','ellpack','ellblock','csr')]+[f'{C}bml_allocate.c'],[('allocation wrappers','bml_allocate.c'),('per-format deallocators','bml_allocate_*.c')],hook=None)
p('C17','A row that does not fit is refused, never truncated or overrun',
 'When a result needs more entries in a row (or more blocks in a block row) than the matrix was created to hold, the operation stops with an error instead of dropping entries or writing beyond the row; when the result fits, including when it fills every row completely, the operation succeeds. Formats with growable rows accept any pattern.',
 ['inputs','histories','configurations'],'all patterns and capacities, every operation that creates entries, fixed-capacity and growable formats','The tests always allocate M=N or enough capacity and never reach a full or overfull row.',
 [f'{C}ellpack/bml_multiply_ellpack_typed.c',f'{C}ellpack/bml_add_ellpack_typed.c',f'{C}ellpack/bml_setters_ellpack_typed.c',f'{C}ellpack/bml_import_ellpack_typed.c',f'{C}ellblock/bml_multiply_ellblock_typed.c',f'{C}csr/bml_allocate_csr_typed.c',f'{C}csr/bml_setters_csr_typed.c'],[('capacity checks with fatal log','LOG_ERROR "Number of non-zeroes per row > M"'),('row growth','csr_* row helpers')])
p('C18','Invalid requests are refused with an error exit',
 'A call that cannot be carried out - reading an element or row outside the matrix, copying or tracing the product of matrices of different sizes or formats, an operation a format does not provide, an unknown format or precision, an absent matrix, inverting a singular matrix, a missing or malformed file or one of another size - stops the program with a failure status and an error message and never returns a fabricated result.',
 ['inputs','configurations'],'all invalid argument combinations the API checks for, in every format','No test exercises an error path except the backtrace test.',
 [f'{C}bml_logger.c',f'{C}bml_add.c',f'{C}bml_multiply.c',f'{C}bml_getters.c',f'{C}bml_copy.c',f'{C}bml_utilities.c'],[('LOG_ERROR terminates','bml_logger.c'),('argument checks in dispatchers','bml_*.c')])
p('C19','Constructors and introspection report what was asked for',
 'Every constructor returns a matrix whose reported type, precision, size, row capacity and distribution mode are the requested ones and whose contents are exactly all zero, the identity, the band of the requested width, or a random matrix within its stated pattern and range; querying an absent matrix reports an uninitialised type and precision, size -1 and capacity 0. (Formats with growable rows or full storage have no row capacity of their own.) Derived matrices (copies, transposes, scaled or thresholded copies) inherit these attributes.',
 ['inputs','configurations'],'all sizes from 1 up, capacities, formats, precisions, modes','Tests construct one size and check one element pattern; sizes below a block, bands at the matrix edge, and attributes of derived matrices are not covered.',
 [f'{C}bml_allocate.c',f'{C}bml_introspection.c']+[f'{C}{t}/bml_allocate_{t}_typed.c' for t in('dense','ellpack','ellblock','csr')],[('constructors','bml_allocate_*_typed.c'),('getters','bml_introspection_*.c')])
p('C20','Row decomposition over ranks is an exact partition',
 'For every matrix size and number of ranks with at least one row per rank, the default decomposition assigns every row to exactly one rank, in contiguous ascending non-empty ranges, with extents, element counts and displacements consistent with those ranges. Updating, copying, saving and restoring a decomposition preserves exactly the ranges given.',
 ['inputs','configurations','histories'],'all (size, rank count) pairs and update/save/restore histories','Tests run with one or four ranks and two sizes, where the remainder logic is barely exercised.',
 [f'{C}bml_allocate.c',f'{C}bml_copy.c',f'{C}ellpack/bml_allocate_ellpack_typed.c',f'{C}dense/bml_allocate_dense_typed.c'],[('extent computation','bml_default_domain'),('domain copies','bml_copy_domain, bml_save_domain, bml_restore_domain')])
p('C21','Matrices sent between ranks arrive complete and unaltered',
 'A matrix sent by one rank and received by another (blocking, non-blocking, into a new matrix, or broadcast from any root) equals the sender\'s matrix exactly, in every format and precision and for every pattern including empty and full rows, replacing whatever the receiver held; the sender\'s copy and all uninvolved matrices are unchanged.',
 ['inputs','schedules','configurations'],'all matrices, formats, precisions, roots, message timings','One test sends one random matrix between fixed ranks.',
 [f'{C}bml_parallel.c']+[f'{C}{t}/bml_parallel_{t}_typed.c' for t in('dense','ellpack','ellblock','csr')],[('packing and message matching','bml_parallel_*_typed.c')])
p('C22','Two-dimensionally distributed matrices behave like the assembled matrix',
 'Every operation on a matrix distributed over a square process grid has exactly the effect, and returns on every rank exactly the scalar, that the same operation has on the assembled global matrix: import/export, add, scale, identity updates, transpose, multiply, traces, norms, bounds, thresholds, row and diagonal access, and file I/O.',
 ['inputs','configurations','schedules'],'all matrices, grid sizes, local formats, precisions, message timings','The MPI tests run each operation once on a 2x2 grid with random symmetric or positive data and loose tolerances.',
 [f'{C}distributed2d/bml_{n}_distributed2d.c' for n in('add','multiply','transpose','trace','norm','scale','threshold','normalize','copy','convert','utilities')]+[f'{C}distributed2d/bml_{n}_distributed2d_typed.c' for n in('import','export','multiply','normalize','getters','setters')],[('Cannon rotation','bml_multiply_distributed2d_typed.c'),('block exchange','bml_transpose_distributed2d.c'),('reductions','bml_parallel.c')])
p('C23','Communication of collective operations cannot deadlock or mismatch',
 'The messages exchanged by distributed operations are matched the same way in every interleaving of the ranks, and every interleaving completes, whatever amount of buffering the message layer provides (including none). No message is left unreceived and no receive depends on arrival order.',
 ['schedules','configurations'],'all interleavings of the ranks and all buffering behaviours of the message layer, for every distributed operation','The MPI tests run under one scheduler with eager buffering, where missing receives and cyclic blocking sends stay invisible.',
 [f'{C}bml_parallel.c',f'{C}distributed2d/bml_multiply_distributed2d_typed.c',f'{C}distributed2d/bml_transpose_distributed2d.c',f'{C}distributed2d/bml_export_distributed2d_typed.c',f'{C}distributed2d/bml_import_distributed2d_typed.c',f'{C}distributed2d/bml_utilities_distributed2d.c'],[('non-blocking receive posted before blocking send','bml_multiply_distributed2d_typed.c, bml_transpose_distributed2d.c')],
 obs=['MPI profiling interface: sequence of message operations of each rank'])
p('C24','Row-distributed matrices agree on all ranks after the collective gather',
 'When matrices are distributed by rows, operations followed by the library\'s gather leave every rank with the same complete matrix, equal to the result of the sequential operation, and scalar results agree with the sequential value after the library\'s reduction, for every number of ranks and also when the size is not a multiple of it.',
 ['inputs','configurations','schedules'],'all matrices, rank counts, formats supporting row distribution, precisions','MPI tests check one size divisible by the rank count.',
 [f'{C}bml_parallel.c',f'{C}dense/bml_parallel_dense_typed.c',f'{C}ellpack/bml_parallel_ellpack_typed.c',f'{C}ellpack/bml_multiply_ellpack_typed.c',f'{C}dense/bml_multiply_dense_typed.c'],[('Allgatherv with domain counts and displacements','bml_allGatherVParallel'),('reductions','bml_sumRealReduce')])
p('C25','Any program gives the same values in every format and touches only its outputs',
 'For every sequence of API calls whose results fit, the value of every live matrix and every returned scalar after each call is the same in every storage format and precision (as far as exactly representable). A call changes only the matrices documented as its outputs: all other live matrices, however they were derived, keep their exact contents.',
 ['histories','programs','configurations'],'all finite programs over the shared operation set, formats, precisions','Each test runs one operation on fresh matrices; interactions between stale storage left by one operation and the next operation, and effects on bystander matrices, are never observed.',
 [f'{C}'],[('per-format implementations behind one dispatch interface','src/C-interface/bml_*.c')])
p('C26','The built-in matrix multiply kernel agrees with BLAS semantics',
 'The library\'s own general matrix multiply computes C<-alpha*op(A)*op(B)+beta*C for every combination of transposition flags, sizes and leading dimensions, including alpha or beta equal to zero or one, and touches nothing outside the addressed block of C.',
 ['inputs','configurations'],'all flags, sizes, leading dimensions, scalars, precisions','The test runs square matrices with one alpha/beta pair and no conjugation of complex values with leading dimension larger than the size.',
 ['src/internal-blas/bml_gemm.c'],[('reference loops per flag combination','src/internal-blas/bml_gemm.c')],obs=['return of the kernel, full C array including padding'])
p('C27','The Fortran interface has the same effect as the C interface',
 'Every Fortran entry point has the effect and result of its C counterpart on the same matrix, with Fortran index conventions (element (i,j) is one-based, arrays are column-major), for every format and precision.',
 ['inputs','configurations'],'all wrapped operations, formats, precisions, array shapes','Fortran tests exercise a subset of wrappers on symmetric or random matrices where transposition and off-by-one errors cancel.',
 ['src/Fortran-interface'],[('C binding wrappers and index shifting','src/Fortran-interface/*.F90')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['id']
    import os
    for f in x['anchors']['files']:
        if not os.path.exists('/repo/'+f): print(x['id'],f)
