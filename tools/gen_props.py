import json
P=[]
def p(id,title,st,over,q,why,files,state=None,mech=None,obs=None,hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,**({'state':[dict(name=a,meaning=a,where=b) for a,b in state]} if state else {}),
      mechanism=[dict(name=a,where=b) for a,b in (mech or [('the factorisation algorithm itself',', '.join(files))])],
      observe_at=obs or ['public API'],hook_needed=hook)))
M='src/matrix.rs';L='src/decomp/lu.rs';C='src/decomp/cholesky.rs';Q='src/decomp/qr.rs';S='src/decomp/svd.rs';E='src/decomp/eigen.rs';U='src/util.rs';I='src/internalutil.rs'
ALL=[M,L,C,Q,S,E,I]
p('C01','Results never depend on what memory held before',
 'Every value the library returns is a function of its operand values alone: it is bit-for-bit the same whatever bytes freshly allocated memory happens to contain, whatever blocks the allocator recycles, and whatever the library computed earlier in the process. No element that was never computed is ever used in a computation or appears in a result.',
 ['inputs','histories','fault_sequences'],'all operations and shapes x all contents and recycling orders of allocated memory x all earlier histories of the process',
 'Tests run each operation once in a mostly fresh heap whose pages happen to be zero; the buffers are allocated uninitialised, so a missed initialisation shows only under particular leftovers.',ALL+[U],
 state=[('scratch and result buffers created with arbitrary content',I+': alloc_dirty_vec and its ~60 call sites')],mech=[('every slot is assigned before it is read or returned',M+', '+S+', '+E)])
p('C02','Sharing matrices across threads gives the results of running alone',
 'Matrices and decompositions can be sent to and shared between threads, and any number of threads may operate on the same ones at once: under every interleaving each call returns exactly what it returns when run alone. A call that fails in one thread has no effect on calls in other threads, and no call waits forever.',
 ['schedules','fault_sequences','inputs'],'all interleavings of any number of callers at the granularity of element operations, callbacks, allocations and system calls, with any of them failing part-way',
 'No existing test starts a thread; interleavings inside an operation are never exercised.',ALL,
 mech=[('no shared or global mutable state; results in private buffers',M)],obs=['return values per thread','Send/Sync of the public types'])
p('C03','Operands taken by shared reference are never changed',
 'An operation never changes a matrix or decomposition it takes by shared reference: not while it is in progress (as callbacks and other threads can see), and not when it fails part-way. Repeating the call after such a failure gives exactly what an undisturbed call gives.',
 ['crash_points','schedules','inputs'],'every operation x every point at which user code (element arithmetic, callback) can panic or look at the operands',
 'Tests look at operands, if at all, only after successful calls; panics in the middle of an operation are never injected.',ALL,mech=[('pure operations write only to freshly allocated data',M)],obs=['operand contents at every yield point and after unwinding'])
p('C04','A failed in-place update leaves every element old or new',
 'If user-supplied code (element arithmetic or a callback) panics in the middle of an in-place operation, the target keeps a valid shape with exactly rows x columns elements, and each element holds either its previous value or the value the completed operation would have put there. The in-place matrix product, which can change the shape, then leaves its target entirely unchanged. The matrix stays fully usable afterwards.',
 ['crash_points','inputs'],'every in-place operation (negate, scale, add, subtract, element multiply/divide, map, product) x every panic point x all shapes',
 'Tests never make element arithmetic or callbacks fail, so no partially executed update is ever observed.',[M],state=[('row count and data vector, which together define the shape',M+': struct Matrix')],mech=[('product is computed into a new buffer and installed last',M+': mmul')])
p('C05','A failure in user code reaches the caller unchanged',
 'When user-supplied code called by the library (a callback, the CSV field parser, element arithmetic, element formatting, element random generation) panics at any moment, that very panic reaches the caller of the operation. The call never returns normally, never substitutes another failure, and never aborts the process.',
 ['crash_points','inputs'],'every operation that calls user code x every one of those calls failing',
 'should_panic tests cover only argument checks; failures of user code and unwinding through half-built results are never exercised.',ALL+[U],mech=[('unwinding through operations that hold uninitialised buffers of Copy elements',I)])
p('C06','Callbacks run exactly once per item and in order',
 'Mapping (pure and in-place) calls the user function exactly once per element, in row-major order, with the element\'s original value; the column fold feeds each column\'s elements from top to bottom exactly once into that column\'s accumulator; row and column filters ask the predicate exactly once per index, in increasing order, showing it the unmodified matrix; the CSV parser is given every field exactly once in reading order. Once a callback fails, no further callback is made.',
 ['histories','crash_points','inputs'],'all shapes x all stateful callbacks x failure at any callback x other callers running in between',
 'Tests use stateless closures on 2x2 and 3x3 matrices; call count, order and behaviour after a failing call are not observed.',[M,U],mech=[('index loops over data',M+': map, mmap, reduce, filter_rows, filter_columns')])
p('C07','User code may re-enter the library from inside an operation',
 'Code the library calls back into (callbacks, the CSV parser, element arithmetic) may itself call any operation, including the one in progress and on the same shared matrices, to any depth. Neither the outer nor the nested calls then give results different from un-nested calls, fail, or deadlock.',
 ['histories','schedules','inputs'],'every operation x every point where it calls user code x every nested operation',
 'No test calls the library from inside a callback or from element arithmetic.',ALL+[U],mech=[('no hidden per-thread or global working state',I)])
p('C08','Results are snapshots, independent of their operands',
 'A result (matrix, copy, decomposition, factor) never changes because its operands are later overwritten, updated in place, or dropped and their memory reused, nor because other results of the same operands are modified. Modifying a result never changes an operand or another result.',
 ['histories','fault_sequences'],'all operations x all later histories of overwriting, dropping and recycling the memory of operands and sibling results',
 'Tests drop or change nothing between computing a result and checking it.',ALL,mech=[('results own their data',M)])
p('C09','Any history of matrix operations matches the plain definition',
 'After any history of constructing, reading, writing, reshaping, selecting, combining, element-wise and multiplying operations, in pure and in-place forms and including calls that failed, every matrix has exactly the shape and elements of the mathematical definition, and in-place forms agree with the pure ones. Calls with incompatible shapes or with row, column or sub-range arguments outside the matrix panic and change nothing.',
 ['histories','fault_sequences','inputs'],'all sequences of operations over several matrices, all shapes, with rejected calls and calls failing part-way interleaved',
 'Tests check single calls on a few 2x2 and 3x3 examples; in-place transposition and product of other shapes, and states after failed calls, are not reached.',[M],state=[('shape is derived from row count and data length',M+': cols')],mech=[('argument assertions',M)])
p('C10','CSV contents do not depend on how the bytes are delivered',
 'Reading a CSV file yields the matrix of all its comma-separated, trimmed fields, one row per line, however the operating system delivers the bytes: in reads of any size, with interrupted reads, with lines, fields or multi-byte characters split across reads, and with other threads reading files at the same time.',
 ['fault_sequences','schedules','inputs'],'all file contents x all partitions of the bytes into reads with interruptions x all interleavings with other readers',
 'There is no test of CSV reading at all, and real files on a quiet machine are always delivered in full reads.',[U],mech=[('buffered line reading',U+': read_csv')],obs=['open/read system calls','parser calls','returned matrix'])
p('C11','Damaged or failing CSV input is never turned into a matrix',
 'If the file cannot be opened, a read fails at any point, the bytes are not valid UTF-8, rows have different numbers of fields, or there are no lines, reading panics instead of returning. It never returns a matrix with missing, altered or invented fields relative to the bytes it was given, even when the file is truncated, replaced or corrupted while being read.',
 ['fault_sequences','crash_points','inputs'],'all contents x open and read errors, truncation, replacement and byte corruption at every position',
 'No test reads a file, and I/O errors cannot be provoked from the test suite.',[U],mech=[('unwrap of every line and assertion of equal column counts',U)],obs=['open/read system calls','returned matrix or panic'])
p('C12','Memory and file descriptors are conserved',
 'Every operation gives back what it acquires: once its results are dropped it holds no heap memory and no open file, whether it completed, was rejected, or failed part-way at any point. Repeating operations, failed ones included, does not accumulate anything, and memory is freed exactly once.',
 ['crash_points','fault_sequences','histories'],'all operations x every panic point and I/O fault x repetition',
 'Tests never observe the heap or the descriptor table, and never unwind out of the middle of an operation.',ALL+[U],mech=[('ownership of Vec and File',M+', '+U)],obs=['allocator','open/close system calls'])
p('C13','Random matrices are exactly the thread generator\'s next draws',
 'Creating a random matrix takes exactly rows x columns draws from the calling thread\'s generator and stores them in row-major order, reusing, skipping and reordering none; the next random matrix continues the same sequence. Threads drawing at the same time do not affect each other\'s matrices, and a draw that fails produces no matrix.',
 ['schedules','histories','fault_sequences'],'all shapes and sequences of random matrices x all generator outputs and failures x all interleavings of drawing threads',
 'There is no test of random matrices; the generator is seeded from the operating system, so outputs differ every run.',[M],mech=[('one draw per slot',M+': random')],obs=['element generation calls','getrandom'])
p('C14','Formatting to a failing writer reports it and writes only a prefix',
 'Formatting a matrix to a writer that fails at any point returns the error, having written exactly a prefix of the full text and nothing after the failed write. With a writer that does not fail, the text is complete (every element, row by row, aligned in columns) and does not depend on what happens between the writes.',
 ['fault_sequences','crash_points','inputs'],'all shapes and element texts x writer failure at every write or byte',
 'Tests only print to the captured standard output, which never fails and is not inspected.',[M],mech=[('error propagation from every write',M+': fmt')],obs=['fmt::Write sink'])
p('C15','Printing emits each matrix whole, whatever other threads do',
 'Printing a matrix puts its complete text on standard output as one contiguous block: under every interleaving of printing threads the output is a sequence of whole matrices, one per call. Interrupted and short writes lose and repeat nothing, and a write error makes the call panic instead of being ignored.',
 ['schedules','fault_sequences'],'all interleavings of threads printing x all short, interrupted and failing writes',
 'Tests print from isolated calls and never look at the output; interleaving and write faults are not controlled.',[M],mech=[('one print call for the whole matrix, under the stdout lock',M+': print')],obs=['write system call on descriptor 1'])
p('C16','Refused memory never yields a result or memory corruption',
 'When the allocator refuses any allocation an operation makes, the operation stops the program or panics, or completes with the correct result; it never returns a wrong or partial result. At no time, with or without such a refusal, does an operation write outside the memory it owns or leave an operand changed.',
 ['fault_sequences','inputs'],'all operations x refusal of every allocation they make (once or from then on)',
 'Tests never run out of memory; out-of-bounds writes into neighbouring heap memory are invisible to them.',ALL+[U],mech=[('infallible Vec allocation and checked indexing',I)],obs=['allocator','process status'])
p('C17','Every operation finishes, even after arithmetic goes wrong',
 'Every operation returns or panics within a bounded number of element operations, whatever values the elements take, including when NaN, infinities or wrong values enter at any moment of the computation, whatever comparison and formatting code of the element type answers, and whatever length the element vector was given through get_mut_data. On finite, moderately scaled inputs without such faults the decompositions (other than the direct SVD, documented as unstable) always return a result.',
 ['fault_sequences','inputs'],'all inputs x faults (NaN, infinity, zero, sign, magnitude, last-bit) injected into any element operation of the iterative algorithms',
 'Tests run the iterations on a handful of benign matrices; the code has no iteration limit, and no test feeds or produces NaN or infinity.',[S,E,M,L,Q,C],mech=[('convergence tests and deflation',S+', '+E)])
# numeric properties: not applicable for this family
p('C18','LU factors reproduce the row-permuted matrix',
 'For every matrix the unit lower triangular L, upper triangular U and row permutation returned satisfy P A = L U up to rounding, multipliers are at most one in magnitude, and the permutation lists each row once.',['inputs'],'all finite matrices of every shape','Tests check four small matrices.',[L])
p('C19','Solving, inversion and determinants are correct',
 'For every square non-singular matrix, solving returns X with A X = B up to conditioning, the inverse times the matrix is the identity, and the determinant has the right sign and value; exactly singular matrices give no solution.',['inputs'],'all finite square matrices and right-hand sides','Tests check a few 2x2 and 3x3 systems.',[L,M])
p('C20','Cholesky exists exactly for symmetric positive definite matrices',
 'Cholesky returns a lower triangular factor with positive diagonal whose product with its transpose is the input exactly when the input is symmetric positive definite, otherwise nothing; its solve solves the system.',['inputs'],'all finite matrices','Tests check four matrices.',[C])
p('C21','QR factors are orthogonal and reproduce the matrix',
 'For every matrix Q has orthonormal columns, R is upper trapezoidal and Q R equals the input up to rounding; full-rank systems are solved in the least-squares sense.',['inputs'],'all finite matrices of every shape','Tests check the product on three matrices and never orthogonality or solve.',[Q])
p('C22','SVD factors are orthogonal, ordered and reproduce the matrix',
 'For every matrix U and V are orthogonal, singular values are non-negative and non-increasing, U S V\' equals the input up to rounding, and the rank counts the significant singular values.',['inputs'],'all finite matrices of every shape','Tests check the product on three matrices.',[S])
p('C23','Eigenvalues and eigenvectors satisfy A V = V D',
 'For every square matrix the returned eigenvalues and vectors satisfy A V = V D up to rounding; for symmetric input V is orthogonal and eigenvalues are real and descending; complex eigenvalues come in conjugate pairs.',['inputs'],'all finite square matrices','Tests compare eigenvalues of two matrices.',[E])
p('C24','Norms, trace, symmetry, comparison and pseudo-inverse are correct',
 'Vector and Frobenius norms, trace, symmetry and approximate-equality tests equal their definitions up to rounding, and the pseudo-inverse of a full-column-rank matrix is a left inverse of it.',['inputs'],'all finite matrices','Tests check a few integers-valued examples.',[M,'src/approxeq.rs'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
