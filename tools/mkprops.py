#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to review)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
                   observe_at=observe or ['return values and exceptions of the public functions'],hook_needed=None)))
S='include/dataframe/Serie.h'; SC='src/Serie.cxx'; SX='include/dataframe/inline/Serie.hxx'
F='include/dataframe/functional/'
p('C01','A Serie is a value: items read back as written, copies are independent',
 'A Serie always holds count x itemSize numbers, keeps its itemSize, count and dimension, and every reading method returns exactly (bit for bit) what the last construction, set or resize put at that place. Copies, assignments and clones equal their source, including the dimension, and are independent of it afterwards. An out-of-range index or an item of the wrong size is refused with an exception and changes nothing.',
 ['histories','inputs'],'Any history of constructions (from counts, arrays, lists, toSerie), copies, self-assignments, clones, set/setValue/setScalar/reCount/asArray writes on a pool of Series with any itemSize >= 1, dimension and count (zero included), any double (NaN and signed zeros included) and any index.',
 'The tests build a handful of Series and read a few items; they never run long histories of copies and writes, look at the dimension, or use an index at or past the end.',
 [S,SC,SX,'include/dataframe/types.h'],[('bounds checks and item offset arithmetic','Serie::value, scalar, get, set, setValue, setScalar'),('copying of values and layout','copy constructor, operator=, clone, toSerie, reCount')],
 [('s_','flat values, item after item','Serie.h'),('count_, itemSize_, dimension_','layout of the values','Serie.h')])
p('C02','map, apply, forEach, reduce and conditionals visit each item once, in order',
 'map, apply, forEach, reduce, check and if_then_else call their callback exactly once per item, in increasing index order, with the exact item of every input Serie and its index. The result consists exactly of what the callback returned, in order, with the itemSize of what it returned (for reduce: the last accumulator, starting from the given initial value). Series of different counts, and items of different sizes returned by a map callback, are refused with an exception.',
 ['inputs'],'Any Serie or tuple of 2 to 5 Series (itemSize 1 to 20, count 0 to 65537), scalar and array callbacks returning numbers or arrays of any size, stateful callbacks, in free-function, member and make_ form.',
 'Tests use Series of 2 to 6 items and pure callbacks: a skipped, repeated, reordered or mis-sliced item at another size or position is not seen, and the calls themselves are never counted.',
 [F+'map.h',F+'forEach.h',F+'reduce.h',F+'utils/apply.h',F+'conditional/check.h',F+'conditional/if.h'],[('item loops','__map__, map, forEach, reduce, check, if_then_else'),('count agreement','utils::countAndCheck in include/dataframe/utils.h'),('output size agreement','map')],
 observe=['callback invocations (event log recorded by the callback)','returned Serie'])
p('C03','Selection keeps exactly the matching items, in order, unchanged',
 'filter, cut and findAll return exactly the items for which the predicate is true, reject exactly the others, and partition both, always in the original order and bit for bit; find returns the first match with its index, or reports that there is none. The versions on several Series (filter, filterAll, reject, rejectAll) select the same indices in all of them. The predicate is called exactly once per item, in order, with the item and its index (find stops at the first match).',
 ['inputs'],'Any Serie or tuple of 2 to 4 Series of any itemSize and count, any predicate on values and/or index, stateful ones included.',
 'Tests check one or two predicates on a few items; nothing establishes complementarity, order or exactness for other sizes, all-true / all-false predicates or special values.',
 [F+'filter.h',F+'find.h',F+'utils/reject.h',F+'utils/partition.h',F+'utils/cut.h'],[('index collection then copy','__filter__, filter, filterAll, __reject__, reject, rejectAll, find, findAll, partition')],
 observe=['predicate invocations','returned Series'])
p('C04','zip, unzip, merge, concat and partition_n neither lose, duplicate nor move data',
 'zip and zipVector put the items of all their Series side by side, and unzip with the same item sizes gives these Series back bit for bit. concat and merge (appended or interleaved) contain every item of every input exactly once, in the order given. partition_n cuts a Serie into consecutive blocks whose sizes differ by at most one, larger ones first, and concatenating the blocks gives the Serie back.',
 ['inputs'],'Any number of Series, any item sizes and counts (unequal counts for merge and concat, counts smaller than the number of parts, empty Series), any values, all overloads.',
 'Tests show one small example per function; round trips, unequal or empty inputs, remainders and many parts are not explored.',
 [F+'utils/zip.h',F+'utils/unzip.h',F+'utils/concat.h',F+'merge.h',F+'utils/partition_n.h'],[('offset arithmetic','zip, zipVector, unzip, concat, merge, partition_n'),('agreement checks','utils::countAndCheck, itemSize checks')])
p('C05','parallel_execute gives the sequential result under every schedule',
 'For a functor that works item by item, parallel_execute returns the same Serie, bit for bit and in the same order, as calling the functor on the whole Serie, for every number of cores and every interleaving, start or finish order of the jobs, without data races. The jobs receive consecutive pieces which cover each item exactly once, and no job is still running when the call returns or throws. If a job throws, returns the wrong number of items, or a thread cannot be started, the call throws instead of returning a partial or reordered result.',
 ['schedules','inputs','fault_sequences'],'Any Serie (empty included), 1 to 64 cores (more cores than items included), forced permutations of job starts and ends, random delays, any subset of failing jobs, thread creation failing at any point.',
 'No unit test calls parallel_execute; one run sees one schedule and no failure.',
 [F+'utils/parallel_execute.h',F+'utils/partition_n.h',F+'utils/concat.h'],[('std::async jobs with a private copy of each block','parallel_execute'),('collection in order through futures, count check per job','parallel_execute')],
 observe=['start and end of each job with the piece it received (log written by the functor)','returned Serie or exception','pthread_create (interposed)'])
p('C06','memoize is transparent and computes each distinct input once',
 'A memoized function returns exactly what the function itself returns for that input, whatever was asked before. The function is called once for each distinct input (values, itemSize, count and dimension) until the cache is cleared, after which it is called again; a call that throws is not remembered. Copies of a memoized function answer correctly and independently.',
 ['histories','inputs'],'Any history of calls, repeated calls, near-identical inputs (one value, layout, sign of zero or NaN payload apart), throwing calls, clears and copies.',
 'The test calls one memoized function twice with one Serie; aliasing between different inputs with equal values, NaN, exceptions and clearing are not exercised.',
 [F+'utils/memoize.h'],[('cache keyed by the input','Memoized::make_key, operator()'),('clear_cache','Memoized')],[('cache','results by input','memoize.h')],
 observe=['calls of the wrapped function','returned Serie'])
p('C07','Concurrent use of shared const Series, Dataframes and pipelines is race-free',
 'Any number of threads may at the same time read the same Series, Dataframe, Manager or prepared pipeline (one without a memoized function, which fills its cache when called) and run any operation of the library on them, as long as no thread writes them. There is no data race, and every thread gets exactly the result a single thread gets.',
 ['schedules','programs'],'2 to 8 threads running random sequences of all the operations of the library on shared read-only inputs, with start barriers and random yields.',
 'The tests are single-threaded; hidden shared state (statics, lazily filled caches, mutable members) is invisible to them.',
 [S,'include/dataframe/Dataframe.h','src/functional/algebra/eigen.cxx','src/attributes/Manager.cxx','src/attributes/Components.cxx','src/functional/stats/quantile.cxx'],[('no mutable shared state in const operations','all operations'),('constant tables only as statics','eigen.cxx, Components.cxx, Dataframe.cxx')],
 observe=['ThreadSanitizer','results of each thread compared with the sequential ones'])
p('C08','det, inv and transpose agree with linear algebra',
 'For every item that is a 2x2 or 3x3 matrix (full or symmetric storage, row by row), det is its determinant, transpose its transpose bit for bit, and inv of a 3x3 matrix multiplied with it on either side gives the identity, up to rounding. The determinant of a product, of a transpose and of an inverse follow, and the symmetric and the full storage of the same matrix give the same results. A singular matrix is refused by inv with an exception, and unsupported shapes are refused.',
 ['inputs'],'Any matrices with finite entries (diagonal, permutation, triangular, rotation, badly scaled, symmetric, random), |det| well above the documented absolute threshold for inv; any count.',
 'The tests invert or take the determinant of very few matrices, mostly symmetric ones, so a wrong cofactor for a general matrix passes.',
 ['src/functional/algebra/det.cxx','src/functional/algebra/inv.cxx','src/functional/algebra/transpose.cxx','src/view/Matrix.cxx'],[('cofactor formulas','det.cxx, inv.cxx'),('storage order','Matrix.cxx, transpose.cxx')])
p('C09','Eigenvalues and eigenvectors are those of the given symmetric matrix',
 'For every symmetric 2x2 (dimension 2) or 3x3 (dimension 3) item, the eigenvectors are orthonormal to rounding, each eigenvalue is the Rayleigh quotient of its eigenvector, eigenvalues are in decreasing order, and vector k belongs to value k within the convergence tolerance of the algorithm (residual at most 0.5% of the norm of the off-diagonal part, exactly zero for diagonal matrices). The eigenvalues sum to the trace. eigenValues, eigenVectors and eigenSystem agree bit for bit, and other shapes are refused with an exception.',
 ['inputs'],'Any finite symmetric matrices: diagonal, repeated or nearly repeated eigenvalues, zero, rank one, indefinite, scaled by 1e-100 to 1e100, built from known spectra and random rotations; any count.',
 'The tests look at two or three matrices; the iteration has data-dependent paths (ordering, equal diagonal, thresholds) which few matrices take.',
 ['src/functional/algebra/eigen.cxx'],[('Jacobi rotations, final selection sort of values with their vectors','symmetricEigen'),('storage order conversion','eigenValues, eigenVectors, eigenSystem')])
p('C10','Arithmetic on Series is exact elementwise arithmetic',
 'add, sub, mult, div, scale, negate and weigthedSum compute, for each component of each item, the sum, difference, product, quotient, scaled or negated value, or weighted sum of the corresponding components, to rounding, in every overload (Serie with number, Serie with Serie, lists, variadic, per-component scales, scalar Serie with vector Serie). The result has the itemSize and count of the operand Serie. Dividing by a Serie gives 0 for the items whose divider is below 1e-10 in absolute value.',
 ['inputs'],'Any finite or infinite operands of matching shapes, 1 to 8 Series in list or variadic forms, weights of any sign, dividers around the threshold, any count and itemSize.',
 'Tests use small positive integers and few shapes: wrong component pairing, dropped terms or a wrong overload only show for other shapes and values.',
 ['src/functional/math/add.cxx','src/functional/math/sub.cxx','src/functional/math/mult.cxx','src/functional/math/div.cxx','src/functional/math/scale.cxx','src/functional/math/negate.cxx','src/functional/math/weightedSum.cxx',F+'math/add.h',F+'math/sub.h'],[('component loops','the .cxx files and add.h, sub.h')])
p('C11','dot, cross, norm and normalize satisfy the definitions and identities of vectors',
 'dot is the sum of products of components, norm2 the sum of squares and norm its square root, cross of 3D vectors is perpendicular to both with the right orientation and length, and normalize gives vectors of length 1 in the same direction (for a scalar Serie: the affine map which sends its minimum to 0 and its maximum to 1). All hold item by item to rounding for any number of items. dot is symmetric and cross antisymmetric.',
 ['inputs'],'Any finite vectors whose squares neither overflow nor underflow, itemSize 1 to 20 (3 for cross), parallel, orthogonal and zero vectors included where defined, any count.',
 'The tests use unit axes and one or two simple vectors.',
 ['src/functional/algebra/dot.cxx','src/functional/algebra/cross.cxx','src/functional/algebra/norm.cxx','src/functional/math/normalize.cxx'],[('component formulas','dot.cxx, cross.cxx, norm.cxx, normalize.cxx')])
p('C12','mean, covariance and minMax are the statistics of all the items',
 'mean is the arithmetic mean of each component over all items, covariance the population covariance of two scalar Series (symmetric, non-negative for a Serie with itself, bilinear to rounding), and minMax the exact smallest and largest value of each component. They do not depend on the order of the items beyond rounding. covariance refuses Series of different counts or with itemSize other than 1, and minMax of an empty Serie is empty.',
 ['inputs'],'Any finite values, also far from zero with small differences (minMax: infinite ones too), any count >= 1 and itemSize, extremes placed at every position including the first and last.',
 'Tests use short positive sequences where an extreme at the ends or negative data are not distinguished.',
 ['src/functional/stats/mean.cxx','src/functional/stats/covariance.cxx','src/functional/math/minMax.cxx'],[('accumulation loops','mean.cxx, covariance.cxx, minMax.cxx')])
p('C13','quantile and the outlier functions follow the sorted sample',
 'quantile(q) is the linear interpolation at position q x (count - 1) of the sorted values: it does not depend on the order of the items, is monotonic in q, and is the minimum at 0 and the maximum at 1; q25, q50, q75 and IQR are the corresponding quantiles and their difference. outliers keeps, in order, exactly the values outside [Q25 - m x IQR, Q75 + m x IQR], notOutliers exactly the others, and isOutliers marks exactly the former with 1 and the latter with 0. An empty or non-scalar Serie and q outside [0, 1] are refused with an exception.',
 ['inputs'],'Any finite values (ties, constants, sorted, reversed), count 1 to thousands, any q in [0,1] (positions on and between items), any mustache >= 0.',
 'Tests compute a few quantiles of one or two small samples.',
 ['src/functional/stats/quantile.cxx'],[('sort and interpolation','quantile'),('fences','outliers, isOutliers, notOutliers')])
p('C14','bins counts every value exactly once, in the right bin',
 'bins divides the interval into equal bins and counts each value in the bin that contains it, values at or above the end in the last one, so that the counts always sum to the number of values. Without a given interval it uses the minimum and maximum of the values. A value below the start and a non-scalar Serie are refused with an exception, and zero bins give an invalid Serie.',
 ['inputs'],'Any finite values, 1 to 1000 bins, values on bin edges, all equal, below and above the interval, empty Series.',
 'The test bins one small sample.',
 ['src/functional/stats/bins.cxx'],[('bin index and clamping','bins')])
p('C15','sort returns an ordered permutation of the items',
 'sort returns exactly the items of the Serie, each as often as in the input and never torn apart, in non-decreasing order: numerical for scalars, lexicographic for arrays, or as told by the given comparator. The input is unchanged.',
 ['inputs'],'Any values without NaN, itemSize 1 to 10, count 0 to tens of thousands, ties, presorted and reversed data, ascending, descending and partial-key comparators in generic and Array form.',
 'The test sorts two Series of at most five items and one comparator.',
 [F+'utils/sort.h'],[('std::sort on values or items, comparator','sort')])
p('C16','A Dataframe behaves as a map from names to Series',
 'After any sequence of add, set, create, del, clear, setCount and writes through operator[] or get, a Dataframe contains exactly the names a map would contain, each with exactly the values, itemSize, count and dimension last put there. contains by name and by Serie, nameOfSerie and reading agree with it; reading a missing name of a const Dataframe gives an invalid Serie and adds nothing. Changing a Serie after it was added, or a copy of the Dataframe, changes nothing in the Dataframe.',
 ['histories'],'Any history of operations over a small and a large set of names (empty and prefix names included), Series of any layout.',
 'Tests add one or two Series and read them back.',
 ['include/dataframe/Dataframe.h','src/Dataframe.cxx','src/utils/nameOfSerie.cxx'],[('std::map of Series','Dataframe'),('identity search','nameOfSerie')],[('series_','Series by name','Dataframe.h'),('count_','common count','Dataframe.h')])
p('C17','A Manager resolves every name it lists, and owns its decomposers',
 'names(itemSize) lists, sorted and without duplicates, the stored Series of that itemSize and dimension (positions and indices excepted) and what its decomposers provide; contains agrees with it, and asking for a listed name gives a valid Serie of that itemSize with one item per item of its source. A stored Serie of that name and itemSize takes precedence and is returned unchanged; otherwise the first decomposer, in the order added, that provides the name answers, and an unknown name gives an invalid Serie. Changes of the Dataframe are seen at the next call, and each decomposer is destroyed exactly once, by clear or with the Manager.',
 ['histories','configurations'],'Any Dataframe (2D and 3D, vectors, matrices, other sizes, with or without mesh), any set and order of decomposers (user-defined ones included), histories of changes, adds and clears.',
 'The tests query a few names of one small Dataframe and do not resolve most of them.',
 ['src/attributes/Manager.cxx','include/dataframe/attributes/Manager.h','src/attributes/Components.cxx','src/attributes/EigenValues.cxx','src/attributes/EigenVectors.cxx','src/attributes/Coordinates.cxx','src/attributes/Decomposer.cxx'],[('ordered search','Manager::serie'),('collection in a set','Manager::names'),('ownership','Manager::~Manager, clear')],[('ds_','owned decomposers in order','Manager.h')])
p('C18','Decomposers return the component, coordinate or eigen quantity their name says',
 'The component Serie named by a suffix (x, y, z; xx, xy and so on for full or symmetric matrices in 2D and 3D; numbers for other sizes) holds, for each item, exactly the entry of that name in the documented storage order; coordinates hold the columns of the positions under the names given. Eigen quantity k holds the k-th eigenvalue, or the k-th eigenvector as a vector of the space dimension, as computed by the eigen functions for the same Serie. A user-defined decomposer returns what its function returns for the Dataframe.',
 ['inputs','configurations'],'Any Series of itemSize 2 to 12 in dimension 2 and 3, ambiguous names (one the prefix of another), any coordinates names, any count >= 1.',
 'Tests resolve x, y and z of three points only; matrix components and eigen decomposers are listed but never read.',
 ['src/attributes/Components.cxx','src/attributes/Coordinates.cxx','src/attributes/EigenValues.cxx','src/attributes/EigenVectors.cxx','include/dataframe/attributes/UserDefinedDecomposer.h'],[('suffix tables','Components.cxx'),('item slicing','serie methods')])
p('C19','Mesh normals, areas and valences are right for every triangle and node',
 'For a triangulated mesh, normals gives for each triangle, in order, the cross product of its two edges from its first node, areas its area (half the length of that normal), and the valence decomposer the number of triangle corners at each node; the decomposers Normals and Area agree with the functions. Areas do not change under translation, rotation or renumbering, normals turn over when two nodes are exchanged, and valences sum to three times the number of triangles. An index beyond the positions is refused with an exception.',
 ['inputs'],'Any meshes: grids, fans, random triangles, degenerate triangles, shared and isolated nodes, up to thousands of triangles.',
 'Tests use a single triangle.',
 ['src/functional/geo/normals.cxx','src/functional/geo/areas.cxx','src/attributes/Normals.cxx','src/attributes/Areas.cxx','src/attributes/Valence.cxx'],[('edges and cross product','normals.cxx'),('counting','Valence.cxx')])
p('C20','Cartesian grids contain every grid point once, in order, within the box',
 'from_points and from_dims give one 3D point per combination of grid indices, x varying fastest, then y, then z, evenly spaced from one corner of the box to the opposite one to rounding (a direction with a single point stays at the first corner). from_dims around a center equals from_points between center - dims/2 and center + dims/2 to rounding. A number of directions other than 1 to 3 and corners that are not 3D are refused with an exception.',
 ['inputs'],'Any numbers of points per direction (1 and 0 included), 1 to 3 directions, any corners, reversed or flat boxes.',
 'There is no unit test for grids.',
 [F+'geo/cartesian_grid.h'],[('triple loop with spacing','from_dims, from_points')])
p('C21','InSAR projection and fringes are exact',
 'insar projects each 3D displacement on the line of sight (their dot product, to rounding), linearly in the displacement. fringes maps each value to its remainder modulo the spacing, in [0, |spacing|], unchanged (to rounding) when the value moves by a whole number of spacings. Unsuitable shapes give an invalid Serie.',
 ['inputs'],'Any finite displacements, lines of sight and non-zero spacings of either sign, positive, negative and large values, values on fringe boundaries.',
 'There is no unit test for insar or fringes.',
 ['src/functional/geo/insar.cxx','src/functional/algebra/dot.cxx'],[('fractional part','frac, fringes'),('dot product','insar')])
p('C22','Matrix and Vector views compute standard matrix and vector operations',
 'A Matrix built from a row-by-row or symmetric array has exactly the entries of that array and stays valid after the array is gone; transpose, trace, multVec, multMat, isSymmetric and array follow the definitions (array gives the upper triangle of a symmetric matrix, the rows otherwise), to rounding. Vector norm, dot, normalize, add, sub and mult work component by component on vectors of any length. Operands of different sizes, and arrays that do not have the size of a square or symmetric matrix, are refused with an exception and left unchanged.',
 ['inputs','histories'],'Any size from 1 to 8, any finite entries, chains of operations on temporaries.',
 'The test multiplies one matrix; lifetimes and other sizes are not exercised.',
 ['include/dataframe/view/Matrix.h','src/view/Matrix.cxx','include/dataframe/view/Vector.h','src/view/Vector.cxx'],[('index arithmetic','index, indexS'),('component loops','Matrix.cxx, Vector.cxx')],[('v_','own copy of the entries','Matrix.h, Vector.h')])
p('C23','Comparison functions see every difference and nothing else',
 'equals is true exactly when both Series are valid, have the same itemSize, count and dimension and equal values everywhere; approximatelyEquals when they differ nowhere by more than epsilon; the -All forms when this holds for all neighbours in the list. The masks hold 1 for exactly the items whose components are all equal (within epsilon), 0 for the others, and refuse Series of different shapes with an exception. Equality is reflexive for values without NaN, and symmetric.',
 ['inputs'],'Pairs and lists of Series differing in nothing, in one component at any position, by about epsilon, in shape or dimension; any itemSize and count.',
 'Tests compare a few equal and different three-item Series.',
 [F+'math/equals.h'],[('layout and value comparison','equals, approximatelyEquals, equalityMask, approximateEqualityMask')])
p('C24','Pipes, compositions, members and make_ forms equal the direct calls',
 'pipe and make_pipe apply their operations from left to right, compose from right to left, each exactly once and on the result of the previous one, for any number and type of stages. The member functions of Serie and the reusable make_ forms return exactly what the direct call returns, however often they are used. Exceptions of a stage reach the caller and stop the following stages.',
 ['programs','inputs'],'Random chains of 1 to 8 operations, stages returning other types, reuse of the same pipeline on many inputs, lvalue and temporary stages whose source is gone.',
 'Tests show a few fixed two- or three-stage pipelines.',
 [F+'pipe.h',F+'utils/compose.h',F+'macros.h',SX],[('recursive application','pipe, compose'),('stored callables','make_pipe, MAKE_OP')],observe=['stage invocations','returned values'])
p('C25','No call touches memory it does not own or runs into undefined behaviour',
 'Whatever sequence of public operations is run on Series, Dataframes, views (read within their size) and decomposers, with consistent or inconsistent shapes, the library never reads or writes outside its objects, uses freed memory, or executes undefined behaviour. Each call returns a value or throws an exception.',
 ['programs','inputs'],'Random programs over all public operations with arguments of arbitrary shape and count (empty, invalid, mismatched, out-of-range indices, the same object twice), any doubles (no NaN where values are put in order).',
 'Tests run a few well-formed calls without sanitizers, where an out-of-bounds access usually goes unnoticed.',
 ['include/dataframe','src'],[('argument checks','all operations'),('ownership by std::vector and std::map','all classes')],observe=['AddressSanitizer and UndefinedBehaviorSanitizer reports','uncaught signals, exceptions that are not std::exception'])
p('C26','A failing allocation or callback leaves inputs intact and leaks nothing',
 'If memory runs out at any allocation inside an operation, or a callback throws at any item, the operation ends with an exception (memory exhaustion may be reported as such or as the failure of a job) or, where it can do without that memory, with its complete result; its inputs are unchanged, a Serie, Dataframe or Manager it was to change is as before or as asked for, no memory is leaked, and the same call succeeds afterwards with the same result as without the failure.',
 ['fault_sequences','inputs'],'Every allocation of every operation on small inputs, failed one at a time; every callback invocation, throwing one at a time.',
 'The tests inject no failures.',
 ['include/dataframe','src','src/functional/algebra/eigen.cxx'],[('RAII through std::vector','all operations')],observe=['operator new and delete (replaced, counting)','inputs before and after','result of the repeated call'])
p('C27','The space dimension of a Serie survives operations',
 'Copying, selecting, sorting, splitting, joining, mapping and computing on Series of dimension 2 give Series of dimension 2, and likewise for dimension 3, so that chains of 2D operations (transposes, determinants, eigen systems, comparisons, decompositions, parallel runs) work as on freshly built Series. Storing a Serie in a Dataframe, taking it back and asking a Manager for it keep the dimension.',
 ['programs','inputs'],'Every operation that returns Series derived from a Serie, and random chains of them, on Series of dimension 2 and 3.',
 'No test looks at the dimension of a result; 2D data appear in very few tests.',
 [S,SC,F+'map.h',F+'filter.h',F+'utils/zip.h','src/functional/algebra/eigen.cxx','src/attributes/Manager.cxx'],[('dimension passed to the result','all operations')],[('dimension_','space dimension','Serie.h')])
p('C28','Printed Series go to the given stream and list every value once',
 'Streaming an array, a list of names, a Serie or several Series writes to the given stream and nowhere else, and the text contains the itemSize, count and dimension where applicable and every value exactly once, in order. print writes the same information to the standard output, item by item; dump writes the items of a Serie or the names, itemSizes and counts of a Dataframe to the standard error.',
 ['inputs'],'Any arrays, names and Series (empty, one item, many items, any itemSize), any stream and number format.',
 'Tests print without looking at the text or at the stream used.',
 ['include/dataframe/types.h',SX,F+'utils/print.h'],[('operator<<','types.h, inline/Serie.hxx'),('print','print.h')],observe=['text written to string streams, std::cout and std::cerr'])
p('C29','random gives reproducible numbers that stay in the interval',
 'random returns a Serie of the asked count and itemSize whose values all lie in [min, max]. The same arguments and seed always give the same values, in any thread and after any other calls, and different seeds give different values. Over many values, every part of the interval is reached with the frequency of a uniform distribution.',
 ['inputs','histories'],'Any interval, seed, count and itemSize; repeated and interleaved calls; frequencies tested with a margin that a uniform generator exceeds with probability below 1e-12.',
 'No test calls random.',
 ['src/functional/math/random.cxx',F+'math/random.h'],[('seeded Mersenne twister, uniform distribution','random')])
p('C30','Operations have no side effects: inputs unchanged, repeated calls agree',
 'No operation changes the Series, arrays or Dataframe given to it, and its result is its own: changing the result afterwards does not change the inputs, and changing the inputs does not change the result. The formats of the standard streams, the rounding mode, the locale and the random numbers of the program stay as they are. Calling an operation again with the same arguments gives bit for bit the same result, whatever other operations ran in between.',
 ['histories','inputs'],'All operations, in random order and repeated, on shared inputs; inputs and results modified between calls.',
 'Tests call each function once on fresh inputs.',
 ['include/dataframe','src'],[('const arguments, results built from copies','all operations')])
p('C31','Unsuitable arguments are refused, never silently turned into a result',
 'Operations on several Series refuse counts or item sizes that do not agree, and operations on a particular shape (matrices, 3D vectors, scalars) refuse other shapes: they throw an exception derived from std::exception or, where so documented, return an invalid Serie. Suitable arguments are never refused.',
 ['inputs'],'Every operation with a shape requirement, over all combinations of itemSize 0 to 10, dimension 2 and 3, and counts that agree or differ by one or more.',
 'The tests check three or four refusals.',
 ['include/dataframe/utils.h','src/functional','include/dataframe/functional'],[('countAndCheck and itemSize checks','all operations')])
p('C32','Counting, searching and reporting helpers do exactly what they say',
 'count and getCount give the count of every given Serie in order, and countAndCheck gives the same or refuses, with an exception, Series whose counts are not all equal. contains tells exactly whether a value is in a vector, map applies a function once to each element of a vector in order, and nameOfSerie gives the name of a Serie held by a Dataframe (that very object, not an equal copy) and an empty name for any other. info writes the message, and log its arguments separated by spaces, once to the standard output, warning and error to the standard error, and nothing to the other.',
 ['inputs'],'1 to 40 Series whose counts agree or differ at any one place by 1, 2, 256 or 65536; any vectors of names and numbers with the value at any place or absent; any messages.',
 'The tests only reach these helpers through a few operations with agreeing counts, and never look at the messages.',
 ['include/dataframe/utils.h','include/dataframe/utils/utils.h','src/utils/nameOfSerie.cxx'],[('comparison with the first count','countAndCheck'),('comparison of addresses','nameOfSerie'),('output streams','info, warning, error, log')],observe=['return values and exceptions of the public functions','text written to std::cout and std::cerr'])
ids=[x['id'] for x in P]; assert len(set(ids))==len(ids)
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
