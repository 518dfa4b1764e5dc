prop('C12', 'Knot vectors behave like sorted sequences with exact spans and multiplicities',
     'A knot vector is a non-decreasing sequence: after any history of insertions and removals of knots in its range, copies, moves, assignments and '
     'element writes that keep the order it holds exactly the knots put in and not taken out, in order, and its objects are independent of each other. '
     'The span reported for a parameter in the range is the non-empty one containing it (half open, the last knot belongs to the last non-empty span), '
     'multiplicities and numbers of (different) knots are exact, and comparisons with a tolerance are right. Averaging parameter values gives the clamped knots of the interpolation formula.',
     ['inputs', 'histories'], 'every history of operations on several knot vectors, every parameter (at, next to and between knots, at and outside the ends), every tolerance',
     'The tests query a handful of parameters of four fixed knot vectors.',
     ['src/baf/knot_vector.cc', 'src/baf/knot_vector.h', 'src/util/numeric_settings.h'],
     [('insertion and removal', 'src/baf/knot_vector.cc InsertKnot, RemoveKnot'), ('span search', 'src/baf/knot_vector.cc GetKnotSpan'), ('averaging constructor', 'src/baf/knot_vector.cc')],
     'all knots (by index and by iterator) of all live knot vectors after every operation, answers of all queries',
     'TLC checks the laws of KnotSys on all short histories over a small lattice; the same histories, longer random ones and random knot vectors are replayed on baf::KnotVector and each recorded step is checked against KnotSys (exact comparison). '
     'Bounded: histories of 3 (all) to 14 (random) operations. Trusts TLC, Rat.java and the getters.',
     [('knot vectors', 'the sequence of knots of every live object')])

prop('C13', 'Multi-indices enumerate their box in order, one-dimensional indices agree',
     'A multi-index over a box of lengths runs through every position of the box exactly once before it returns to the start, with the first direction fastest; '
     'stepping back undoes stepping forward, and k steps equal k single steps. Its one-dimensional index is the position in this order, setting a one-dimensional index '
     'or a tuple selects that position, the complementary index mirrors every direction, and leaving out one direction gives the position in the box without it.',
     ['inputs', 'histories'], 'every box of 1 to 4 directions, every position and every history of operations and copies',
     'The tests use three boxes and a few positions.',
     ['src/util/multi_index_handler.h'],
     [('stepping', 'src/util/multi_index_handler.h operator++, --, +, -'), ('conversion', 'Get1DIndex, Set1DIndex, ExtractDimension, GetDifferenceIndices')],
     'indices, one-dimensional index, length, complement and extracted indices of all live objects after every operation',
     'TLC checks the laws of IndexSys (bijection, inverse steps, complement) on all short histories over small boxes; these, longer random histories and full rounds of random boxes are replayed on util::MultiIndexHandler and checked step by step. '
     'Bounded: 1 to 4 directions with lengths up to 7.',
     [('multi-indices', 'lengths and current position of every live object')])

IONOTE = ('TLC checks the laws of IOSys (positions, dimensions, reports) on the abstract model and generates histories of writing, reading, converting '
          '(all short ones and random longer ones); they are filled with random splines and files, replayed on the real readers, writers and converters, and each recorded step, '
          'with the file parsed by an independent parser (lib/iofmt.py), is checked against IOSys. Bounded: 1 to 4 directions, lists of up to 3 splines, degree up to 4. '
          'Trusts TLC, Rat.java, the getters and the independent parsers.')
IOSTATE = [('spline lists and files', 'the splines in memory and the entries of every file, number by number')]


def fmtprop(id, name, stem, extra, dims):
    prop(id, '%s files hold exactly the splines written to them and read back as such' % name,
         'Writing any list of splines of at most %s parametric directions to %s %s file produces a valid file with one entry per spline, in order, with the right kind, degrees, knots, '
         'control points and weights as precisely as the format prints them (%s), whatever was in the file before; splines with more directions are refused with an exception. '
         'Reading a valid file, written by the library or by others, returns exactly the splines it describes, in order; a missing file is refused with an exception. Neither changes the splines given to it.' % (
             dims, 'an' if name[0] in 'XI' else 'a', name, extra),
         ['inputs', 'histories'], 'every list of B-splines and NURBS, every valid file (white space, order of elements, foreign entities and number notation as the format allows) and every history of writing and reading',
         'The tests write and read a few fixed splines and compare selected numbers.',
         ['src/io/%s_reader.cc' % stem, 'src/io/%s_writer.cc' % stem] + (['src/io/%s_reader_utils.h' % stem, 'src/io/%s_writer_utils.h' % stem] if stem != 'iges' else []) +
         ['src/util/string_operations.h', 'src/util/any_casts.h'],
         [('writing', 'src/io/%s_writer.cc' % stem), ('reading', 'src/io/%s_reader.cc' % stem)],
         'text of the written files, splines returned by the reader', IONOTE, IOSTATE)


fmtprop('C14', 'XML', 'xml', 'six decimals', 'any number of')
P[-1]['statement'] = P[-1]['statement'].replace('of at most any number of parametric directions', 'of any number of parametric directions').replace('; splines with more directions are refused with an exception', '')
fmtprop('C15', 'IGES', 'iges', 'full double precision, points padded to three coordinates', 'two')
fmtprop('C16', 'IRIT', 'irit', 'six decimals, rational points in homogeneous form', 'three')

prop('C17', 'VTK files show every spline on its scattering lattice',
     'Writing a list of splines of one to three parametric directions as VTK with a scattering (number of cells per direction) for each produces a valid unstructured grid whose points are the '
     'points of the splines at the regular lattice over the whole parameter domain, both ends included, in order with the first direction fastest, as precise as six digits, and whose cells (lines, quads, hexahedra) '
     'join neighbouring lattice points in VTK orientation, spline by spline. A wrong number of scatterings or directions and splines with more than three directions are refused with an exception.',
     ['inputs', 'histories'], 'every list of splines with domains of any kind and every scattering, fitting or not',
     'The tests compare a few lines of output for three fixed splines.',
     ['src/io/vtk_writer.cc', 'src/io/vtk_writer_utils.h'],
     [('points', 'src/io/vtk_writer_utils.h WritePoints'), ('cells', 'src/io/vtk_writer.cc Write1DCells, Write2DCells, Write3DCells')],
     'text of the written files', IONOTE, IOSTATE)

prop('C18', 'Conversion writes exactly the selected splines that the target format can hold',
     'Converting a file between formats (chosen by the file names) writes to the output exactly those splines of the input that are asked for (all of them when no position is given) and that the target format can hold, '
     'in the order asked for and each as the target format represents it, and returns their positions; for VTK every written spline gets the scattering that was given for it. Unknown formats, missing inputs and scatterings that do not fit are refused with an exception. '
     'The result depends only on the input file and the arguments, not on earlier conversions with the same converter.',
     ['inputs', 'histories'], 'every pair of formats, every input file, every list of positions (repeated, unordered, out of range, empty) and scatterings, every sequence of conversions with several converters',
     'The tests convert a handful of fixed files once.',
     ['src/io/io_converter.cc', 'src/io/io_converter.h', 'src/util/vector_utils.h', 'src/util/any_casts.h'],
     [('selection', 'src/io/io_converter.cc GetSplinePositionsOfCorrectDimension, WriteFile'), ('formats', 'src/io/io_converter.cc GetFileFormat')],
     'returned positions and text of the output files', IONOTE, IOSTATE)

prop('C19', 'Converter programs follow their log file and append a true report',
     'A converter program that is given a log file converts the input file named there to the output file named there, for the positions listed (or all), with the scatterings listed for VTK, '
     'and appends to the log file, keeping what was there, exactly one report naming the files and the positions that were really written; when the conversion is refused nothing is reported, and a program that is not given exactly one existing log file changes nothing. '
     'The log object answers the positions and scatterings of its last query, and each of its reports describes that query.',
     ['inputs', 'histories'], 'every log file (positions in any order, repeated, out of range, none; scatterings that fit or not), every input file and every sequence of program runs and log queries',
     'The tests run each program on one or two log files and look for a few strings.',
     ['src/io/executables/converter_log.cc', 'src/io/executables/iges_to_irit.cc', 'src/io/executables/iges_to_vtk.cc', 'src/io/executables/iges_to_xml.cc', 'src/io/executables/irit_to_iges.cc',
      'src/io/executables/irit_to_vtk.cc', 'src/io/executables/irit_to_xml.cc', 'src/io/executables/xml_to_iges.cc', 'src/io/executables/xml_to_irit.cc', 'src/io/executables/xml_to_vtk.cc'],
     [('log file', 'src/io/executables/converter_log.cc'), ('programs', 'src/io/executables/*.cc main')],
     'exit status, output files and log files of the programs (separate processes in a scratch directory), answers of io::ConverterLog', IONOTE, IOSTATE)

prop('C20', 'Text, vector and control point helpers compute what they say',
     'Splitting, trimming and comparing texts, reading numbers and lists of numbers from texts (every decimal notation of a number in the range of normal doubles gives the nearest double, everything else is refused with an exception), '
     'norms, differences, distances, scalar and cross products, scaling and filtering of vectors, comparison within a tolerance, named numbers, the ranges of random numbers, and sums, differences, multiples, '
     'norms and affine transformations of control points give the mathematically right result for all arguments, and leave their arguments unchanged.',
     ['inputs', 'histories'], 'every text, every vector of any length, every control point of any dimension, every history of operations on control points',
     'The tests try one or two arguments per helper; several helpers have no test.',
     ['src/util/string_operations.h', 'src/util/vector_utils.h', 'src/util/numeric_settings.h', 'src/util/named_type.h', 'src/util/random.h', 'src/baf/control_point.cc'],
     [('texts', 'src/util/string_operations.h'), ('vectors', 'src/util/vector_utils.h'), ('control points', 'src/baf/control_point.cc')],
     'values returned and coordinates of all live control points',
     'TLC checks laws of the text and number functions of UtilSys on all texts up to a length over an alphabet and writes the texts out; these, random longer ones and random vector and point operations are run on '
     'the code and every reply is checked against UtilSys. Bounded: all texts of 4 characters (quick) over small alphabets, longer ones sampled. Nothing is promised for a number followed by white space only.',
     [('control points', 'coordinates of every live point')])

SHAPENOTE = ('Every recorded step of the real code is checked by TLC against the actions of Shapes (exact rational arithmetic, square roots to 160 bits), which extend the store of SplineSys; curves and histories are generated '
             'at random and by TLC from SplineGen. Bounded: degree up to 4, up to 11 stations. Trusts TLC, Rat.java and the getters.')
prop('C21', 'Translational and swept surfaces are built exactly from their two curves',
     'The translational surface of two NURBS curves T and C is S(u, v) = T(u) + C(v) over the product of their domains, with control points and weights to match. The swept surface has, at the requested number of '
     'parameters distributed evenly over the domain of the trajectory T, the section C scaled as requested and placed in the frame of T (tangent, normal x tangent, normal); where T is straight the normal is kept; '
     'its knots are the averaged parameters and the knots of C. A trajectory whose normal turns by exactly a right angle'
     ' from one station to the next is refused. Neither changes the curves, and later changes to a curve or the surface leave the others alone.',
     ['inputs', 'histories'], 'every pair of NURBS curves with any domains, degrees, multiplicities and weights (for sweeps in space), every number of stations and scaling, every history of later operations',
     'The tests build a few surfaces from two fixed curves over [0, 1].',
     ['src/spl/surface_generator.cc', 'src/spl/surface_generator.h', 'src/spl/nurbs_generator.h', 'src/baf/control_point.cc', 'src/baf/knot_vector.cc'],
     [('translational surface', 'src/spl/surface_generator.cc JoinParameterSpaces, JoinPhysicalSpaces'), ('swept surface', 'src/spl/surface_generator.cc GetTransformation, ComputeNormal')],
     'degrees, knots, control points, weights and points of the surface and the curves', SHAPENOTE + ' Sweeps are judged where stations avoid interior knots and the trajectory is clearly curved or straight at all of them.', STORE)

prop('C22', 'Generated squares and random splines are as promised; elements are knot spans',
     'The square generator returns, for every degree p and number of knots >= 2p + 2, the B-spline with uniform clamped knots on [0, 1] in both directions that maps onto [-1, 1] x [-1, 1] with evenly spaced control points. '
     'The random generators return consistent splines of the requested dimensions, with the requested limits as first and last knots, uniform clamped knots, degrees from 1 to the given maximum, points within [-5, 5] and '
     '(for NURBS) weights within [0.1, 2]. The elements of a spline are exactly its non-empty knot spans, in order, per direction, after every history of operations.',
     ['inputs', 'histories'], 'every degree, number of knots, dimension, limits; every random choice; every history of knot operations before elements are listed',
     'The tests look at one square and at a few random splines; random choices differ from run to run.',
     ['src/spl/square_generator.cc', 'src/spl/random_b_spline_generator.h', 'src/spl/random_nurbs_generator.h', 'src/spl/random_spline_utils.h', 'src/util/random.h', 'src/util/element_generator.h', 'src/util/element.h'],
     [('square', 'src/spl/square_generator.cc'), ('random splines', 'src/spl/random_spline_utils.h'), ('elements', 'src/util/element_generator.h')],
     'degrees, knots, control points, weights of generated splines; lists of elements',
     SHAPENOTE.replace('up to 11 stations', 'random splines of degree up to 12 (curves)'), STORE)

prop('C23', 'Projection finds the closest parameter within the tolerance',
     'Projecting a point on a curve or surface returns a parameter inside the domain. When the point lies on the spline, or near it compared to its curvature, and the spline is regular and nearly evenly parametrised, '
     'the returned parameter is that of the closest point of the spline, within the tolerance; for points beyond the end of a curve it is that end. This holds for every parameter domain. The spline is not changed.',
     ['inputs'], 'every such B-spline or NURBS curve (any space dimension) and surface in space, every point near it, every tolerance and scattering',
     'The tests project a few points on two curves and two surfaces.',
     ['src/spl/projection.h', 'src/util/element_generator.h', 'src/util/vector_utils.h'],
     [('iteration', 'src/spl/projection.h ProjectionOnCurve, ProjectionOnSurface'), ('first guess', 'src/spl/projection.h FindInitialValue1D, FindInitialValue2D')],
     'returned parameters',
     SHAPENOTE.replace('up to 11 stations', 'up to 3 interior knots per direction') + ' The specification decides from exact derivatives at samples of every span whether a case falls under the promise (about two thirds of the generated ones do).', STORE)

IGANOTE = ('TLC checks laws of the discretisation (IGALaws: partition of unity, exactness of the Gauss rules, symmetric matrices, kernel, sizes, boundary) on all small shapes, generates histories (IGAGen) that are replayed on the code '
           'of example/iga, and checks every recorded step against IGASys in exact arithmetic (roots to 40 digits). Bounded: 1 to 3 directions, degree up to 5, up to about 30 control points, 1 to 5 integration points per direction. '
           'Generated geometries keep away from the listed findings (derivatives of rational functions with weights other than 1, sides of geometries whose directions differ, second solutions of one problem, time steps that fit '
           'exactly up to rounding, lattices that end behind the last knot by rounding); one fixed scenario per finding watches it. ')
IGASTATE = [('geometries', 'NURBS under analysis'), ('systems', 'matrix and right side of every system under assembly'), ('problems', 'geometry and integration rule')]
prop('C24', 'Isogeometric elements, mappings and functions are right',
     'For every NURBS geometry the elements are the products of its non-empty knot spans, numbered with the first direction fastest; locating a parameter gives the element that contains it; the connectivity of an element lists '
     'exactly the control points whose functions do not vanish on it. The Gauss-Legendre rules with 1 to 5 points integrate polynomials up to degree 2n - 1 exactly. Reference points map linearly into their element; the Jacobian '
     'determinant is the size of the image of the reference cell, and at all integration points of an element the rational basis functions, their derivatives by the parameters and by the coordinates, and the weights are right. '
     'The boundary consists of the 2D sides over the control points with first or last index. Asking changes nothing; inserting a knot first changes the discretisation accordingly.',
     ['inputs', 'histories'], 'every NURBS geometry with 1 to 3 directions, every element, point, integration rule, after every history of knot insertions',
     'The tests look at a few elements of three or four fixed geometries, nearly all with equal directions.',
     ['example/iga/src/element_generator.h', 'example/iga/src/connectivity_handler.h', 'example/iga/src/mapping_handler.h', 'example/iga/src/basis_function_handler.h', 'example/iga/src/itg/integration_rule.h', 'src/spl/nurbs.h'],
     [('elements', 'example/iga/src/element_generator.h'), ('functions', 'example/iga/src/basis_function_handler.h'), ('mapping', 'example/iga/src/mapping_handler.h')],
     'element lists, indices, values at integration points, Jacobians', IGANOTE, IGASTATE)

prop('C25', 'Isogeometric systems are right and solutions solve them',
     'Assembling the left side adds to the matrix the integrals of kappa grad R_i . grad R_j, the right side adds the integrals of R_i times the source, Neumann data add the boundary integrals, in any order and repeatedly; zero and '
     'Dirichlet conditions replace exactly the rows of the boundary control points by x_k = value; a time step gives (A + M/dt) x = b + M/dt x_before with the mass matrix M in a new system and leaves the old one alone. The steady '
     'solution of a Poisson problem solves its system; the unsteady one starts from zero and takes as many steps as fit into the time, each solving its system. The solution spline is the geometry with the solution as one more '
     'coordinate, and the solution file shows the geometry and the solution on the lattice asked for.',
     ['inputs', 'histories'], 'every geometry and integration rule, every order of assembly steps and boundary conditions, every source, conductivity, step size and end time',
     'The tests assemble one or two fixed systems and compare a handful of entries or one solution.',
     ['example/iga/src/linear_equation_assembler.h', 'example/iga/src/element_integral_calculator.h', 'example/iga/src/bdf_handler.h', 'example/iga/src/poisson_problem.h', 'example/iga/src/solution_spline.h', 'example/iga/src/solution_vtk_writer.h'],
     [('assembly', 'example/iga/src/linear_equation_assembler.h, element_integral_calculator.h'), ('time steps', 'example/iga/src/bdf_handler.h'), ('solutions', 'example/iga/src/poisson_problem.h')],
     'matrices, right sides and solutions', IGANOTE + 'Solutions are judged by their residual.', IGASTATE)

prop('C26', 'Parameter spaces and basis functions follow their definition',
     'A parameter space is accepted exactly when its end knots are repeated degree+1 times. After every history of inserting and removing knots, raising and lowering degrees, raising and lowering all multiplicities, and copying, its '
     'degrees and knots are what the history says, and its functions, derivatives of any order, first non-zero functions, tensor products, ranges and domain test are those of the Cox-de Boor definition over the present knots. Knots '
     'divided at a knot of multiplicity degree+1 are exactly the two parts. Spaces are equal exactly when degrees and lengths agree and all knots agree within the tolerance; copies are independent. A single basis function over any '
     'non-decreasing knots has the values and derivatives of the definition at every parameter (zero outside its support); a negative degree is refused.',
     ['inputs', 'histories'], 'every parameter space of 1 to 3 directions, every history of changes, every parameter, function, order of derivative and tolerance; every knot vector, degree and support of a single function',
     'The tests evaluate the functions of a few fixed knot vectors right after construction; none follows a space through changes or over knots that are not clamped.',
     ['src/spl/parameter_space.h', 'src/baf/basis_function.cc', 'src/baf/b_spline_basis_function.cc', 'src/baf/zero_degree_b_spline_basis_function.cc', 'src/baf/basis_function_factory.cc', 'src/baf/knot_vector.cc'],
     [('functions', 'src/baf/b_spline_basis_function.cc'), ('changes of a space', 'src/spl/parameter_space.h InsertKnot, RemoveKnot, ElevateDegree, ReduceDegree, RecreateBasisFunctions')],
     'degrees, knots and function values after each operation',
     'TLC checks laws (partition of unity, sums of derivatives, agreement of the single-function recursion with the span-wise one, division) after all short histories of BasisGen, replays the histories and random walks on the code, and '
     'checks every recorded step against BasisSys in exact arithmetic. Bounded: 1 to 3 directions, degree up to about 8, derivatives up to degree + 1; degree-0 functions over an empty span at the last knot are not judged there.',
     [('spaces', 'degrees and knot vectors of every parameter space')])

prop('C27', 'Control nets hold exactly the points and weights put into them',
     'A control net is accepted exactly when the number of points is the product of its lengths, all points have the same dimension, and (if weighted) there is a weight for each. After every history of writing points and weights '
     '(by the present lengths or those of a direction one longer or shorter), appending and dropping points, changing lengths and copying, each position of the box holds the last point and weight written there, with the first direction '
     'fastest; homogeneous points, divided parts, lengths, highest indices, largest coordinate and distance, and smallest weight are those of the present points. Nets are equal exactly when lengths and dimensions agree and all '
     'numbers agree within the tolerance; copies are independent.',
     ['inputs', 'histories'], 'every net of 1 to 4 directions and any number of coordinates, weighted or not, every history of changes, every index and tolerance',
     'The tests read and write single points of three fixed nets; the claim is about all boxes and all orders of growing, shrinking and writing.',
     ['src/spl/physical_space.h', 'src/spl/weighted_physical_space.h', 'src/util/multi_index_handler.h', 'src/util/vector_utils.h', 'src/baf/control_point.cc'],
     [('points', 'src/spl/physical_space.h'), ('weights', 'src/spl/weighted_physical_space.h')],
     'points, weights and sizes after each operation',
     'TLC checks laws (order of the box, parts add up, the box stays inside the list) on all short histories of NetGen, replays the histories and random walks on the code, and checks every recorded step against NetSys. '
     'Bounded: 1 to 4 directions, up to 24 points, 1 to 4 coordinates, 10 operations.',
     [('nets', 'lengths, points and weights of every control net')])
