#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables below."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, state=(), technique=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b) for a, b in state], observe_at=[observe], hook_needed=None),
                  note=note, technique=technique))


STORE = [('store of spline objects', 'degrees, knot vectors, control points and weights of every live object, read through the public getters')]
SPLNOTE = ('TLC checks the design model (exact rational arithmetic) and every recorded step of the real code against the '
           'specification SplineSys; histories are generated by TLC from SplineGen (random walks and all short histories). '
           'Bounded: parametric dimension 1-4, degree up to 10, at most about 12 operations per history. Trusts TLC, the exact '
           'arithmetic override Rat.java and the public getters; results may differ from the exact ones by a relative 1e-9.')

prop('C01', 'Knot insertion and refinement never change the geometry',
     'Inserting a knot strictly inside the parameter domain any number of times (up to multiplicity degree+1), or refining with a list of such '
     'knots, leaves every point of a B-spline or NURBS of any parametric dimension where it was, up to rounding. Afterwards the knot vector of '
     'that direction is the old one plus exactly the inserted knots, in order, the other directions are unchanged, and the control points are '
     'the unique ones that represent the same geometry over the new knots.',
     ['inputs', 'histories'], 'every spline (degrees, knot multiplicities, weights, any parametric dimension), every direction and knot, every preceding history of operations',
     'The tests insert a few fixed knots into a few fixed curves, surfaces and one solid; the claim is about all degrees, multiplicities, weights, directions and preceding operations.',
     ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/parameter_space.h', 'src/spl/physical_space.h', 'src/spl/weighted_physical_space.h', 'src/baf/knot_vector.cc'],
     [('knot insertion and refinement', 'src/spl/spline.h InsertKnot, RefineKnots'), ('new control points', 'src/spl/b_spline.h, src/spl/nurbs.h SetNewControlPoint')],
     'degrees, knots, control points, weights and evaluated points after each operation', SPLNOTE, STORE)

prop('C02', 'Knot removal reports what it removed and stays within the tolerance',
     'Removing a knot takes away as many copies as it reports, at most as many as were asked for and as exist strictly inside the domain, and '
     'moves no point of the spline by more than the tolerance per removed copy; when it reports zero, the spline is unchanged. A knot whose '
     'removal would keep the geometry (in particular one that was just inserted) is removed.',
     ['inputs', 'histories'], 'every spline, direction, knot (present or not, interior or end), number of removals and tolerance, after every history of operations',
     'The tests remove a few hand-computed knots; they reach neither knots of high multiplicity, absent and end knots, NURBS with spread weights nor removal after other operations.',
     ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/physical_space.h', 'src/spl/parameter_space.h', 'src/baf/knot_vector.cc'],
     [('knot removal', 'src/spl/spline.h RemoveKnot'), ('tolerance test', 'src/spl/b_spline.h, src/spl/nurbs.h RemoveKnot helpers')],
     'return value, knots, control points and evaluated points before and after', SPLNOTE, STORE)

prop('C03', 'Degree elevation keeps the geometry and raises one degree by one',
     'Elevating the degree of one direction raises exactly this degree by one and leaves every point of the B-spline or NURBS where it was, up to '
     'rounding, for any spline whose interior knots have at most multiplicity degree. No knot value appears or disappears, end knots gain '
     'exactly one copy, interior knots at least one, and the other directions are unchanged.',
     ['inputs', 'histories'], 'every spline, every direction, every number of elevations, after every history of operations',
     'The tests elevate single splines with few interior knots; the Bezier decomposition behind it behaves differently for every combination of degree, multiplicity, number of spans and direction.',
     ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/parameter_space.h', 'src/spl/physical_space.h'],
     [('degree elevation', 'src/spl/spline.h ElevateDegree and its Bezier helpers'), ('knot bookkeeping', 'src/spl/parameter_space.h ElevateDegree')],
     'degrees, knots, control points and evaluated points before and after', SPLNOTE, STORE)

prop('C04', 'Degree reduction succeeds exactly within the tolerance',
     'Reducing the degree of one direction (at least 2) of a B-spline or NURBS either reports success and then lowers exactly this degree by one '
     'and moves the spline by at most the tolerance, or reports failure and leaves degree and geometry as they were. A spline that a lower '
     'degree represents exactly, such as one whose degree was just elevated, is always reduced.',
     ['inputs', 'histories'], 'every spline, direction and tolerance, after every history of operations',
     'The tests reduce a handful of fixed splines; success, failure and the state after a failure depend on degree, multiplicities, tolerance and which of several Bezier segments fails.',
     ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/parameter_space.h', 'src/spl/physical_space.h'],
     [('degree reduction', 'src/spl/spline.h ReduceDegree and its Bezier helpers')],
     'return value, degrees, knots, control points and evaluated points before and after', SPLNOTE, STORE)

prop('C05', 'Subdivision yields two splines which are exactly the two parts',
     'Subdividing a spline at a parameter strictly inside the domain yields two splines over the parts of the parameter range left and right of it '
     'which map every parameter to the same point as the original did, have the same degrees, and have end knots of full multiplicity at the cut. '
     'The original keeps its geometry, and the two parts are independent of it and of each other.',
     ['inputs', 'histories'], 'every spline, direction and interior parameter (knot or not), repeated subdivision of parts included',
     'The tests split a few fixed splines at one parameter; direction, multiplicity at the cut and repeated splitting are not covered.',
     ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/parameter_space.h', 'src/spl/physical_space.h', 'src/spl/weighted_physical_space.h'],
     [('subdivision', 'src/spl/b_spline.h, src/spl/nurbs.h SudivideSpline'), ('cutting knots and control points', 'src/spl/parameter_space.h GetDividedKnotVectors, physical spaces DivideControlPoints')],
     'state of the original and of both parts, evaluated points', SPLNOTE, STORE)

prop('C06', 'Evaluation agrees with the mathematical definition',
     'Evaluating a B-spline or NURBS at any parameter of its domain, including knots of any multiplicity and both ends, returns for each requested '
     'coordinate the value of the (rational) spline defined by its degrees, knots, control points and weights, up to rounding. The same holds for '
     'the non-zero basis functions at a parameter, the homogeneous control points, the knot ranges and the bounding size it reports.',
     ['inputs', 'histories'], 'every spline, every parameter in the domain, every list of requested coordinates, after every history of operations',
     'The tests compare a few dozen values of fixed splines.',
     ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/parameter_space.h', 'src/baf/b_spline_basis_function.cc', 'src/baf/zero_degree_b_spline_basis_function.cc', 'src/baf/basis_function_factory.cc', 'src/baf/knot_vector.cc'],
     [('evaluation', 'src/spl/spline.h Evaluate'), ('basis functions', 'src/baf/*basis_function*.cc'), ('span search', 'src/baf/knot_vector.cc GetKnotSpan')],
     'values returned by evaluation and basis function queries', SPLNOTE, STORE)

prop('C07', 'Derivatives agree with the mathematical definition',
     'Any partial or mixed derivative of a B-spline or NURBS, of any order and at any parameter of its domain, equals the derivative of the '
     'spline (from the right at knots, from the left at the end of the domain) up to rounding; orders above the degree of a B-spline give zero. The same holds for '
     'derivatives of basis functions.',
     ['inputs', 'histories'], 'every spline, parameter, derivative order per direction and requested coordinates',
     'The tests compare fixed values, mostly of first and second order; the rational quotient rule in several directions is recursive and hardly sampled.',
     ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/parameter_space.h', 'src/baf/b_spline_basis_function.cc', 'src/baf/zero_degree_b_spline_basis_function.cc'],
     [('derivatives', 'src/spl/spline.h EvaluateDerivative, src/spl/nurbs.h rational derivative'), ('basis function derivatives', 'src/baf/basis_function.cc, b_spline_basis_function.cc')],
     'values returned by derivative queries', SPLNOTE, STORE)

prop('C08', 'Inconsistent splines and parameters outside the domain are rejected',
     'Constructing a B-spline or NURBS from knot vectors, degrees, control points and weights throws exactly when they do not fit together: too few knots, '
     'end knots that are not repeated degree+1 times, a wrong number of control points or weights, or control points of different dimension. '
     'Evaluating or differentiating throws exactly when a parameter lies outside the domain, and a rejected call changes no object.',
     ['inputs', 'configurations'], 'every combination of constructor arguments (direct and through generators), every parameter inside and outside the domain',
     'The tests try a few wrong arguments for one dimension.',
     ['src/spl/parameter_space.h', 'src/spl/physical_space.h', 'src/spl/weighted_physical_space.h', 'src/spl/spline.h', 'src/spl/b_spline_generator.h', 'src/spl/nurbs_generator.h'],
     [('validation in constructors', 'src/spl/parameter_space.h ThrowIf..., physical spaces, generators'), ('domain test', 'src/spl/spline.h ThrowIfParametricCoordinateOutsideKnotVectorRange')],
     'exceptions and state of constructed objects', SPLNOTE, STORE)

prop('C09', 'Spline objects are independent of each other and of their sources',
     'After any history of creating, copying, subdividing, changing and destroying splines, an operation on one spline changes no other spline, '
     'and a copy equals its source at the time of copying. Changing the knot vectors or control points passed to a constructor or generator '
     'afterwards changes no spline, and a NURBS made from another NURBS and new control points has the same knots and weights and exactly these points.',
     ['histories'], 'every history over several spline objects and their constructor arguments',
     'Aliasing shows only in sequences of operations on several objects; the tests change a copy at most once.',
     ['src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/parameter_space.h', 'src/spl/physical_space.h', 'src/spl/weighted_physical_space.h', 'src/spl/b_spline_generator.h', 'src/spl/nurbs_generator.h', 'src/baf/knot_vector.cc'],
     [('copy constructors and shared pointers', 'src/spl/*.h'), ('generators', 'src/spl/b_spline_generator.h, src/spl/nurbs_generator.h')],
     'projected state of all objects after every operation', SPLNOTE, STORE)

prop('C10', 'Equality predicates decide equality within the given tolerance',
     'Comparing two splines for equality answers true exactly when degrees, numbers of knots and points agree and all knots, control points and '
     'weights agree within the tolerance; the answer is symmetric and a copy equals its source. Comparing them geometrically answers true for '
     'splines that map all parameters to points within the tolerance, in whatever representation, and false for splines that differ by more in most of the domain.',
     ['inputs', 'histories'], 'every pair of splines of the same dimension and kind over the same parameter range, every tolerance, differences in every single knot, coordinate and weight',
     'The tests compare few pairs and few tolerances.',
     ['src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/spline.h', 'src/spl/parameter_space.h', 'src/spl/physical_space.h', 'src/spl/weighted_physical_space.h', 'src/baf/knot_vector.cc', 'src/util/numeric_settings.h'],
     [('exact comparison', 'AreEqual of splines and spaces'), ('geometric comparison', 'src/spl/b_spline.h, nurbs.h AreGeometricallyEqual')],
     'answers of the predicates', SPLNOTE, STORE)

prop('C11', 'Every history of spline operations keeps geometry and structure',
     'After any sequence of knot insertion, refinement, removal, degree elevation, degree reduction, subdivision, copying and destruction within their '
     'preconditions, every live spline still represents the geometry it started with, within the sum of the tolerances given to removals and '
     'reductions. Its structure stays valid: non-decreasing clamped knots, matching numbers of control points and weights, finite numbers, and no operation crashes or hangs.',
     ['histories'], 'all histories of operations over several splines',
     'Tests run one or two operations on a fresh spline; interactions between operations are not sampled.',
     ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/parameter_space.h', 'src/spl/physical_space.h', 'src/spl/weighted_physical_space.h', 'src/baf/knot_vector.cc'],
     [('all mutating operations', 'src/spl/spline.h')],
     'projected state of all objects and evaluated points after every operation', SPLNOTE, STORE)

exec(open(os.path.join(V, 'tools', 'meta_more.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ('note', 'technique')}) + '\n')
m = dict(version=1, setup_cmd='python3 check.py --setup',
         hooks=dict(guard='none', enable='no hooks: the drivers use the public interface of /repo only', source_commits=[]),
         checks=[dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
                      thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                      technique=p['technique'] or 'TLA+ specification checked with TLC; TLC-generated histories replayed on the code, recorded traces validated by TLC',
                      level='model_checking', level_note=p['note']) for p in P if p['note']],
         not_applicable=NOT_APPLICABLE,
         notes='Specifications in spec/, drivers in harness/, generators and runner in lib/ and check.py; see DESIGN.md.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
