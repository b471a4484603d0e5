"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/gen.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level='model_checking',
         technique='', note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, level=level, technique=technique, note=note))


NOTESTS = 'The existing tests import the msehtt finite-element layer but never run it on a mesh, never use more than ' \
          'one MPI rank and solve a handful of fixed cases; '
EXH = 'bounded exhaustive exploration of the real code: '

prop('P01', 'Discrete exterior derivative is exact and commutes with reduction',
     'On every supported mesh, polynomial degree and orientation the discrete exterior derivative has only entries '
     '-1, 0 and 1, applying it twice gives exactly zero, and the derivative of a constant is zero. For every smooth '
     'field, differentiating the degrees of freedom of the field gives the degrees of freedom of its gradient, curl, '
     'rot or divergence (up to quadrature error), whatever the numbering, rotation or kind of the cells.',
     ['configurations', 'inputs'], 'every mesh kind (quad, triangle, mixed, curved, periodic, 3d), every starting vertex and '
     'vertex numbering of two-cell patches, degrees 1..5 and anisotropic, every form order and orientation',
     NOTESTS + 'exactness has to hold for every orientation pattern of shared faces.',
     ['msehtt/static/space/incidence_matrix', 'msehtt/static/space/reduce', 'msepy/space/incidence_matrix', 'msehtt/static/mesh/great/elements'],
     [['incidence matrices', 'msehtt/static/space/incidence_matrix/Lambda, msepy/space/incidence_matrix'],
      ['dof reversal on shared faces', 'msehtt/static/mesh/great/elements/main.py'], ['coboundary', 'msehtt/static/form/main.py']],
     observe=['form.incidence_matrix', 'form[t].coboundary()', 'form[t].cochain'],
     technique='exhaustive enumeration of mesh/numbering/degree configurations on the real code')

prop('P02', 'Global numbering of degrees of freedom is conforming and complete',
     'The global numbering of degrees of freedom is contiguous from 0, and two local degrees of freedom share a '
     'global number if and only if they are the same functional (value at the same point, or integral over the same '
     'edge or face, with the same sign) on the mesh, periodic identifications included. Chained numberings of several '
     'forms are a one-to-one renumbering of all (form, degree of freedom) pairs, and looking up where a global degree of freedom lives returns '
     'exactly its local positions.',
     ['configurations'], 'every mesh of the families, every degree, every form order and orientation, every pair of chained forms',
     NOTESTS + 'a numbering error only shows for particular vertex numberings, cell types or refinement patterns.',
     ['msehtt/static/space/gathering_matrix', 'msehtt/tools/gathering_matrix.py', 'msepy/space/gathering_matrix', 'msepy/tools/gathering_matrix.py'],
     [['gathering matrices', 'msehtt/static/space/gathering_matrix/Lambda'], ['chained gathering matrix', 'msehtt/tools/gathering_matrix.py']],
     observe=['form.cochain.gathering_matrix', 'space.gathering_matrix(degree)'],
     technique='exhaustive enumeration of configurations; numbering compared with functional signatures from generic fields')

prop('P03', 'Reconstruction inverts reduction and reproduces polynomials',
     'Reducing a reconstructed discrete form gives back its degrees of freedom for every cochain, and reconstructing '
     'a reduced field reproduces the field exactly whenever the field lies in the discrete space. The reconstruction '
     'matrix, the reconstruction at arbitrary points and the interpolated numerical fields all agree with it.',
     ['configurations', 'inputs'], 'every basis cochain of every local space on every cell kind, degree, form order and orientation',
     NOTESTS + 'the identity is linear, so checking each basis cochain decides it for all cochains of that space.',
     ['msehtt/static/space/reconstruct', 'msehtt/static/space/reduce', 'msehtt/static/space/reconstruction_matrix', 'msepy/space/reconstruct', 'msepy/space/reduce'],
     [['reconstruct', 'msehtt/static/space/reconstruct/Lambda'], ['reduce', 'msehtt/static/space/reduce/Lambda']],
     observe=['form[t].reconstruct', 'form[t].reduce', 'form.reconstruction_matrix'],
     technique='exhaustive enumeration of basis cochains and configurations on the real code')

prop('P04', 'Mass matrices, inner products, norms and errors are the L2 ones',
     'The mass matrix of every cell is symmetric positive definite and equals the integral of products of the '
     'reconstructed basis forms over the cell (up to the documented quadrature); norm, error, total mass and inner '
     'products of discrete forms equal the corresponding integrals of the reconstructed fields. None of this depends '
     'on which cells were treated before in the same process.',
     ['configurations', 'inputs'], 'every cell kind and shape family, degree, form order and orientation, with independent quadrature and numerically differentiated mappings',
     NOTESTS + 'cells share cached data by a rounded geometric signature, so an error needs particular pairs of shapes.',
     ['msehtt/static/space/mass_matrix', 'msehtt/static/space/norm', 'msehtt/static/space/error', 'msehtt/static/space/mass', 'msehtt/static/space/inner_product', 'msehtt/static/mesh/great/elements/types', 'msepy/space/mass_matrix'],
     [['mass matrices', 'msehtt/static/space/mass_matrix/Lambda'], ['metric signatures', 'msehtt/static/mesh/great/elements/types']],
     observe=['space.mass_matrix(degree)', 'form[t].norm()', 'form[t].error()'],
     technique='exhaustive enumeration of cell shapes, pairs of shapes, degrees and forms against independent quadrature')

prop('P05', 'Boundary sections, boundary dofs and boundary integrals are exact',
     'The selectable boundary sections partition the mesh boundary exactly as their criteria say, and the degrees of '
     'freedom reported on a section are exactly those whose geometric support lies in it. Boundary conditions reduced '
     'on a section and natural boundary integrals equal the integrals over that section, so the discrete Stokes and '
     'integration-by-parts identities hold.',
     ['configurations', 'inputs'], 'every mesh family, every subset of the sides as a section, every section criterion, degree and form order',
     NOTESTS + 'boundary handling depends on which sides are selected together and on cell orientation.',
     ['msehtt/static/mesh/partial/boundary_section', 'msehtt/static/space/local_dofs', 'msehtt/static/form/addons', 'msepy/mesh/boundary_section', 'msepy/form/boundary_integrate.py'],
     [['boundary section', 'msehtt/static/mesh/partial/boundary_section/main.py'], ['find dofs', 'msehtt/static/space/local_dofs']],
     observe=['boundary section faces', 'find_boundary_objects', 'norm over section'],
     technique='exhaustive enumeration of sections (all subsets of sides) and configurations')

prop('P06', 'Results do not depend on the number of MPI processes',
     'Running the same program on any number of processes gives the same mesh, numbering-invariant quantities, '
     'boundary sections, assembled system and solution as on one process. Collective operations never deadlock.',
     ['configurations', 'schedules'], 'process counts 1..4 (and more in the thorough tier) x meshes (periodic, curved, triangles, refined) x degrees x boundary sections x programs (spaces, mixed problems, flows, saving and reading, values)',
     'All existing tests run on a single process.',
     ['msehtt/static/mesh/great/elements/main.py', 'msehtt/tools', 'msehtt/static/space/gathering_matrix', 'tools/matrix', 'msehtt/adaptive'],
     [['distribution of elements', 'msehtt/static/mesh/great/main.py'], ['global matrices', 'msehtt/tools/matrix/static/global_.py']],
     observe=['element distribution', 'assembled matrix', 'solution norms'],
     technique='exhaustive enumeration of process counts x meshes x programs; every collective call of all ranks is matched by a controlled hub, results compared with one process')

prop('P07', 'Refinement and renewal keep the domain and the fields',
     'Every mesh refinement (splitting levels, triangulation, threshold refinement, multigrid levels) tiles exactly '
     'the domain of its base mesh with positively oriented cells and matching faces. Transferring a form between '
     'meshes or levels reproduces fields that both discrete spaces contain and never alters the source form.',
     ['histories', 'configurations'], 'all refinement histories up to depth 3 over the threshold patterns of small base meshes; all multigrid levels',
     NOTESTS + 'no test refines a mesh or renews a form.',
     ['msehtt/static/mesh/great/config', 'msehtt/adaptive', 'msehtt/multigrid'],
     [['refinement configs', 'msehtt/static/mesh/great/config'], ['renew', 'msehtt/adaptive/form/renew']],
     observe=['elements and ct', 'renewed form reconstruction'],
     technique='explicit enumeration of refinement histories on the real code')

prop('P08', 'Symbolic operators are well typed',
     'For every pair of spaces, applying a symbolic operator (exterior derivative, codifferential, Hodge star, wedge, '
     'cross product, convection, tensor product, inner and duality pairings, trace, time derivative, addition) either '
     'refuses or produces a form in exactly the space the calculus prescribes (order, orientation, base mesh). Equal '
     'constructions give equal forms, distinct ones distinct forms, and numeric factors are carried unchanged.',
     ['programs'], 'every operator on every pair of spaces in 1, 2 and 3 dimensions, compositions up to depth 3',
     'The tests build a few equations; the typing rules concern every combination of operands.',
     ['src/spaces', 'src/form', 'src/operators'] if False else ['src/spaces', 'src/form'],
     [['operators', 'src/spaces/operators.py'], ['forms', 'src/form/main.py']],
     observe=['form.space', 'accept or refuse'],
     technique='exhaustive BFS over operator compositions against a reference typing calculus')

prop('P09', 'Deriving a weak formulation preserves the equation',
     'Every sequence of weak-form derivation steps (moving terms, splitting, rearranging, replacing, integrating by '
     'parts, deleting by criterion) keeps the equation equivalent: the signed multiset of terms on both sides changes '
     'only as the step states. A step that does not apply refuses and leaves the formulation unchanged.',
     ['programs', 'histories'], 'all sequences of derivation steps up to depth 3-4 over several weak formulations',
     'Tests follow one fixed derivation per equation.',
     ['src/wf', 'src/pde.py'], [['derive', 'src/wf/derive.py'], ['terms', 'src/wf/term']],
     observe=['weak formulation dictionary'],
     technique='explicit-state BFS over derivation steps with a semantic evaluation of every reached formulation')

prop('P10', 'Temporal discretisation of weak formulations is consistent',
     'For every choice of time points the time derivative becomes the exact difference quotient between those points '
     'and the averages evaluate to the exact mean; every other form appears at exactly the requested instant. '
     'Discretising and solving time-dependent linear and nonlinear problems gives the values of the scheme to solver accuracy.',
     ['programs', 'configurations'], 'all start/end/evaluation point choices on constant and multi-interval time sequences; several odes and pdes',
     'Tests use one scheme (midpoint) on a handful of equations.',
     ['src/ode', 'src/wf/td.py', 'src/time_sequence.py'], [['temporal discretisation', 'src/wf/td.py'], ['ode', 'src/ode']],
     observe=['discretised terms and coefficients'],
     technique='exhaustive enumeration of discretisation programs with exact evaluation of the result')

prop('P11', 'The matrix proxy represents the weak formulation faithfully',
     'Turning a weak formulation into algebraic form, matrix proxy and linear or nonlinear system places every term '
     'exactly once, in the block row of its test form and the block column of its unknown, with its sign and '
     'coefficient; known terms go to the right-hand side with the opposite sign. Evaluating the system at any '
     'cochains gives the residual of the weak formulation.',
     ['programs', 'inputs'], 'all small weak formulations generated from a grammar of terms, signs, factors and sides',
     'Tests check a few fixed systems.',
     ['src/wf/ap', 'src/wf/mp', 'src/algebra'], [['algebraic proxy', 'src/wf/ap'], ['matrix proxy', 'src/wf/mp']],
     observe=['A, x, b of the system'],
     technique='exhaustive enumeration of weak formulations up to a size bound with an independent dense residual')

prop('P12', 'Matrix algebra, assembly and boundary customisation equal dense algebra',
     'Sums, products, transposes, scalings, inverses, block arrangements and assembly of cell-wise matrices and '
     'vectors equal the same operations on dense arrays, in any order and however often they are repeated. '
     'Imposing values, pinning a row or strong boundary conditions changes exactly the rows, columns and entries concerned.',
     ['histories', 'inputs'], 'all operation sequences up to depth 3-4 over the matrix and vector operations on small meshes',
     'Tests never observe intermediate matrices.',
     ['msehtt/tools', 'msepy/tools'], [['local matrix', 'msehtt/tools/matrix/static/local.py'], ['linear system', 'msehtt/tools/linear_system'], ['customize', 'msehtt/tools/matrix/static']],
     observe=['local matrices', 'assembled matrices'],
     technique='explicit-state BFS over operation sequences against a dense model')

prop('P13', 'Linear solvers return the solution or say they did not',
     'Every linear solver offered (direct, GMRES, LGMRES, least squares, with their options and preconditioners) returns a '
     'solution whose residual meets its tolerance, or reports that it has not converged; every cycle of the restarted Krylov '
     'solvers minimises the residual over its (augmented) Krylov space. A solver changes neither the system nor the first guess '
     'given to it, the first guess used is the one given, the system solved is the assembled one, the solution is distributed to '
     'the right unknowns, and solving twice gives the same result.',
     ['configurations', 'inputs'], 'every solver x options x all small integer systems and structured larger ones x first guesses x number of cycles',
     'The tests use one or two solvers on a few systems.',
     ['msehtt/tools/linear_system', 'msepy/tools/linear_system'],
     [['solvers', 'msehtt/tools/linear_system']], observe=['solver result and message'],
     technique='exhaustive enumeration of solver x option x system configurations')

prop('P14', 'Nonlinear operators and their derivatives are consistent',
     'Every multi-linear operator evaluated as array, vector, matrix or reduced with known factors gives the same '
     'number, namely the integral it denotes; the derivative matrices used by the nonlinear solvers are the exact '
     'derivatives. The nonlinear solvers return a root of the system to tolerance, or report that they did not.',
     ['configurations', 'inputs'], 'every operator x form orders x orientation x mesh x degree x choice of known factors; Newton and Picard from several guesses',
     NOTESTS + 'no test differentiates an operator.',
     ['msehtt/static/form/addons/noc', 'msehtt/static/form/addons/nop_data_computer', 'msehtt/tools/nonlinear_system', 'msepy/form/addons/noc', 'msepy/tools/nonlinear_system'],
     [['data computers', 'msehtt/static/form/addons/nop_data_computer'], ['nonlinear operators', 'msehtt/static/form/addons/noc']],
     observe=['operator arrays, vectors, matrices'],
     technique='exhaustive enumeration of operators, factor choices and basis cochains against independent quadrature')

prop('P15', 'The history of cochains of a form behaves as a time-indexed store',
     'Setting, reading, overwriting and cleaning the coefficients of a form at time instants behaves as a map from '
     'time to coefficients with a newest entry, for every sequence of operations. Derived quantities (reconstruction, '
     'norm, interpolation, shifted-time forms) always reflect the current coefficients of the instant asked for.',
     ['histories'], 'all operation sequences up to depth 4-5 over set/reduce/read/overwrite/clean/derive on two instants and more',
     'Tests set each instant once, in increasing order.',
     ['msehtt/static/form/cochain', 'msehtt/static/form', 'msepy/form/cochain', 'msehtt/static/form/numeric'],
     [['cochain', 'msehtt/static/form/cochain']], observe=['form.cochain', 'form[t]'],
     technique='explicit-state BFS over operation sequences against a dictionary model')

prop('P16', 'An interrupted iteration resumes without losing or repeating steps',
     'If a run of the iterator is killed at any point, restarting it continues from recorded results such that the '
     'final record equals that of an uninterrupted run: no step lost, repeated or mixed with another. The record on '
     'disk is always a valid one from before or after the step in progress.',
     ['crash_points', 'histories'], 'a crash at every file operation and every torn prefix of every write, at every step of the run, then restart; double crashes',
     'No test interrupts a run.',
     ['tools/iterator'], [['iterator', 'tools/iterator/main.py']], observe=['csv and cache files', 'iterator results'],
     level='fault_enumeration', technique='exhaustive crash-point and torn-write enumeration, then restart of the real code')

prop('P17', 'Saving and reading gives back the same objects',
     'Saving forms, time histories and other objects and reading them, in the same or in a fresh process, gives back '
     'exactly the same coefficients at the same instants for every mesh, degree and number of forms in a file. '
     'Reading data saved on a different mesh or degree refuses or interpolates, and never silently mixes degrees of freedom.',
     ['histories', 'configurations'], 'all save/modify/read sequences up to depth 3 on several meshes, degrees, sets of forms',
     'Tests never read back what they save.',
     ['src/algebra', 'tools/save.py', 'tools/read.py'] if False else ['tools', 'msehtt/static/form', 'msepy/form'],
     [['save and read', 'tools']], observe=['cochain after read'],
     technique='explicit-state enumeration of save/read sequences on the real code')

prop('P18', 'Quadratures and basis functions are exact to their order',
     'Every quadrature rule integrates polynomials exactly up to its order, with points in the interval and positive '
     'weights, and every nodal basis interpolates and every edge basis integrates to the Kronecker delta. Derivatives '
     'of node polynomials are the stated combinations of edge polynomials for every degree and node distribution.',
     ['inputs', 'configurations'], 'every rule and basis kind for every degree 1..20 and all monomials up to the order bound',
     'Doctests print a few values of low degree.',
     ['tools/quadrature.py', 'src/spaces/basis'] if False else ['tools/quadrature.py', 'tools'], [['quadrature', 'tools/quadrature.py']],
     observe=['nodes, weights, basis values'],
     technique='exhaustive enumeration of rules, degrees and monomials')

prop('P19', 'Differential calculus on continuous fields is correct',
     'Gradient, curl, rot, divergence, Hodge-adjusted exterior derivative and codifferential, dot, cross and tensor '
     'products, convection, time derivative and arithmetic of continuous fields equal the analytic ones at every '
     'point and time, in 2 and 3 dimensions. Vector-calculus identities hold for every composition.',
     ['programs', 'inputs'], 'every operator composition up to depth 2-3 on a base of fields, compared with symbolic differentiation',
     'The self-checks of the tests print without comparing most operators.',
     ['tools/functions', 'src/vc', 'tools/numerical'] if False else ['tools/functions', 'tools/numerical'],
     [['field functions', 'tools/functions/time_space']], observe=['values of the composed fields'],
     technique='exhaustive enumeration of operator compositions against symbolic differentiation')

prop('P20', 'Time sequences give exact and consistent instants',
     'A constant-interval time sequence built from any admissible choice of its parameters has the stated start, end, '
     'step and number of steps, and every symbolic instant and interval evaluates to exactly the corresponding '
     'combination of its instants. Inconsistent parameters and undefined instants are refused.',
     ['inputs', 'programs'], 'all parameter combinations on small integer grids, all symbolic time expressions up to a bound',
     'Doctests sample two sequences.',
     ['src/time_sequence.py'], [['time sequence', 'src/time_sequence.py']], observe=['instants and intervals'],
     technique='exhaustive enumeration of parameters and expressions')

prop('P22', 'Caches never change a result',
     'What any call returns depends only on its arguments and the current state, not on which other meshes, forms or '
     'degrees were used, created or deleted before in the process, nor on whether it was called before. Data handed '
     'out earlier does not change later, and changing an argument array afterwards does not change later results.',
     ['histories'], 'all histories of two to three builds/calls over a set of meshes and calls, each compared with a fresh process',
     'Each test runs one mesh in one process.',
     ['tools/frozen.py', 'tools/miscellaneous/ndarray_cache.py', 'msehtt/static/space', 'msehtt/static/mesh/great/elements/types'],
     [['module-level caches', 'msehtt/static/space'], ['array-keyed cache', 'tools/miscellaneous/ndarray_cache.py']],
     observe=['any numerical result, compared with a fresh process'],
     technique='explicit enumeration of call histories, each compared with a fresh process')

prop('P23', 'Solving a problem with an exact discrete solution returns it',
     'For every mesh, degree, orientation, formulation and every admissible mix of essential and natural boundary '
     'conditions, a problem whose exact solution lies in the discrete spaces is solved to that solution, and '
     'conservation laws of the discretisation (mass, divergence-free constraint, energy balance) hold to solver accuracy.',
     ['configurations'], 'every combination of boundary condition per side x mesh x degree x orientation x formulation',
     'Tests solve one combination per formulation.',
     ['msehtt', 'msepy', 'src'], [['whole pipeline', 'src/wf to msehtt/tools']], observe=['solution errors'],
     technique='exhaustive enumeration of boundary-condition combinations and configurations end to end')

prop('P24', 'Coordinate transformations are consistent',
     'For every cell and boundary face the reported Jacobian matrix, its inverse, determinant and metric are the '
     'derivatives of the reported mapping at every point, the mapping takes corners to vertices, neighbouring cells '
     'agree on their shared face, and outward unit normals are unit, orthogonal to the face and point outwards.',
     ['configurations', 'inputs'], 'every cell kind and mesh of the families x a grid of reference points incl. the boundary',
     NOTESTS + 'an error in one cell kind or one derivative component is not exercised.',
     ['msehtt/static/mesh/great/elements/types', 'msepy/manifold', 'msepy/mesh', 'tools/functions'],
     [['coordinate transformations', 'msehtt/static/mesh/great/elements/types'], ['predefined domains', 'msepy/manifold/predefined']],
     observe=['element.ct', 'face.ct'],
     technique='exhaustive enumeration of cells, faces and reference points against numerical differentiation')

prop('P25', 'Region-wise data sets compute like the fields they sample',
     'Sums, differences, multiples, powers, dot and cross products, norms and maxima of region-wise data sets act point by point on their values, '
     'keep their points, and leave the operands unchanged; data on other points or of another kind are refused. The stream function of a sampled velocity has '
     'that velocity as its derivatives and one value wherever regions meet, from every starting corner; interpolation reproduces linear data.',
     ['inputs', 'configurations'], 'all sequences of operations on scalar, vector and tensor data in 2d and 3d; all arrangements, orders and orientations of regions',
     NOTESTS + 'no test computes with region-wise data.',
     ['tools/dds/region_wise_structured.py', 'tools/dds/region_wise_structured_group.py', 'msehtt/static/form/numeric/main.py'],
     [['operations', 'tools/dds/region_wise_structured.py'], ['stream function', 'tools/dds/region_wise_structured.py']],
     observe=['form.numeric.rws', 'dds.streamfunction', 'dds.interpolate'],
     technique='exhaustive enumeration of operation sequences and of arrangements of regions on the real code')


def main():
    built = set()
    cdir = os.path.join(ROOT, 'mc', 'checks')
    for p in P:
        if os.path.exists(os.path.join(cdir, p['id'].lower() + '.py')):
            built.add(p['id'])
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            anchors = dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']])
            if p['observe']:
                anchors['observe_at'] = list(p['observe'])
            anchors['hook_needed'] = None
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                    anchors=anchors)) + '\n')
    man = dict(version=1, setup_cmd='true',
               hooks=dict(guard='PHYEM_VERIF_HOOKS', enable='no hooks are used: every check drives the public interface',
                          source_commits=[]),
               checks=[dict(property=p['id'], quick_cmd=f"./run.sh {p['id']} --tier quick",
                            thorough_cmd=f"./run.sh {p['id']} --tier thorough",
                            technique=p['technique'], level=p['level'],
                            level_note=p['note'] or 'bounded: complete enumeration within the stated bounds, on the real code')
                       for p in P if p['id'] in built],
               not_applicable=[dict(property=p['id'], reason='check not built yet') for p in P if p['id'] not in built])
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print('claimed', sorted(built), 'not', [p['id'] for p in P if p['id'] not in built])


main()
