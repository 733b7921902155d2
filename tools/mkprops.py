"""writes /verif/properties.jsonl (kept as a program so that the wording stays in one readable place)"""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = hook
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})

BAR = 'panels/core/src/bardell_functions.cpp'
prop('P01', 'Basis functions are the documented hierarchical polynomials',
 'For every basis index below the implemented maximum and every natural coordinate, the value, first and second derivative returned (singly or as a whole vector) equal those of the Bardell hierarchical polynomial of that index. The first four functions are scaled by the translation/rotation flag of their edge and no other function is affected by any flag.',
 ['inputs'], 'all 30 basis indices, all real coordinates, all flag values, both the scalar and the vector interface',
 'the tests evaluate a few panels whose results use a handful of terms at a few points; a wrong coefficient of a high-order term, or of a second derivative, changes nothing they compare',
 [BAR, 'panels/bardell.pyx'], [('f / fp / fpp switch over the index', BAR), ('vec_f / vec_fp / vec_fpp', BAR), ('calc_* wrappers', 'panels/bardell.pyx')])
prop('P02', 'Closed-form integrals equal the integrals of the basis functions',
 'For every pair of basis indices and all edge flags, each closed-form integral of a product of two basis functions or of their first or second derivatives equals the exact integral over the natural domain [-1, 1] to double precision. Pairs whose integral vanishes return exactly zero.',
 ['inputs'], 'all 30x30 index pairs, the six product types, all real edge flags of both factors',
 'the tables hold some 2000 hand-generated coefficients; the tests compare a few with quadrature and the panels analysed use mostly the low-order ones',
 ['panels/core/src/bardell.cpp', 'panels/bardell.pyx'], [('integral_ff, ffp, ffpp, fpfp, fpfpp, fppfpp', 'panels/core/src/bardell.cpp'), ('calc_integral_* wrappers', 'panels/bardell.pyx')])
prop('P03', 'Every Gauss-Legendre rule offered is the Gauss-Legendre rule',
 'For every supported number of points the nodes and weights delivered are those of the Gauss-Legendre rule of that size: nodes are the roots of the Legendre polynomial, inside (-1, 1) and distinct, weights are positive, and polynomials up to degree 2n-1 are integrated exactly to double precision.',
 ['inputs'], 'every number of points from 1 to 64 and every polynomial of degree at most 2n-1',
 'the tests run rules of a few sizes through whole analyses with loose tolerances; each size has its own table of constants',
 ['panels/core/src/legendre_gauss_quadrature.cpp', 'panels/legendre_gauss_quadrature.pyx'],
 [('leggauss_quad table per size', 'panels/core/src/legendre_gauss_quadrature.cpp'), ('get_points_weights wrapper', 'panels/legendre_gauss_quadrature.pyx')])
prop('P04', 'Linear stiffness is the second variation of the laminate strain energy',
 'For plates and cylindrical panels, entry (p, q) of the linear constitutive stiffness matrix is the integral over the panel of strain(p)^T ABD strain(q), with the Donnell strain-displacement relations, for any laminate, size, radius, edge flags and numbers of terms. The analytical and the numerically integrated forms (with one laminate, or one laminate per integration point, over the whole panel or a sub-rectangle) all satisfy this, at any position in a larger assembled matrix.',
 ['inputs', 'configurations'], 'all geometries, symmetric constitutive matrices, edge flags, numbers of terms and integration points, and assembly offsets',
 'tests compare the first buckling loads or frequencies of a few laminates; many coupling terms are zero or negligible there',
 ['panels/models/plate_clpt_donnell_bardell.pyx', 'panels/models/cylshell_clpt_donnell_bardell.pyx', 'panels/models/plate_clpt_donnell_bardell_num.pyx', 'panels/models/cylshell_clpt_donnell_bardell_num.pyx'],
 [('fk0', 'panels/models/plate_clpt_donnell_bardell.pyx and the cylshell twin'), ('fkC_num', 'panels/models/*_num.pyx')], observe=['kC matrix returned by Shell.calc_kC'])
prop('P05', 'Geometric stiffness is the virtual work of the membrane forces on rotations',
 'For plates and cylindrical panels, entry (p, q) of the initial-stress matrix is the integral over the panel of Nxx wx_p wx_q + Nyy wy_p wy_q + Nxy (wx_p wy_q + wy_p wx_q), and all entries not involving two deflections are zero. When it is computed from a displacement state the membrane forces are those of the laminate at the strains of that state (linear or Donnell non-linear) plus any prescribed uniform ones.',
 ['inputs', 'configurations'], 'all membrane force states, displacement vectors, laminates (one, or one per integration point), geometries, edge flags, terms, sub-rectangles and assembly offsets',
 'tests check a few critical loads under uniaxial or shear loading; a wrong factor in the non-linear shear strain or in a rarely used coupling is not visible',
 ['panels/models/plate_clpt_donnell_bardell.pyx', 'panels/models/cylshell_clpt_donnell_bardell.pyx', 'panels/models/plate_clpt_donnell_bardell_num.pyx', 'panels/models/cylshell_clpt_donnell_bardell_num.pyx'],
 [('fkG0', 'panels/models/*_bardell.pyx'), ('fkG_num', 'panels/models/*_num.pyx')], observe=['kG matrix returned by Shell.calc_kG'])
prop('P06', 'Mass matrix is the kinetic energy of the panel including its offset',
 'Entry (p, q) of the mass matrix is the integral over the panel of the product of the two displacement fields through the thickness, with the in-plane displacement at height z equal to the mid-surface one minus z times the slope, the laminate occupying heights offset - h/2 to offset + h/2. The analytical form and the integrated form (one thickness and density, or one pair per integration point) agree with this for both panel types.',
 ['inputs', 'configurations'], 'all thicknesses, densities, offsets of either sign, geometries, edge flags, terms, integration points and assembly offsets',
 'tests compute frequencies of panels without offset, where the coupling terms vanish',
 ['panels/models/plate_clpt_donnell_bardell.pyx', 'panels/models/cylshell_clpt_donnell_bardell.pyx', 'panels/models/plate_clpt_donnell_bardell_num.pyx', 'panels/models/cylshell_clpt_donnell_bardell_num.pyx'],
 [('fkM', 'panels/models/*_bardell.pyx'), ('fkM_num', 'panels/models/*_num.pyx')], observe=['kM matrix returned by Shell.calc_kM'])
prop('P07', 'Aerodynamic matrices follow linear piston theory',
 'For flow along x or y, entry (p, q) of the aerodynamic stiffness is the virtual work on deflection p of the piston-theory pressure of deflection q: the pressure coefficient times the slope along the flow, corrected by the curvature coefficient for flow along x on a curved panel; the damping matrix is the corresponding virtual work of the aerodynamic damping coefficient times the deflection. Where the deflection is free on an edge crossed by the flow, the closed form holds up to the boundary term of the integration by parts.',
 ['inputs', 'configurations'], 'all pressure, curvature and damping coefficients, geometries, edge flags, terms, integration points and assembly offsets',
 'the tests compute two flutter examples along x; the y flow, the curvature term and the damping matrix are hardly or never exercised',
 ['panels/models/plate_clpt_donnell_bardell.pyx', 'panels/models/cylshell_clpt_donnell_bardell.pyx', 'panels/models/plate_clpt_donnell_bardell_num.pyx', 'panels/models/cylshell_clpt_donnell_bardell_num.pyx'],
 [('fkAx, fkAy, fcA', 'panels/models/*_bardell.pyx'), ('fkAx_num, fkAy_num', 'panels/models/*_num.pyx')], observe=['kA matrix returned by Shell.calc_kA'])
prop('P08', 'Internal forces and tangent stiffness derive from one strain energy',
 'For every displacement state the internal force vector is the exact gradient of the discretised (Gauss-integrated) Donnell non-linear strain energy, and the sum of the non-linear constitutive and geometric stiffness matrices is its exact Hessian. This holds for plates and cylindrical panels, with one laminate or one per integration point, over the whole panel or a sub-rectangle.',
 ['inputs', 'configurations', 'histories'], 'all displacement vectors, laminates with any coupling, geometries, edge flags, terms, integration points, sub-rectangles and assembly offsets',
 'tests run one or two converged non-linear solutions of symmetric laminates; an inconsistent term only slows or shifts convergence',
 ['panels/models/plate_clpt_donnell_bardell_num.pyx', 'panels/models/cylshell_clpt_donnell_bardell_num.pyx'],
 [('calc_fint', 'panels/models/*_num.pyx'), ('fkC_num with NLgeom', 'panels/models/*_num.pyx'), ('fkG_num with NLgeom', 'panels/models/*_num.pyx')], observe=['fint and kT returned by Shell'])
prop('P09', 'Recovered displacement, strain and stress fields are those of the Ritz series',
 'At every requested point the displacements, rotations, strains (linear or Donnell non-linear) and stress resultants reported are those of the displacement field defined by the Ritz constants, the edge flags and the panel geometry. Results keep the order and shape of the requested points and do not depend on the number of cores used.',
 ['inputs', 'configurations', 'schedules'], 'all Ritz vectors, point sets, core counts, geometries including curved panels, edge flags and terms',
 'tests check maximum deflections at few points, on one machine, and hardly any strain or stress value',
 ['panels/models/clpt_bardell_field.pyx', 'panels/shell.py'],
 [('fuvw, fstrain and the chunking over cores', 'panels/models/clpt_bardell_field.pyx'), ('Shell.uvw / strain / stress', 'panels/shell.py')], observe=['fields returned by Shell.uvw, strain, stress'])
prop('P10', 'External force vector is the virtual work of the applied loads',
 'The external force vector is the virtual work, for each Ritz term, of all point loads, all loads distributed along lines of constant x or y, and all prescribed displacements expressed through their penalty stiffness; items declared constant enter with factor one and incremented items with the load factor. It is linear in the loads, independent of the order in which they were added, and zero outside the panel\'s own block.',
 ['inputs', 'histories', 'configurations'], 'all sequences of added loads and prescribed displacements (position, components, constant or incremented), load factors, geometries, edge flags, terms and vector offsets',
 'tests use one load kind at a time, mostly constant; mixed sequences and incremented prescribed displacements are not compared term by term',
 ['panels/shell_fext.py', 'panels/shell.py', 'panels/models/clpt_bardell_field.pyx'],
 [('shell_fext', 'panels/shell_fext.py'), ('fg shape functions', 'panels/models/clpt_bardell_field.pyx'), ('add_point_load, add_distr_load_*, add_point_pd, add_distr_pd_*', 'panels/shell.py')],
 state=[('load lists', 'constant and incremented loads and prescribed displacements', 'panels/shell.py')], observe=['vector returned by Shell.calc_fext'])
prop('P11', 'Connections penalise exactly the displacement jump along the connected line',
 'Each connection of two panels adds the stiffness of the penalty energy one half of the translational constant times the squared jump of u, v, w plus one half of the rotational constant times the squared jump of the normal rotation, integrated over the connected line, with the bottom-flange and web kinds exchanging the in-plane and out-of-plane components and the surface kind integrating over the area with the thickness lever arm. Compatible displacement fields therefore cost nothing and every incompatible one costs a positive energy.',
 ['inputs', 'configurations'], 'all connection kinds (side-side and bottom-flange along x or y, skin-base), line positions, penalty constants, pairs of panels with different sizes, terms and edge flags, and assembly offsets',
 'tests connect a few panels along their edges with default flags; positions inside the panel and unequal numbers of terms are rarely used',
 ['panels/multidomain/connections/kCSSxcte.pyx', 'panels/multidomain/connections/kCSSycte.pyx', 'panels/multidomain/connections/kCBFxcte.pyx', 'panels/multidomain/connections/kCBFycte.pyx', 'panels/multidomain/connections/kCSB.pyx'],
 [('fkCSSxcte11/12/22, fkCSSycte.., fkCBFxcte.., fkCBFycte.., fkCSB..', 'panels/multidomain/connections/*.pyx')])
prop('P12', 'Prescribed-displacement penalties act on the displacement they name',
 'The stiffness added for a prescribed displacement at a point, or along a line of constant x or y, is the second variation of one half of the sum of ku u^2, kv v^2 and kw w^2 at that point or integrated along that line, so that together with the matching external force the minimum is reached at the prescribed value as the stiffness grows. The point constraint offered by the panel likewise penalises exactly the selected displacements and rotations.',
 ['inputs', 'configurations'], 'all penalty constants, positions, geometries, edge flags, terms, assembly offsets and selections of constrained components',
 'tests prescribe one transverse displacement and compare one deflection',
 ['panels/multidomain/connections/kCpd.pyx', 'panels/shell.py'],
 [('fkCpd, fkCld_xcte, fkCld_ycte', 'panels/multidomain/connections/kCpd.pyx'), ('Shell.calc_stiffness_point_constraint', 'panels/shell.py')])
prop('P13', 'Assemblies are the sum of their panels plus their connections',
 'In an assembly every panel owns a contiguous block of degrees of freedom in the given order, and each global matrix or vector is the sum of the contributions of the panels evaluated on their own blocks plus those of the connections of each listed pair on the blocks of that pair. The order in which the two panels of a connection are named, repeated calls and calls with other connections do not change what a connection contributes.',
 ['inputs', 'configurations', 'histories', 'programs'], 'all lists of panels and connections, all connection kinds, and all sequences of assembly calls',
 'tests assemble fixed structures once; call sequences, swapped connection order and tangent assembly are not exercised',
 ['panels/multidomain/multidomain.py'],
 [('MultiDomain.__init__ block offsets', 'panels/multidomain/multidomain.py'), ('get_kC_conn', 'panels/multidomain/multidomain.py'), ('calc_kC, calc_kG, calc_kM, calc_kT, calc_fint, calc_fext', 'panels/multidomain/multidomain.py')],
 state=[('kC_conn', 'cached connection stiffness', 'panels/multidomain/multidomain.py'), ('row_start/col_start/row_end/col_end', 'block of each panel', 'panels/multidomain/multidomain.py')])
prop('P14', 'Penalty constants are the documented stiffness averages',
 'The translational and rotational penalty constants of a connection are the documented series averages of the membrane and bending stiffness of both panels in the direction of the connection divided by the mean thickness, the same whichever panel of an edge connection is named first; for faces in contact the translational constant is moreover divided by the shortest edge of the first panel and there is no rotational one. The constants for prescribed displacements are the membrane stiffnesses A11, A22, A11 of the panel, per unit of edge length for line conditions. Unknown connection kinds and unknown traction-separation laws are rejected.',
 ['inputs', 'configurations'], 'all laminates, panel sizes and connection kinds',
 'tests only use the constants inside analyses that are insensitive to their value',
 ['panels/multidomain/connections/penalties.py'],
 [('calc_kt_kr', 'panels/multidomain/connections/penalties.py'), ('calc_ku_kv_kw_point_pd, calc_ku_kv_kw_line_pd_xcte, calc_ku_kv_kw_line_pd_ycte', 'panels/multidomain/connections/penalties.py'), ('calc_kw_tsl', 'panels/multidomain/connections/penalties.py')])
prop('P15', 'Stiffener matrices are the energies of the stiffener attached to the skin',
 'The flange stiffness, initial-stress and mass matrices of a one-dimensional blade are the second variations of its beam strain energy, of its axial-force work and of its kinetic energy with the skin kinematics at the stiffener line; the skin-skin, skin-flange and flange-flange matrices of a two-dimensional blade are those of the penalty energy of the displacement jump between skin and flange along that line.',
 ['inputs', 'configurations'], 'all stiffener positions, dimensions, beam and penalty constants, geometries, edge flags, terms and assembly offsets',
 'tests compute a few stiffened bays with doubly symmetric stiffeners',
 ['panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx', 'panels/stiffener/models/bladestiff2d_clt_donnell_bardell.pyx'],
 [('fkCf, fkGf, fkMf', 'panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx'), ('fkCss, fkCsf, fkCff', 'panels/stiffener/models/bladestiff2d_clt_donnell_bardell.pyx')])
prop('P16', 'No computation reads or writes outside its buffers',
 'For up to 30 terms per direction and up to 64 integration points per direction, every array element read or written by the compiled kernels lies inside the array it belongs to, every sparse triplet gets a row and a column inside the matrix, and no element is used before it is set. Arrays of a wrong size passed by the caller are rejected rather than read out of bounds wherever the documentation promises a check.',
 ['inputs', 'configurations'], 'all numbers of terms and integration points in the supported range, all edge flags, sub-rectangles, core counts and assembly offsets',
 'bounds checks are compiled out; an out-of-range access usually returns plausible memory and the tests use a few sizes',
 ['panels/models/plate_clpt_donnell_bardell.pyx', 'panels/models/cylshell_clpt_donnell_bardell.pyx', 'panels/models/plate_clpt_donnell_bardell_num.pyx', 'panels/models/cylshell_clpt_donnell_bardell_num.pyx', 'panels/models/clpt_bardell_field.pyx', 'panels/multidomain/connections/kCpd.pyx', 'panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx', 'panels/stiffener/models/bladestiff2d_clt_donnell_bardell.pyx'],
 [('buffer allocation and the running slot counter of every kernel', 'panels/models/*.pyx, panels/multidomain/connections/*.pyx, panels/stiffener/models/*.pyx')])
prop('P17', 'Panel methods compute the matrix they name for the options given',
 'For every combination of options (matrix size, offsets, displacement states, integration points, per-point laminates, non-linear flag, uniform loads, symmetrisation), each panel method returns the documented matrix or vector for exactly those options: the matching closed-form or integrated form, the constant pre-stress added only when defined, the upper triangle mirrored when finalised, and the matrix of the right model for plates and for curved panels. Displacement vectors of the wrong type or length are rejected by the stiffness methods.',
 ['inputs', 'configurations', 'histories'], 'all combinations of optional arguments and panel attributes, and any sequence of calls on one panel',
 'tests call each method with one or two option combinations',
 ['panels/shell.py', 'panels/modelDB.py', 'panels/models/__init__.py'],
 [('calc_kC, calc_kG, calc_kT, calc_kM, calc_kA, calc_cA, calc_fint', 'panels/shell.py'), ('_rebuild, get_size, check_c', 'panels/shell.py'), ('model data base', 'panels/modelDB.py')],
 state=[('matrices', 'last matrix of each kind', 'panels/shell.py')])
prop('P18', 'Stiffened bays are the sum of skin panels and stiffeners at their places',
 'Each global matrix of a stiffened bay is the sum of the matrices of its skin panels integrated over their own strips of the skin and of the matrices of its stiffeners, each placed at the degrees of freedom it owns, with skin terms first and the flanges of two-dimensional stiffeners after them in the order they were added. Adding a panel or stiffener with explicit properties uses those, and otherwise the defaults of the bay.',
 ['inputs', 'configurations', 'histories', 'programs'], 'all bays built by any sequence of added panels and stiffeners with any properties',
 'tests build a few bays with one or two stiffeners and compare one eigenvalue',
 ['panels/stiffpanelbay/stiffpanelbay.py', 'panels/stiffener/bladestiff1d.py', 'panels/stiffener/bladestiff2d.py'],
 [('StiffPanelBay.calc_kC, calc_kG, calc_kM, calc_kA, calc_cA, calc_fext, get_size', 'panels/stiffpanelbay/stiffpanelbay.py'), ('BladeStiff1D / BladeStiff2D calc_*', 'panels/stiffener/bladestiff1d.py, panels/stiffener/bladestiff2d.py')])
prop('P19', 'Assembly fields of a group come from each panel\'s own solution block',
 'Displacement, strain and stress fields of a group of an assembly contain, for each panel of the group in order, the field of that panel alone evaluated with its own slice of the global solution on its own grid or on the given points. Panels of other groups are not included and one panel never affects what is reported for another.',
 ['inputs', 'configurations', 'histories'], 'all assemblies, groups, solution vectors, grids and given points',
 'tests look at one group of equal panels',
 ['panels/multidomain/multidomain.py'],
 [('uvw, strain, stress', 'panels/multidomain/multidomain.py'), ('uvw_gauss_points, strain_gauss_points, stress_gauss_points', 'panels/multidomain/multidomain.py')])
prop('P20', 'Iterative and eigenvalue solutions converge to the solutions of the model',
 'Static, non-linear, buckling, frequency and flutter analyses return solutions that satisfy the corresponding discrete equations to the requested tolerance, for every well-posed model.',
 ['inputs', 'histories'], 'all well-posed models and solver settings',
 'tests sample some models; convergence of iterative solvers in floating point cannot be read off any sample',
 ['panels/multidomain/tstiff2d_1stiff_flutter.py', 'panels/multidomain/cylinder.py'],
 [('structsolve solvers called by the multi-domain studies', 'panels/multidomain/*.py')])
prop('P21', 'Saved panels and bays are restored unchanged',
 'Loading a saved panel or bay, by its name with or without the extension, yields an object whose analyses (matrices, forces, fields) '
 'give the same results as before saving, and saving leaves the results of the original unchanged.',
 ['inputs', 'histories'], 'all panels and bays, saved at any point of their life (before or after analyses, again, after changes), under any name not ending with the extension',
 'tests do not save and load; what a save drops shows only in an analysis that needs it',
 ['panels/shell.py', 'panels/stiffpanelbay/stiffpanelbay.py'], [('save / load through pickle', 'panels/shell.py, panels/stiffpanelbay/stiffpanelbay.py')])
prop('P22', 'Ready-made studies analyse the structure they are named after',
 'The ready-made studies (stiffened and unstiffened cylinders, T-stiffened panels with a debond) hand the solvers the stiffness, '
 'geometric stiffness, mass, aerodynamic matrices and load vectors of the documented structure: its panels, supports, connections and '
 'loads, each with the data given for it. Lists of wrong length are rejected.',
 ['inputs'], 'all dimensions, laminates, loads, numbers of terms and integration points, radius given or not, with and without debond',
 'the tests of the studies compare one eigenvalue of one symmetric example, with the same load, laminate and width everywhere',
 ['panels/multidomain/cylinder.py', 'panels/multidomain/cylinder_blade_stiffened.py', 'panels/multidomain/tstiff2d_1stiff_compression.py',
  'panels/multidomain/tstiff2d_1stiff_freq.py', 'panels/multidomain/tstiff2d_1stiff_flutter.py'],
 [('call of structsolve.lb / freq / static / Analysis', 'panels/multidomain/cylinder.py, panels/multidomain/tstiff2d_1stiff_flutter.py')])
with open('/verif/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps(p) + '\n')
