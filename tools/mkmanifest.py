"""Writes MANIFEST.json.  python3 tools/mkmanifest.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]

COMMON = ('Unbounded in the inputs: every size, number of terms, flag, laminate and number of points is symbolic; '
          'loops are cut by summation and frame contracts. Real arithmetic stands for machine floats and mathematical '
          'integers for C int; the verifier, its front ends and z3 are trusted. ')
CLAIMED = {
    'P01': ('proof', COMMON + 'Value, first and second derivative are compared as exact polynomials read off the source for all 30 indices.'),
    'P02': ('proof', COMMON + 'Every table entry is compared with the exact rational integral; coefficients must agree to 2e-14 relative (they are stored as rounded decimals).'),
    'P03': ('proof', COMMON + 'Every tabulated node and weight is compared with a 60-digit reference rule and the moments are checked in exact rational arithmetic.'),
    'P04': ('proof', COMMON + 'The closed-form integrals and basis functions enter by contract (P01, P02); quadrature exactness by P03.'),
    'P05': ('proof', COMMON + 'The closed-form integrals and basis functions enter by contract (P01, P02); quadrature exactness by P03.'),
    'P06': ('proof', COMMON + 'The closed-form integrals and basis functions enter by contract (P01, P02); quadrature exactness by P03.'),
    'P07': ('proof', COMMON + 'The closed-form integrals and basis functions enter by contract (P01, P02); quadrature exactness by P03.'),
    'P08': ('proof', COMMON + 'The non-linear shear strain counted twice by calc_fint is a recorded known finding: the check proves that this is the only departure.'),
    'P09': ('proof', COMMON + 'Compiled field kernels are verified against the series; the methods of the panel against the contracts of those kernels, with the option combinations (grid, points, defaults, edge flags read from the panel, non-linear flag) enumerated. The panel is assumed to have been rebuilt (its model chosen).'),
    'P10': ('proof', COMMON + 'The number of loads of each kind, their places and values are symbolic. Prescribed displacements enter with the penalty stiffness of the definition.'),
    'P11': ('proof', COMMON + 'The closed-form integrals and basis functions enter by contract (P01, P02).'),
    'P12': ('proof', COMMON + 'The closed-form integrals and basis functions enter by contract (P01, P02).'),
    'P15': ('proof', COMMON + 'The closed-form integrals and basis functions enter by contract (P01, P02). The beam constants of a 1D blade (E1, F1, S1, Jxx, Aphi) are inputs: their formulas are model choices without a documented reference.'),
    'P16': ('proof', 'Unbounded in the numbers of terms (up to the 30 and 64 points of the tables), flags, sub-rectangles, core counts and offsets: two obligations for every element access, plus the positions of all triplets, memory read before it is set and memory freed. Arrays handed in by the caller have the sizes the caller is documented to give; wrong sizes must be rejected where a check is promised. A failed obligation is replayed on a build with the address sanitizer.'),
    'P17': ('proof', 'Unbounded in sizes, terms, laminates, offsets, points and displacement vectors; the option combinations are enumerated (every combination of displacement, constant state, loads, per-point laminate and non-linear flag; size, points, symmetrisation, sub-domain, history and laminate options are dealt out over them). Compiled kernels enter as uninterpreted functions of everything they read; calls on changed definitions are covered for caches the panel recomputes, not for ply lists it derives once.'),
    'P13': ('proof', 'Unbounded in the sizes, terms, laminates, loads and displacement vectors of the panels and in the places of the connections. The number of panels (1 to 4, flat and curved), of connections (none to 4) and the orders in which they are named are enumerated. Compiled kernels and the methods of a panel enter through their own contracts; a panel belongs to one assembly, and its numbers of terms do not change after the assembly is made.'),
    'P19': ('proof', 'Unbounded in the sizes, terms, laminates and displacement vectors of the panels, in the sampling points and grids; the number of panels (2 to 4) and how they are grouped are enumerated. The stiffness of every panel has been calculated (its model chosen).'),
    'P18': ('proof', 'Unbounded in the sizes, terms, laminates, offsets, stresses, forces and displacement vectors of skin and stiffeners and in the places of the strips. The number of strips (1 to 3) and the number, kinds (1D, 2D, with and without base and flange) and order of the stiffeners (none to 3) are enumerated. Compiled kernels and the methods of a panel enter through their own contracts. The beam constant S1 of a 1D blade has no documented reference and is not specified.'),
    'P22': ('proof', 'Unbounded in dimensions, laminates, loads, terms and integration points; the number of panels around a cylinder is enumerated (2, 3, 4) and the default number of terms (8) is taken as a case. The solvers of structsolve enter by contract (any solution, arguments unchanged): what is proved is what they are given and that their answer is returned. Precondition: nonzero loads, Mach > 1.'),
    'P21': ('proof', 'Unbounded in sizes, terms, laminates, loads, stresses and displacement vectors. The analyses (every matrix, forces, fields), what happened before saving (nothing, other analyses, an earlier save, an earlier save of a changed definition), names and the kinds of stiffeners are enumerated. pickle enters by contract (a copy of the object graph, __getstate__ and __setstate__ honoured); interrupted writes are not covered.'),
    'P14': ('proof', 'Unbounded in the inputs: sizes, laminates (any number of plies) and thicknesses are symbolic; the connection kinds are enumerated with several spellings, unknown ones by three samples. composites.laminated_plate is a trusted function of its arguments.'),
}
NA = {
    'P20': 'Convergence of scipy/ARPACK eigen-solvers and of structsolve Newton-Raphson loops is decided inside external '
           'libraries in floating point; no contract on the code of this repository can express or discharge it.',
}
try:
    from mkmanifest_extra import CLAIMED as C2, NA as N2
    CLAIMED.update(C2); NA.update(N2)
except ImportError:
    pass
TECH = 'contract-based deductive verification: symbolic execution of the real source against contracts, obligations discharged by ring normalisation and z3'
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        lv, note = CLAIMED[i][:2]
        tech = CLAIMED[i][2] if len(CLAIMED[i]) > 2 else TECH
        checks.append({'property': i,
                       'quick_cmd': 'python3-vt verify.py %s --tier quick' % i,
                       'thorough_cmd': 'python3-vt verify.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': tech, 'level': lv, 'level_note': note.strip()})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check has been built for this property yet.')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -m compileall -q vc verify.py', 'checks': checks,
           'not_applicable': na,
           'notes': 'No hooks: /repo carries only fix: commits. See DESIGN.md.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
