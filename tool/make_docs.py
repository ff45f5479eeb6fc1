"""Writes properties.jsonl and MANIFEST.json from the tables below and the registry."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import registry

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RM, K0, KG = 'meshless/espim/read_mesh.py', 'meshless/espim/plate2d_calc_k0.py', 'meshless/espim/plate2d_calc_kG.py'
SC, SN, SE = ('meshless/espim/plate2d_add_k0s_cell_based.py', 'meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py',
              'meshless/espim/plate2d_add_k0s_edge_based.py')
SD, CL, UT, LG, IP = ('meshless/espim/plate2d_add_k0s.py', 'meshless/espim/classes.py', 'meshless/utils.py',
                      'meshless/logger.py', 'meshless/interpolate.py')
CO, SY = 'meshless/constants.py', 'meshless/dev/sympytools.py'
SHEAR = [SC, SN, SE]
ALLM = [K0, KG] + SHEAR

TWO = ('The tests run two regular meshes of one uniform laminate and compare one number each (a deflection, an eigenvalue); ')

P = []


def prop(pid, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=pid, title=registry.SPECS[pid]['title'] if pid in registry.SPECS else TITLES[pid], statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=x, meaning=x, where='objects of the mesh or the matrix') for x in state],
                               observe_at=list(observe), hook_needed=None)))


TITLES = {}
MESHES = 'all plane triangulations in which triangles that share an edge lie on different sides of it, any node positions, ids, node order within triangles and element order'
LAM = MESHES + '; all laminates (symmetric A, B, D, E), assigned per node or per triangle, varying over the mesh'

prop('C01', 'After reading a mesh there is exactly one edge per pair of nodes connected by a triangle side, keyed by that pair, and it lists every '
     'triangle that has both its ends, once each. Every triangle lists its three edges, every node lists all its edges and the ids of all triangles '
     'around it, and nothing else.',
     ['inputs'], 'both readers; triangulations of any size, numbering, node order and element order, with boundary edges, interior edges and edges of more than two triangles, nodes without triangles included',
     'two structured meshes are read and only a few counts are looked at; a wrong list at one edge of an unusual mesh stays unseen',
     [RM, CL], [('edges collected from the triangle sides', RM + ':read_delaunay'), ('the same for decks', RM + ':read_mesh')],
     ['mesh.edges', 'edge.trias', 'tria.edges', 'node.edges', 'node.trias'], ['returned mesh'])
prop('C02', 'A Delaunay triangulation is turned into a mesh with one node per point and one triangle per simplex, numbered from one in the order '
     'given. Coordinates are those of the points (z = 0 for plane points), triangles keep the order of their vertices, and no property is assigned yet.',
     ['inputs'], 'any number of points and simplices, plane or spatial points',
     'one small point cloud is read; only that it can be read is asserted', [RM], [('registration', RM + ':read_delaunay')],
     ['mesh.nodes', 'mesh.elements'], ['returned mesh'])
prop('C03', 'Reading a deck keeps the ids, coordinates and triangle connectivity of the deck, for ids of any size and in any order. '
     'A deck that contains an element other than a linear triangle is rejected with NotImplementedError.',
     ['inputs'], 'all decks of nodes and elements, ids arbitrary and not consecutive',
     'one deck with consecutive ids and only triangles is read', [RM], [('registration', RM + ':read_mesh')],
     ['mesh.nodes', 'mesh.elements'], ['returned mesh', 'exception'])
prop('C04', 'If any node (properties per node) or any triangle (properties per triangle) that the analysis needs has no laminate property, the '
     'constitutive stiffness ends in ValueError, before any node has been numbered or any smoothing domain changed.',
     ['inputs', 'configurations'], 'any position of the missing property in any mesh, both assignments and both readers',
     'every tested mesh has all properties', [K0], [('property check', K0 + ':calc_k0')], ['node.index'], ['exception'])
prop('C05', 'After the constitutive stiffness every edge carries the smoothing domain spanned by its ends and the centroids of its one or two '
     'triangles: the area, the polygon, the vertices opposite to the edge, and one integration point per boundary segment of the domain. Each integration point '
     'holds the mid-point of its segment, its length, the outward unit normal, its triangle and three distinct nodes of that triangle with the values of their '
     'shape functions there.',
     ['inputs'], LAM, TWO + 'neither looks at the domains; a wrong normal or area on some orientations only shows on irregular meshes',
     [K0, UT, CL], [('construction of the domains', K0 + ':calc_k0'), ('polygon area', UT + ':area_of_polygon')],
     ['edge.Ac', 'edge.sdomain', 'edge.ipts', 'edge.othernode1', 'edge.othernode2'], ['attributes of the edges'])
prop('C06', 'The constitutive stiffness gives every node of the mesh a different index from 0 to n-1, whatever the node ids are, and the matrix has '
     'five rows and columns per node. Every entry of every matrix is addressed as five times the index of a node of its own domain plus the '
     'degree of freedom (u, v, w, phix, phiy).',
     ['inputs'], 'any mesh of either reader, ids arbitrary, unsorted and not consecutive', 'the tested ids are consecutive and sorted, so ids and indices hardly differ',
     [K0, CO] + ALLM[1:], [('numbering', K0 + ':calc_k0')], ['node.index'], ['node indices', 'matrix entries'])
prop('C07', 'The constitutive stiffness is the sum over all edges of area times B^T [A B; B D] B, B giving the area-average over the smoothing domain of the '
     'linear membrane strains and curvatures of its triangles, with the laminate blended with 4/9, 4/9, 1/9 (boundary) or 5/12, 5/12, 1/12, 1/12 '
     '(interior: ends, opposite nodes) for properties per node, and by area for properties per triangle. It holds for every mesh and laminate, full coupling B and all '
     'sixteen components included.',
     ['inputs', 'configurations'], LAM, TWO + 'with B = 0 and one laminate, so coupling terms, blends and irregular edges never matter',
     [K0], [('assembly', K0 + ':calc_k0')], ['k0'], ['entries of the matrix'])
prop('C08', 'The constitutive stiffness, the transverse shear stiffness of each method, and the geometric stiffness are symmetric matrices, for any mesh, any symmetric '
     'laminate and any displacements.',
     ['inputs', 'configurations'], LAM + '; all shear methods, any displacement vector', TWO + 'a term missing on one side of the diagonal changes these numbers little or not at all',
     ALLM, [('assembly', K0 + ':calc_k0'), ('assembly', KG + ':calc_kG'), ('assembly', SC + ':add_k0s')], ['k0', 'kG'], ['entries of the matrices'])
prop('C09', 'Rigid-body motions cost no energy: translations and in-plane rotations are in the kernel of the constitutive stiffness, a deflection translation and rigid tilts '
     '(linear deflection with the matching rotations) in the kernel of the transverse shear stiffness of every method. The geometric stiffness is zero for a displacement field '
     'that is such a motion.',
     ['inputs', 'configurations'], LAM + '; all shear methods', TWO + 'clamped plates never move rigidly',
     ALLM, [('assembly', K0 + ':calc_k0'), ('assembly', SN + ':add_k0s')], ['k0', 'kG'], ['matrix times motion'])
prop('C10', 'On a plate with one uniform laminate, assigning it to the nodes and assigning it to the triangles give identical matrices: constitutive, '
     'transverse shear with every method, and geometric.',
     ['inputs', 'configurations'], MESHES + '; any laminate', 'each assignment is compared with a rounded reference, on symmetric regular meshes and one laminate without coupling',
     ALLM, [('blends', K0 + ':calc_k0'), ('blends', SC + ':add_k0s')], ['k0', 'kG'], ['both matrices'])
prop('C11', 'The constitutive stiffness has no entry for the deflection and couples membrane with bending only through B; the transverse shear stiffness couples only deflection and '
     'rotations; the geometric stiffness has entries only between deflections.',
     ['inputs', 'configurations'], LAM, TWO + 'a stray entry in another row hardly changes them', ALLM,
     [('assembly', K0 + ':calc_k0'), ('assembly', KG + ':calc_kG'), ('assembly', SE + ':add_k0s')], ['k0', 'kG'], ['entries of the matrices'])
prop('C12', 'A mesh in which an edge belongs to more than two triangles is never silently analysed: the constitutive stiffness, the edge-based shear stiffness and the geometric stiffness '
     'raise an exception instead of returning a matrix.',
     ['inputs'], 'any mesh with such an edge, at any place and with any properties', 'every tested mesh is a manifold',
     [K0, KG, SE], [('unpacking of the triangles of an edge', K0 + ':calc_k0'), ('domains', SE + ':add_k0s')], ['edge.trias'], ['exception'])
prop('C13', 'The geometric stiffness is the sum over all edges of area times G^T N G on the deflections, G giving the smoothed slopes and N the membrane force tensor '
     'A eps + B kappa (same laminate blends as the constitutive stiffness) of the smoothed membrane strains and curvatures of the given displacements. It has as many rows as the displacement vector '
     'has complete nodes of five.',
     ['inputs', 'configurations'], LAM + '; any displacement vector', TWO + 'with uniform compression and B = 0, where shear, coupling and gradients vanish',
     [KG], [('membrane forces and assembly', KG + ':calc_kG')], ['kG'], ['entries of the matrix'])
prop('C14', 'The geometric stiffness is linear in the membrane displacements and rotations of the displacement vector: scaling them scales every entry, and the deflections do not enter at all.',
     ['inputs'], LAM + '; any displacement vector and factor', 'one displacement vector is used, never scaled, with zero deflection', [KG],
     [('membrane forces', KG + ':calc_kG')], ['kG'], ['entries of the matrix'])
prop('C15', 'Without length correction (alpha zero) the transverse shear stiffness added for a cell is its area times Bs^T diag(k23 E11, k13 E22) Bs (E the shear matrix of the laminate, first direction xz), without coupling of both directions, Bs being the discrete '
     'shear gap strains: of the triangle itself without smoothing, and averaged by area over the three sub-triangles around the centroid, or over the triangle pieces of the edge domain, with smoothing.',
     ['inputs', 'configurations'], LAM + '; all shear methods', TWO + 'shear contributes a per cent, and one laminate is used',
     SHEAR, [('cell-based assembly', SC + ':add_k0s'), ('without smoothing', SN + ':add_k0s'), ('edge-based assembly', SE + ':add_k0s')], ['k0'], ['entries of the matrix'])
prop('C16', 'The shear stiffness of each cell is reduced by h^2/(h^2 + alpha l^2), where l is its longest side, or the root of its area when asked for. Thickness, correction factors and shear moduli '
     'are those of the triangle, or averaged over the corners with the weights of the cell. The longest side of an edge domain is that of its sub-triangles, the edge included.',
     ['inputs', 'configurations'], LAM + '; any positive alpha, both length measures, all shear methods', 'one alpha, one thickness, one length measure and nearly equal cells are tested',
     SHEAR + [SD], [('factor', SC + ':add_k0s'), ('factor', SN + ':add_k0s'), ('factor', SE + ':add_k0s')], ['k0'], ['entries of the matrix'])
prop('C17', 'The shear method is chosen by its name and receives the given matrix, mesh, assignment, alpha and length measure unchanged; without further arguments it is the cell-based method with alpha 0.08 and the longest side. '
     'An unknown name raises ValueError and leaves the matrix as it was.',
     ['inputs', 'configurations'], LAM + '; every method name, positional and keyword arguments', 'the defaults and the rejection of names are never tested',
     [SD], [('dispatcher', SD + ':add_k0s')], ['k0'], ['entries of the matrix', 'exception'])
prop('C18', 'Adding transverse shear only adds to the matrix passed in, keeping what is already there, and returns that same matrix. Shear and geometric stiffness change nothing of the mesh, the laminates or the displacement '
     'vector; the constitutive stiffness changes nothing but the node numbering and the smoothing domains.',
     ['inputs', 'histories'], LAM + '; any content of the matrix', 'inputs are never compared before and after a call',
     ALLM, [('in-place addition', SC + ':add_k0s'), ('in-place addition', SE + ':add_k0s')], ['k0', 'mesh', 'd'], ['matrix', 'mesh', 'displacements'])
prop('C19', 'The constitutive, geometric and default shear matrices depend on geometry, laminates and displacements only: renumbering the nodes, rotating or reversing the node order of triangles, reordering the triangles or '
     'any iteration order of sets permutes the rows and columns accordingly and changes no value.',
     ['inputs', 'schedules'], LAM + '; all numberings and orders', 'each mesh is read in one order; clockwise triangles hardly occur in it',
     [K0, KG, SC, RM], [('orientation handling', K0 + ':calc_k0'), ('orientation handling', SC + ':add_k0s')], ['k0', 'kG'], ['entries of the matrices by node'])
prop('C20', 'The plane interpolation returns, for every evaluation point, the tensor-product Lagrange polynomial of the control values: it reproduces the values at the control nodes and every polynomial of that degree. It leaves its '
     'arguments unchanged and rejects a field whose shape does not fit the control nodes.',
     ['inputs'], 'any number of distinct control nodes on each axis (also different numbers), any node positions (negative and zero included), scalar or array evaluation points',
     'one grid of one function is interpolated with a loose tolerance', [IP], [('product of basis polynomials', IP + ':interpolate_lagrange_2D')], [], ['returned field'])
prop('C21', 'The spatial interpolation returns, for every evaluation point, the tensor-product Lagrange polynomial of the control values on three axes, each axis with its own control nodes. It leaves its '
     'arguments unchanged and rejects a field whose shape does not fit the control nodes.',
     ['inputs'], 'any number of distinct control nodes on each axis (also different numbers), any node positions (negative and zero included), scalar or array evaluation points',
     'one cubic grid with equal nodes on the last two axes is interpolated', [IP], [('product of basis polynomials', IP + ':interpolate_lagrange_3D')], [], ['returned field'])
prop('C22', 'The polygon area is half the absolute cross sum of the vertices for any simple polygon in either direction, the centre of an element the mean of its corners, the centre of an edge the mean of its ends, the unit vector v/|v|, and an '
     'integration point lies at the weighted sum of its nodes. None of them changes its arguments.',
     ['inputs'], 'all polygons from three vertices, all vectors of any length and dimension, all elements', 'no test calls them directly',
     [UT, CL], [('area', UT + ':area_of_polygon'), ('unit vector', UT + ':unitvec'), ('centre', UT + ':getMid'), ('edge and point', CL + ':Edge, IntegrationPoint')], [], ['returned values'])
prop('C23', 'Readers, stiffness, shear and geometric matrices print and write nothing unless messages are asked for, and asking for them changes no result. The message helpers return the text with its prefix (none, WARNING, ERROR) '
     'and print it, indented by level, unless silenced.',
     ['configurations', 'inputs'], LAM + '; silent or not, every level', 'output is never captured', [LG, RM, K0, KG], [('messages', LG + ':msg, warn, error')], [], ['standard output', 'returned values'])
prop('C24', 'Nothing is remembered between analyses: repeating an analysis on the same mesh after laminates, coordinates or displacements were changed gives exactly the matrices of a fresh analysis of the present data, and repeating it unchanged gives the same matrix again.',
     ['histories'], LAM + '; any change of the data between two calls', 'every test analyses each mesh once', ALLM, [('domains rebuilt on every call', K0 + ':calc_k0')], ['edge.Ac', 'edge.ipts', 'node.index'], ['entries of the matrices'])
prop('C28', 'A mesh of either reader passes through stiffness, each shear method with both length measures, and geometric stiffness without error, and every entry written belongs to nodes of the domain at hand.',
     ['inputs', 'configurations'], LAM + '; boundary and interior edges, both readers', 'only two combinations of reader, assignment and method are run', [RM] + ALLM + [SD],
     [('chain', K0 + ':calc_k0'), ('chain', KG + ':calc_kG'), ('chain', SD + ':add_k0s')], ['mesh'], ['exceptions', 'matrix entries'])
prop('C29', 'The constitutive stiffness passes the patch test: for nodal displacements and rotations that are linear in the coordinates, twice the energy of each edge domain is its area times the laminate energy of these constant strains and curvatures, on any irregular mesh.',
     ['inputs', 'configurations'], LAM + '; all six constant strains and curvatures together', TWO + 'no constant strain state is imposed', [K0],
     [('smoothed strains', K0 + ':calc_k0')], ['k0'], ['energy of a domain'])
prop('C30', 'The matrices follow a change of frame or of units: moving the plate, turning it by a right angle, or expressing lengths or forces in another unit transforms the constitutive, geometric and shear matrices as the '
     'degrees of freedom transform, when nodes, laminates and displacements are expressed in the new frame. The constitutive and geometric matrices also follow a mirroring and a turn by any angle, the default shear matrix a mirroring.',
     ['inputs', 'configurations'], LAM + '; any translation (also out of plane), any positive change of unit', TWO + 'the plate lies at one place, at z = 0, in one system of units; an absolute tolerance, a term of the wrong dimension or a use of z never shows',
     ALLM, [('constitutive stiffness', K0 + ':calc_k0'), ('geometric stiffness', KG + ':calc_kG'), ('shear stiffness', SE + ':add_k0s')], ['k0', 'kG'], ['entries of both matrices'])
PRT = 'all symbolic matrices of any shape, zero pattern and entries; every combination of the options'
prop('C25', 'A printing function of the symbolic tools opens no file unless asked to (printing to a file is the default); then it writes exactly the returned text to print_<name>.txt, or print_<name>_<sufix>.txt with a sufix, replacing what was there.',
     ['inputs', 'configurations'], PRT, 'the tests never look at the files', [SY],
     [('files', SY + ':mprint_as_sparse, mprint_as_dense, mprint_as_array')], [], ['files in the working directory', 'returned text'])
prop('C26', 'The text generated from a symbolic matrix assigns every nonzero entry exactly once, at its own row and column (node and degree of freedom when asked for, flat position in the asked order), with the expression of that very entry after substitution, and states their number. '
     'For a symmetric matrix exactly the upper triangle of the whole matrix is printed. Common subexpressions are declared and assigned once, before their use.',
     ['inputs', 'configurations'], PRT, 'the tests print matrices of a single row; the results of the sparse printer are not even compared', [SY],
     [('assignments', SY + ':mprint_as_sparse, mprint_as_dense, mprint_as_array')], [], ['returned text'])
prop('C27', 'Printing leaves the matrix, the substitutions and the list of symbols of the caller unchanged, with and without common subexpressions, so that a matrix can be printed again or used afterwards.',
     ['inputs', 'histories'], PRT, 'no test uses the matrix after printing it', [SY],
     [('common subexpressions', SY + ':mprint_as_array')], ['m'], ['the matrix after the call'])
sys.path.insert(0, HERE)

NA = [
    dict(property='N01', reason='Convergence of deflections and buckling loads to the exact plate solution with mesh refinement: a statement about limits of numerical solutions of linear systems and eigenvalue problems; no static argument over the source bounds it. '
         'The structural parts (form of each matrix, patch test, rigid motions) are C07, C09, C13, C15, C29.'),
    dict(property='N02', reason='Accuracy of the matrices in floating point (rounding of nearly degenerate triangles): the analysis idealises arithmetic to exact rational functions, rounding is outside the reach of the technique here.'),
    dict(property='N03', reason='Equality in value of the rewritten text of an expression (pow2mul, regular expressions over arbitrary text) with the original quantifies over all strings; the analysis follows texts by their origin and cannot interpret the matches of a regular expression on an unknown text. '
         'That the rewriting is applied to each entry and to nothing else is part of C26.'),
]

TECH = 'abstract interpretation of the source (ast): loops over the mesh summarised on an arbitrary edge or triangle, exact rational-function value domain'
TECHS = {
    'C01': 'abstract interpretation of the readers: shape analysis of the mesh containers on representative local meshes',
    'C02': 'abstract interpretation of the reader: symbolic points and simplices, container shape domain',
    'C03': 'abstract interpretation of the reader: symbolic deck objects, container shape domain, exception paths',
    'C04': 'abstract interpretation: exception-path analysis with an arbitrary element lacking its property',
    'C12': 'abstract interpretation: exception-path analysis for an edge of three triangles',
    'C18': 'effect analysis by abstract interpretation (writes to mesh, laminates, arguments)',
    'C20': 'abstract interpretation with exact rational-function values', 'C21': 'abstract interpretation with exact rational-function values',
    'C22': 'abstract interpretation with exact rational-function values',
    'C23': 'output-effect analysis by abstract interpretation', 'C25': 'file-effect analysis by abstract interpretation',
    'C26': 'provenance analysis of generated text by abstract interpretation (opaque matrix entries)', 'C27': 'effect analysis by abstract interpretation (writes to arguments)', 'C28': 'abstract interpretation: definedness and exception-path analysis',
}
NOTES = {
    'C01': 'Meshes of any size by locality (representatives around one edge); decides containers, not performance.',
    'C30': 'Frames enumerated (shift, right-angle turn, arbitrary turn, mirroring, units of length and force), amounts arbitrary. The edge-based interior edges read y from z on the current tree (known finding) and are compared as shipped up to that.',
    'C20': 'Exact for the listed numbers of nodes per axis and every node position; for arbitrary numbers when the loops are recognised as sums and products.',
    'C21': 'As C20; the third-axis defect is a known finding.',
    'C15': 'Edge-based interior edges deviate on the current tree (known finding); they are compared with the formula as shipped up to that deviation.',
    'C16': 'Edge-based interior edges deviate on the current tree (known finding).',
}


def main():
    here = HERE
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            if p['id'] in registry.SPECS:
                f.write(json.dumps(p) + '\n')
        for n in NA:
            f.write(json.dumps(NAP[n['property']]) + '\n')
    checks = []
    for pid in sorted(registry.SPECS):
        cmd = 'python3-vt tool/check.py %s --tier ' % pid
        checks.append(dict(property=pid, quick_cmd=cmd + 'quick', thorough_cmd=cmd + 'thorough',
                           technique='static analysis: ' + TECHS.get(pid, TECH), level=registry.SPECS[pid]['level'],
                           level_note=NOTES.get(pid, 'Sound within the stated modelling assumptions for all values; configurations (shape class, numbering, order) are enumerated. Real arithmetic instead of floating point.')))
    m = dict(version=1, setup_cmd='python3-vt tool/selfcheck.py', checks=checks, not_applicable=NA,
             notes='No code of /repo is executed by any check and no solver is used. Known findings in known_findings.txt. Details in DESIGN.md.')
    json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
    ids = set(p['id'] for p in P)
    miss = set(registry.SPECS) - ids
    if miss:
        print('no text for', sorted(miss))


def nap(pid, title, statement, over, text, why, files, mech):
    return dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[], observe_at=['solution of the linear system'], hook_needed=None))


NAP = {
    'N01': nap('N01', 'Solutions converge to the exact plate solution', 'Deflections and buckling loads computed with the assembled matrices converge to those of the first-order shear plate theory as the mesh is refined, for thin and thick plates.',
               ['inputs'], 'all plates and refinement sequences', 'two meshes, each compared with one rounded number', ALLM, [('assembly', K0 + ':calc_k0')]),
    'N02': nap('N02', 'Matrix entries are accurate to rounding', 'Computed matrix entries differ from the exact ones by a small multiple of the rounding unit, relative to the largest entry of the domain, for every triangle of acceptable shape.',
               ['inputs'], 'all meshes with bounded aspect ratio', 'entries are never compared', ALLM, [('assembly', K0 + ':calc_k0')]),
}
NAP['N03'] = nap('N03', 'Rewriting powers as products keeps the value of an expression', 'pow2mul replaces integer powers x**n and pow(x, n) by products and nothing else, so that the resulting text evaluates to the same value as the given one.',
                 ['inputs'], 'all expressions sympy can print', 'one expression is rewritten', [SY], [('rewriting', SY + ':pow2mul')])
NAP['N03']['anchors']['observe_at'] = ['value of the returned text']

if __name__ == '__main__':
    main()
