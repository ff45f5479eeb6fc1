"""Which tasks decide which property."""
import props_interp as pi
import props_k0 as pk
import props_mesh as pm
import props_plate as pp
import props_print as pr
import props_shear as ps
import world as w

Cfg = w.Cfg
SPECS = {}

COMMON = ['floating-point evaluation is idealised: values are exact rational functions of the inputs',
          'numpy, pyNastran, sympy and the Python built-ins behave as modelled in /verif/tool (models.py, npmodels.py, meshmodel.py)',
          'the mesh lies in a plane z = const; two triangles that share an edge lie on different sides of it']
MESH = ['a mesh of any size is represented by the objects around an arbitrary edge or triangle; loops over the mesh are summarised by their effect on that representative']


def spec(pid, title, module, tasks, explanation, level='other', assumptions=(), expect=None, anchors=()):
    SPECS[pid] = dict(title=title, module=module, tasks=tasks, level=level, explanation=explanation,
                      assumptions=list(assumptions), expect=expect or {}, anchors=list(anchors))


def T(fn, args):
    return [(fn, a, label(a)) for a in args]


def label(a):
    if isinstance(a, tuple):
        return ', '.join(str(x) for x in a)
    return str(a)


def nast(cfgs):
    """every third context comes from a Nastran deck with ids in another order"""
    out = []
    for i, c in enumerate(cfgs):
        if i % 3 == 2:
            n = 4 if c.two else 3
            o = list(c.order[:n])
            c = c.but(reader='nastran', norder=tuple(o[1:] + o[:1]) + tuple(c.order[n:]))
        out.append(c)
    return out


def edges(tier, nq=4, by=(False, True)):
    return nast(pk.cfgs_edge(tier, by, nq))


def shared(cfgs):
    """some contexts again, with one laminate object for several nodes or for both triangles"""
    out, seen = list(cfgs), set()
    for c in cfgs:
        k = c.by_node, c.two, c.focus
        if k in seen:
            continue
        seen.add(k)
        if c.by_node:
            out += [c.but(share=s) for s in ('ab', 'ac', 'bc') + (('cd', 'bcd') if c.two else ())]
        elif c.two:
            out.append(c.but(share='12'))
    return out


def trias(tier, nq=3, by=(False, True)):
    return nast(ps.tria_cfgs(tier, by, nq))


def five(tier, nq=2, keys=('k0', 'kG', 'cell', 'nosmooth', 'edge')):
    """(function, context) for the five matrices"""
    out = []
    for k in keys:
        for c in (edges(tier, nq) if k in ('k0', 'kG', 'edge') else trias(tier, nq + 1)):
            out.append((k, c))
    return out


# -- mesh ---------------------------------------------------------------------
spec('C01', 'Edges and their incidence lists describe the triangulation exactly', 'props_mesh',
     lambda t: T('incidence', pm.cases(t)),
     'Abstract interpretation of both readers on representative meshes (one triangle; two triangles sharing an edge, a vertex, '
     'nothing; fans and strips; an edge of three triangles; an isolated node) under several numberings, node orders, element orders and '
     'set iteration orders, inside a mesh of arbitrary size. The containers that result are compared with the incidence relation '
     'computed from the triangles.',
     assumptions=COMMON[1:2] + MESH,
     expect={'one edge per connected pair of nodes': 100, 'edge.trias are the triangles with both ends': 100,
             'node.edges are the edges of the node': 100, 'tria.edges are its three edges': 60,
             'node.trias are the ids of the triangles around the node': 100},
     anchors=['read_mesh.py:read_delaunay', 'read_mesh.py:read_mesh'])
spec('C02', 'A Delaunay triangulation is registered completely, in order', 'props_mesh',
     lambda t: T('registered', pm.cases(t, ('delaunay',)) + pm.cases(t, ('delaunay',), dim=2, m=2 if t == 'quick' else 20)),
     'Abstract interpretation of the Delaunay reader: node and triangle records are compared with the symbolic points and simplices '
     '(ids as functions of the position, coordinates, node order, initial property), for plane and spatial points.',
     assumptions=COMMON[1:2] + MESH,
     expect={'node ids count the points from one': 60, 'coordinates are kept, z = 0 in the plane': 60,
             'triangle ids count the simplices from one': 40, 'triangles keep the order of their nodes': 40},
     anchors=['read_mesh.py:read_delaunay'])
spec('C03', 'A Nastran deck keeps its ids and geometry; other elements are rejected', 'props_mesh',
     lambda t: T('deck', pm.cases(t, ('nastran',)) + [c for b in sorted(pm.mm.OTHERS) for c in pm.cases(t, ('nastran',), bad=b, m=1)]),
     'Abstract interpretation of the deck reader on the objects pyNastran hands over (arbitrary positive ids, file order independent '
     'of the ids); decks with an element of another class must raise NotImplementedError.',
     assumptions=COMMON[1:2] + MESH,
     expect={'node ids are kept': 60, 'triangle ids are kept': 40, 'elements other than CTRIA3 are rejected': 14},
     anchors=['read_mesh.py:read_mesh'])


# -- preparation of the mesh -----------------------------------------------------
def missing_tasks(t):
    out = []
    for i, o in enumerate(pk.PERM3 if t == 'thorough' else pk.PERM3[::3]):
        for two in (False, True):
            for rd in ('delaunay', 'nastran'):
                c = Cfg(two=two, order=o + (3,), focus='mesh', reader=rd, rev=i % 2 == 1).but(again=i % 2 == 1)
                for k in 'abc':
                    out.append((k, c.but(by_node=True)))
                for k in ('1', '2', '1n', '2n') if two else ('1', '1n'):
                    out.append((k, c))
    return T('missing', out)


spec('C04', 'A missing laminate property is reported before anything is computed', 'props_plate', missing_tasks,
     'Abstract interpretation of the stiffness function on meshes in which one arbitrary node or triangle carries no property: '
     'every path has to end in ValueError before a node receives its number.',
     assumptions=COMMON[1:2] + MESH, expect={'a missing property is reported': 15}, anchors=['plate2d_calc_k0.py:calc_k0'])
spec('C05', 'Smoothing domains: area, boundary points and outward normals', 'props_plate',
     lambda t: T('smoothing', edges(t, 8)),
     'The attributes stored on an arbitrary edge (area, polygon, integration points with shape function values, position, outward normal, '
     'length) are compared, as exact rational functions of the coordinates, with the domain spanned by the edge and the centroids of its triangles.',
     assumptions=COMMON + MESH,
     expect={'area of the smoothing domain': 16, 'outward normal times length': 150, 'one integration point per boundary segment': 80,
             'polygon of the smoothing domain': 16}, anchors=['plate2d_calc_k0.py:calc_k0', 'utils.py:area_of_polygon'])
spec('C06', 'Nodes are numbered one-to-one; matrices have five rows per node', 'props_plate',
     lambda t: T('bijection', [c for i, c in enumerate(pk.cfgs_edge(t, (False, True), 4)) for c in (
         c, c.but(reader='nastran', norder=tuple(reversed(c.order[:4 if c.two else 3])), again=i % 2 == 0))]),
     'The index given to an arbitrary node is shown to be its position in a complete enumeration of the nodes (a bijection onto 0..n-1), '
     'for both readers with ids unrelated to that order; the shape of the matrix is compared with 5n x 5n and every written entry with 5*index+dof.',
     assumptions=COMMON[1:2] + MESH,
     expect={'every node is numbered once': 100, 'the matrix has five rows per node': 30, 'entries addressed through the node numbering': 1000},
     anchors=['plate2d_calc_k0.py:calc_k0'])

# -- constitutive stiffness ---------------------------------------------------------
spec('C07', 'The stiffness is the smoothed laminate energy of every edge domain', 'props_k0',
     lambda t: T('k0_form', shared(edges(t, 8))),
     'Every contribution of an arbitrary edge to the stiffness matrix is computed by abstract interpretation as an exact rational function '
     'of coordinates and laminate stiffnesses and compared entry by entry with Ac B^T [A B; B D] B of the area-weighted smoothed strains.',
     assumptions=COMMON + MESH, expect={'K = Ac B^T C B': 2000}, anchors=['plate2d_calc_k0.py:calc_k0'])
spec('C08', 'All stiffness matrices are symmetric', 'props_plate',
     lambda t: T('symmetry', [(k, c, i % 2 == 1) for i, (k, c) in enumerate(five(t))]),
     'For an arbitrary edge or triangle the contribution at (i, j) is shown to equal the one at (j, i) for each of the five matrices.',
     assumptions=COMMON + MESH + ['the laminate matrices A, B, D, E are symmetric'], expect={'entry equals its transpose': 1000},
     anchors=['plate2d_calc_k0.py:calc_k0', 'plate2d_calc_kG.py:calc_kG', 'plate2d_add_k0s_edge_based.py:add_k0s'])
spec('C09', 'Rigid-body motions store no energy', 'props_plate',
     lambda t: T('rigid', [kc for kc in five(t, keys=('k0', 'cell', 'nosmooth', 'edge'))]) + T('kG_rigid', edges(t, 2)),
     'The contribution of an arbitrary edge or triangle is multiplied, symbolically, with translations, rotations and tilts; the product must '
     'vanish identically. The geometric stiffness evaluated on such a displacement must vanish as well.',
     assumptions=COMMON + MESH, expect={'no resistance to rigid motions': 300, 'no geometric stiffness from a rigid motion': 100},
     anchors=['plate2d_calc_k0.py:calc_k0', 'plate2d_calc_kG.py:calc_kG', 'plate2d_add_k0s_edge_based.py:add_k0s'])
spec('C10', 'A uniform plate gives the same matrices for both property assignments', 'props_plate',
     lambda t: T('uniform', five(t)),
     'The same laminate is attached to the nodes and to the triangles of one representative mesh; both analyses must give identical '
     'contributions for each of the five matrices.',
     assumptions=COMMON + MESH, expect={'node-wise and triangle-wise assignment agree': 1000},
     anchors=['plate2d_calc_k0.py:calc_k0', 'plate2d_calc_kG.py:calc_kG', 'plate2d_add_k0s_edge_based.py:add_k0s'])
spec('C11', 'Each matrix couples only its own degrees of freedom', 'props_plate',
     lambda t: T('separation', [(k, c.but(unsym=True)) for k, c in five(t)]),
     'Every written entry is classified by the degrees of freedom it couples: no deflection in the constitutive part, only deflection and '
     'rotations in the shear part, only deflection in the geometric part, no membrane-bending coupling when B = 0.',
     assumptions=COMMON + MESH, expect={'only the documented degrees of freedom are coupled': 1500},
     anchors=['plate2d_calc_k0.py:calc_k0', 'plate2d_calc_kG.py:calc_kG', 'plate2d_add_k0s_edge_based.py:add_k0s'])
spec('C12', 'Edges shared by more than two triangles are rejected', 'props_plate',
     lambda t: T('three', [(k, c) for k in ('k0', 'kG', 'edge') for c in edges(t, 2) if c.two])
     + [('props_mesh.incidence', c, label(c)) for c in pm.cases(t, topos=('three triangles sharing an edge',))],
     'Abstract interpretation with an edge that lists three triangles: every path must end in an exception.',
     assumptions=COMMON[1:2] + MESH, expect={'edges of three triangles are rejected': 6},
     anchors=['plate2d_calc_k0.py:calc_k0', 'plate2d_calc_kG.py:calc_kG', 'plate2d_add_k0s_edge_based.py:add_k0s'])
spec('C13', 'The geometric stiffness is the work of the membrane forces', 'props_plate',
     lambda t: T('kG_value', shared(edges(t, 3))) + T('kG_rows', edges(t, 1)),
     'Every contribution of an arbitrary edge to the geometric stiffness is compared entry by entry with Ac G^T N G, the membrane '
     'forces N = A e + B k being those of the smoothed strains of the given displacements.',
     assumptions=COMMON + MESH, expect={'kG = Ac G^T N G': 100, 'kG has five rows per node': 12}, anchors=['plate2d_calc_kG.py:calc_kG'])
spec('C14', 'The geometric stiffness is linear in the in-plane displacements', 'props_plate',
     lambda t: T('kG_linear', edges(t, 2)),
     'Scaling the membrane displacements and rotations scales every entry; the deflections do not enter.',
     assumptions=COMMON + MESH, expect={'kG is linear in the membrane displacements and rotations': 80,
                                         'kG does not depend on the deflection': 80}, anchors=['plate2d_calc_kG.py:calc_kG'])


# -- transverse shear -------------------------------------------------------------
def shear_tasks(mode):
    def tasks(t):
        out = []
        i = 0
        for k in ('cell', 'nosmooth', 'edge'):
            cs = edges(t, 3) if k == 'edge' else trias(t, 3)
            cs = shared(cs) if mode == 'law' else cs
            for c in cs:
                for fa in ((False, True) if mode == 'law' else (i % 2 == 1,)):
                    out.append((k, mode, fa, c))
                i += 1
        return T('shear_task', out)
    return tasks


spec('C15', 'The shear stiffness is that of the discrete shear gap', 'props_shear', shear_tasks('form'),
     'Without the correction (alpha = 0) every contribution of an arbitrary triangle or edge is compared entry by entry with '
     'A Bs^T Es Bs of the discrete shear gap (any reference vertex where the formulation leaves it open), smoothed over the cell.',
     assumptions=COMMON + MESH, expect={'K = A Bs^T Es Bs (discrete shear gap)': 500}, anchors=['cell_based.py:add_k0s', 'no_smoothing.py:add_k0s', 'edge_based.py:add_k0s', 'plate2d_add_k0s.py:add_k0s'])
spec('C16', 'The shear law is corrected by h^2/(h^2 + alpha l^2)', 'props_shear', shear_tasks('law'),
     'With a symbolic alpha > 0 every contribution is compared with the discrete shear gap stiffness whose shear law carries the correction '
     'factor with l the longest side of the cell, or the root of its area, and the material averaged over the cell.',
     assumptions=COMMON + MESH, expect={'shear law with length correction': 300},
     anchors=['cell_based.py:add_k0s', 'no_smoothing.py:add_k0s', 'edge_based.py:add_k0s', 'plate2d_add_k0s.py:add_k0s'])
spec('C17', 'The shear method is selected by name, with documented defaults', 'props_plate',
     lambda t: T('dispatch', [(x, c) for x in ('invalid', 'defaults', 'cell', 'nosmooth') for c in trias(t, 3)]
                 + [('edge', c) for c in edges(t, 1)]),
     'The dispatcher is analysed with each method name (positional and keyword arguments) and its result compared with the direct call; '
     'defaults are compared with alpha = 0.08 and the longest edge; unknown names must raise ValueError with the matrix untouched.',
     assumptions=COMMON + MESH, expect={'unknown methods are rejected': 20, 'the selected method is the one applied': 300,
                                         'defaults: cell-based, alpha 0.08, longest edge': 200, 'default constants agree': 200},
     anchors=['plate2d_add_k0s.py:add_k0s'])
spec('C18', 'Shear is added in place; mesh and inputs are left unchanged', 'props_plate',
     lambda t: T('inplace', five(t)),
     'The representative mesh (every attribute of nodes, triangles, edges, integration points, laminates) is compared before and after each '
     'call, the matrix passed in may only be incremented and is the object returned, the displacement vector is not written.',
     assumptions=COMMON[1:2] + MESH, expect={'existing content is kept': 500, 'the matrix passed in is returned': 12},
     anchors=['plate2d_calc_k0.py:calc_k0', 'plate2d_calc_kG.py:calc_kG', 'plate2d_add_k0s_edge_based.py:add_k0s'])


def numbering_tasks(t):
    out = []
    for k, c in five(t, 2, ('k0', 'kG', 'cell')):
        n = 4 if c.two else 3
        o = c.order[:n]
        out.append((k, c, c.but(order=tuple(o[::-1]) + tuple(c.order[n:]), norder=tuple(o[1:] + o[:1]),
                                perm1=pk.PERM3[(pk.PERM3.index(tuple(c.perm1)) + 2) % 6],
                                perm2=pk.PERM3[(pk.PERM3.index(tuple(c.perm2)) + 3) % 6],
                                torder=c.torder[::-1], rev=not c.rev)))
    return T('numbering', out)


spec('C19', 'Node numbering and element order do not change the matrices', 'props_plate', numbering_tasks,
     'The same geometry is presented twice, with other node numbers, node orders inside the triangles, triangle order and set iteration '
     'order; contributions keyed by node must be identical (constitutive, geometric and default shear stiffness).',
     assumptions=COMMON + MESH, expect={'entries do not depend on order or numbering': 700},
     anchors=['plate2d_calc_k0.py:calc_k0', 'plate2d_calc_kG.py:calc_kG', 'cell_based.py:add_k0s'])
PLACES = ('moved', 'turned', 'in another unit of length', 'in another unit of force', 'mirrored', 'rotated')


def frame_tasks(t):
    out = []
    for i, (k, c) in enumerate(five('quick', 1 if t == 'quick' else 2)):
        for m, place in enumerate(PLACES):
            # the shear stiffness has no coupling of its two directions and, but for
            # the default method, depends on the sense of the nodes
            if k not in ('k0', 'kG') and place == 'rotated' or k in ('nosmooth', 'edge') and place == 'mirrored':
                continue
            # every second change for the larger contexts of the quick tier
            if t == 'quick' and c.two and (k == 'kG' and place == 'rotated' or k != 'edge' and (i + m) % 2):
                continue
            out.append((k, c, place))
    return T('frame', out)


spec('C30', 'Matrices follow a change of frame or of units', 'props_plate', frame_tasks,
     'One representative mesh is analysed twice: as it is, and moved by arbitrary amounts, turned, mirrored, or with lengths or forces in another '
     'unit (an arbitrary positive factor). The second result must be the first one with its degrees of freedom transformed accordingly, entry by entry.',
     assumptions=COMMON + MESH, expect={'matrices follow a change of frame or units': 2500},
     anchors=['plate2d_calc_k0.py:calc_k0', 'plate2d_calc_kG.py:calc_kG', 'plate2d_add_k0s_edge_based.py:add_k0s', 'cell_based.py:add_k0s', 'no_smoothing.py:add_k0s'])
spec('C28', 'Meshes of both readers pass through the whole analysis chain', 'props_plate',
     lambda t: T('pipeline', [c.but(reader=r, norder=tuple(c.order[1:] + c.order[:1]) if r == 'nastran' and (c.two or len(c.order) == 3) else c.order)
                              for c in pk.cfgs_edge(t, (False, True), 2) for r in ('delaunay', 'nastran')]),
     'Stiffness, each shear method with both length measures, and geometric stiffness are interpreted one after the other on the mesh of '
     'each reader; no path may raise, use an unbound name or a value of another iteration, or address a row outside the nodes of the domain.',
     assumptions=COMMON[1:2] + MESH, expect={'completes without raising': 100, 'entries addressed through the node numbering': 1000},
     anchors=['plate2d_calc_k0.py:calc_k0', 'plate2d_calc_kG.py:calc_kG', 'read_mesh.py:read_delaunay', 'read_mesh.py:read_mesh'])


# -- interpolation and geometry -----------------------------------------------------
def interp_tasks(nd, cases):
    return lambda t: T('interpolation', cases(t)) + T('extents', [nd])


IN = ['control nodes of one axis are pairwise distinct',
      'exactness is decided for the listed numbers of nodes; for an arbitrary number of nodes when the loops are recognised as sums and products (see the rules)']
spec('C20', 'Plane interpolation is the tensor-product Lagrange polynomial', 'props_interp', interp_tasks(2, pi.cases2),
     'The returned value is computed by abstract interpretation as an exact rational function of evaluation point, control nodes and control '
     'values and compared with the tensor-product Lagrange polynomial; arguments must not be written; fields of another shape must be rejected.',
     assumptions=COMMON[:2] + IN, expect={'interpolant of the control values': 14, 'a field of another shape is rejected': 6},
     anchors=['interpolate.py:interpolate_lagrange_2D'])
spec('C21', 'Spatial interpolation is the tensor-product Lagrange polynomial', 'props_interp', interp_tasks(3, pi.cases3),
     'As for the plane interpolation, with three axes.',
     assumptions=COMMON[:2] + IN, expect={'a field of another shape is rejected': 6}, anchors=['interpolate.py:interpolate_lagrange_3D'])
spec('C22', 'Geometric helpers return exact areas, centres and unit vectors', 'props_interp',
     lambda t: T('area', list(range(3, 9 if t == 'quick' else 17))) + T('helpers', ['unitvec', 'getMid', 'Edge', 'IntegrationPoint']),
     'Results of the helpers are compared, as functions of symbolic coordinates, with the shoelace area of polygons with 3 to 8 (16) vertices, '
     'the mean of the corners, the unit vector, the weighted mean of nodes; arguments must not be written.',
     assumptions=COMMON[:2], expect={'area is half the absolute cross sum': 12, 'unit vector is v/|v|': 7,
                                     'element centre is the mean of its corners': 8, 'edge centre is the mean of its ends': 4},
     anchors=['utils.py:area_of_polygon', 'utils.py:unitvec', 'utils.py:getMid', 'classes.py:getMid'])


# -- messages, history ------------------------------------------------------------
def log_tasks(t):
    cs = [c.but(reader=r) for c in pk.cfgs_edge(t, (False, True), 3 if t == 'quick' else 6) for r in ('delaunay', 'nastran')]
    return T('silent', cs) + T('verbose', cs) + T('logger', ['msg', 'warn', 'error'])


spec('C23', 'Nothing is printed by default; messages never change results', 'props_log', log_tasks,
     'Readers and every analysis step are interpreted and their output effects (printing, files) collected: none by default, at least one '
     'message each when asked for, with the same matrix; the text helpers must return and print the message with their prefix.',
     assumptions=COMMON[1:2] + MESH,
     expect={'nothing is printed or written by default': 20, 'messages do not change the matrix': 100,
             'the message is returned with its prefix': 12, 'printed unless silent': 12},
     anchors=['logger.py:msg', 'logger.py:warn', 'logger.py:error', 'plate2d_calc_k0.py:calc_k0'])


def repeated_tasks(t):
    out = []
    for k in ('k0', 'kG', 'edge', 'cell', 'nosmooth'):
        n = 1 if t == 'quick' else 3
        for c in (edges(t, n) if k in ('k0', 'kG', 'edge') else trias(t, n)):
            out += [(k, c, 'replaced'), (k, c, 'in place')]
    return T('repeated', out)


spec('C24', 'A repeated analysis uses the present data of the mesh', 'props_plate', repeated_tasks,
     'Each analysis is interpreted twice on one mesh whose laminates, coordinates or displacements are replaced, or changed in place, in between; the second result '
     'must equal that of a fresh analysis of the present data, entry by entry (nothing from the first run is kept or accumulated).',
     assumptions=COMMON + MESH, expect={'a repeated analysis uses the present data': 1000}, anchors=['plate2d_calc_k0.py:calc_k0', 'plate2d_calc_kG.py:calc_kG', 'plate2d_add_k0s_edge_based.py:add_k0s'])
spec('C29', 'Constant strains are reproduced exactly (patch test)', 'props_plate',
     lambda t: T('patch', edges(t, 6)),
     'A displacement field linear in the coordinates (six independent strains and curvatures) is put on the representative nodes; twice the '
     'energy of the contribution of an arbitrary edge must be the area of its domain times the laminate energy of these strains, identically.',
     assumptions=COMMON + MESH, expect={'energy of a constant strain state': 12}, anchors=['plate2d_calc_k0.py:calc_k0'])


# -- generated code --------------------------------------------------------------
def print_tasks(rule):
    def tasks(t):
        out = []
        for kind in ('sparse', 'dense', 'array'):
            cs = [c for c in pr.cases(t) if c.kind == kind and (rule == 'entries' or rule == 'inputs' and c.special()
                                                                 or rule == 'file' and c.special())]
            for k in range(0, len(cs), 24):
                out.append(('printing', (rule, cs[k:k + 24]), '%s printer, cases %d to %d' % (kind, k + 1, min(len(cs), k + 24))))
        return out
    return tasks


PRINTER = ['sympytools.py:mprint_as_sparse', 'sympytools.py:mprint_as_dense', 'sympytools.py:mprint_as_array']
PRASS = COMMON[1:2] + ['the rewriting of powers inside the text of one entry (pow2mul) is not analysed, only that it is applied to that entry (N03)',
                       'the loops of the printers treat all entries alike: shapes up to 6x6 and the listed patterns of zeros stand for all']
spec('C25', 'Generated code is written to its file only on request', 'props_print', print_tasks('file'),
     'The printers are interpreted on matrices of opaque entries; opened files, their names and modes, and the written text are collected as effects.',
     assumptions=PRASS, expect={'the text goes to print_<name>.txt, only on request': 100, 'the file holds the returned text': 30}, anchors=PRINTER)
spec('C26', 'Generated code assigns every nonzero entry once at its place', 'props_print', print_tasks('entries'),
     'The printers are interpreted on matrices of opaque entries with every pattern of a family of zero patterns; each line of the resulting text is '
     'compared with the assignment it has to be: target indices, and the entry of the matrix its right-hand side is built from (provenance).',
     assumptions=PRASS, expect={'every nonzero entry is printed once at its place': 600}, anchors=PRINTER)
spec('C27', 'Printing a matrix leaves it unchanged', 'props_print', print_tasks('inputs'),
     'The printers are interpreted on matrices of opaque entries; writes into the matrix, the substitutions and the list of symbols are collected as effects.',
     assumptions=PRASS, expect={"the caller's matrix is left as it is": 100}, anchors=PRINTER)
