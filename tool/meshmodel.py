"""Model of the pyNastran objects that the program consumes, and the
representative meshes on which it is analysed."""
import numpy as np

import algebra as al
from algebra import Poly, ZERO, ONE
from engine import (AbsRaise, AList, ADict, ASet, SymColl, AObj, ExtClass, Builtin, Opaque,
                    as_poly, const_int, objarray)
import engine as en


def vec(*c):
    return objarray([al.lift(x) for x in c])


def node_ids(M, I, o):
    refs = o.attrs.get('nodes_ref')
    if refs is not None:
        return I.new_list([None if n is None else I.getattr(n, 'nid') for n in M.concrete(I, refs)])
    return I.new_list(M.concrete(I, o.attrs['nodes']))


def positions(M, I, o):
    refs = o.attrs.get('nodes_ref')
    if refs is None:
        raise AbsRaise('AttributeError', 'cross-referencing is needed', I.loc)
    xyz = [I.getattr(n, 'xyz') for n in M.concrete(I, refs)]
    out = np.empty((len(xyz), 3), dtype=object)
    for i, x in enumerate(xyz):
        out[i] = x
    return out


def cross3(u, v):
    return objarray([u[1]*v[2] - u[2]*v[1], u[2]*v[0] - u[0]*v[2], u[0]*v[1] - u[1]*v[0]])


def tria_area(M, I, o):
    p = positions(M, I, o)
    c = cross3(p[1] - p[0], p[2] - p[0])
    return al.psqrt(c[0]*c[0] + c[1]*c[1] + c[2]*c[2])*Poly.const(al.Fraction(1, 2))


GRID = ExtClass('GRID', None, (ExtClass('BaseCard'),))
ELEMENT = ExtClass('Element')
SHELL = ExtClass('ShellElement', None, (ELEMENT,))
TRISHELL = ExtClass('TriShell', None, (SHELL,))
QUADSHELL = ExtClass('QuadShell', None, (SHELL,))
CTRIA3 = ExtClass('CTRIA3', None, (TRISHELL,))
CQUAD4 = ExtClass('CQUAD4', None, (QUADSHELL,))
CTRIAR = ExtClass('CTRIAR', None, (TRISHELL,))
CTRIA6 = ExtClass('CTRIA6', None, (TRISHELL,))
LINE = ExtClass('LineElement', None, (ELEMENT,))
CBAR = ExtClass('CBAR', None, (LINE,))
CBEAM = ExtClass('CBEAM', None, (LINE,))
CROD = ExtClass('CROD', None, (ExtClass('RodElement', None, (ELEMENT,)),))
CSHEAR = ExtClass('CSHEAR', None, (QUADSHELL,))
CELAS2 = ExtClass('CELAS2', None, (ExtClass('SpringElement', None, (ELEMENT,)),))
CTETRA = ExtClass('CTETRA4', None, (ExtClass('SolidElement', None, (ELEMENT,)),))
# other elements a deck may hold: (class, number of grid points, type)
OTHERS = {'CQUAD4': (CQUAD4, 4, 'CQUAD4'), 'CBAR': (CBAR, 2, 'CBAR'), 'CTRIA6': (CTRIA6, 6, 'CTRIA6'),
          'CTRIAR': (CTRIAR, 3, 'CTRIAR'), 'CROD': (CROD, 2, 'CROD'), 'CBEAM': (CBEAM, 2, 'CBEAM'),
          'CSHEAR': (CSHEAR, 4, 'CSHEAR'), 'CELAS2': (CELAS2, 2, 'CELAS2'), 'CTETRA4': (CTETRA, 4, 'CTETRA')}
BDFC = ExtClass('BDF')


def make_grid(M, I, nid, xyz, cp=ZERO, cd=ZERO, name=None):
    o = AObj(GRID, name or 'node', True)
    o.attrs.update(nid=nid, cp=cp, cd=cd, xyz=xyz, type='GRID', ps='', seid=ZERO, cp_ref=None, cd_ref=None)
    o.methods['get_position'] = lambda I2, a, k: I2.getattr(o, 'xyz')
    o.methods['Position'] = o.methods['get_position']
    o.methods['Nid'] = lambda I2, a, k: nid
    return o


def make_shell(M, I, cls, eid, ids, name=None):
    o = AObj(cls, name or 'elem', True)
    o.attrs.update(eid=eid, pid=ZERO, nodes=ids, nodes_ref=None, pid_ref=None, type=cls.name,
                   theta_mcid=ZERO, zoffset=ZERO)

    def hook(I2, o2, name):
        if name == 'node_ids':
            return (node_ids(M, I2, o),)
        return None
    o.getattr_hook = hook

    def edge_ids(I2, a, k):
        ids = M.concrete(I2, node_ids(M, I2, o))
        n = len(ids)
        out = []
        for i in range(n):
            p, q = ids[i], ids[(i+1) % n]
            if I2.decide('<', p - q):
                out.append((p, q))
            else:
                out.append((q, p))
        return I2.new_list(out)
    m = o.methods
    m['get_edge_ids'] = edge_ids
    m['get_node_positions'] = lambda I2, a, k: positions(M, I2, o)
    m['get_area'] = m['Area'] = lambda I2, a, k: tria_area(M, I2, o)
    m['_node_ids'] = lambda I2, a, k: I2.new_list([I2.getattr(n, 'nid') for n in M.concrete(I2, k.get('nodes', a[0] if a else o.attrs['nodes_ref']))])

    def centroid(I2, a, k):
        p = positions(M, I2, o)
        return (p[0] + p[1] + p[2])/3 if len(p) == 3 else I2.undecided('centroid')
    for n in ('Centroid', 'center_of_mass', 'centroid'):
        m[n] = centroid
    m['Eid'] = lambda I2, a, k: eid
    return o


def make_bdf(M, I):
    o = AObj(BDFC, 'mesh', True)
    o.attrs['nodes'] = I.new_dict()
    o.attrs['elements'] = I.new_dict()
    for n in ('properties', 'materials', 'coords', 'rigid_elements', 'loads', 'spcs'):
        o.attrs[n] = I.new_dict()

    def add_grid(I2, a, k):
        nid = a[0] if a else k['nid']
        xyz = a[1] if len(a) > 1 else k['xyz']
        g = make_grid(M, I2, nid, M.arr(I2, xyz))
        M.dict_set(I2, o.attrs['nodes'], nid, g)
        return g
    o.methods['add_grid'] = add_grid

    def add_ctria3(I2, a, k):
        eid = a[0] if a else k['eid']
        nids = a[2] if len(a) > 2 else k['nids']
        e = make_shell(M, I2, CTRIA3, eid, I2.new_list(M.concrete(I2, nids)))
        M.dict_set(I2, o.attrs['elements'], eid, e)
        return e
    o.methods['add_ctria3'] = add_ctria3
    return o


def pynastran(M, I, attr):
    if attr == 'read_bdf':
        def rd(I2, a, k):
            if M.mesh_source is None:
                I2.undecided('read_bdf')
            # signature of read_bdf(), without save_file_structure (absent in older versions)
            kw = dict(zip(('bdf_filename', 'validate', 'xref', 'punch'), a))
            kw.update(k)
            I2.effect('read-bdf', path=kw.get('bdf_filename'), kw=kw, n=len(a))
            return M.mesh_source(I2)
        return Builtin('read_bdf', rd)
    if attr == 'BDF':
        c = ExtClass('BDF', lambda I2, a, k: make_bdf(M, I2))
        return c
    if attr == 'GRID':
        def g(I2, a, k):
            names = ['nid', 'xyz', 'cp', 'cd', 'ps', 'seid']
            d = dict(zip(names, a))
            d.update(k)
            x = d['xyz']
            x = M.arr(I2, x)
            return make_grid(M, I2, d['nid'], x, d.get('cp', ZERO), d.get('cd', ZERO))
        return ExtClass('GRID', g)
    if attr == 'CTRIA3':
        def t(I2, a, k):
            names = ['eid', 'pid', 'nids', 'zoffset']
            d = dict(zip(names, a))
            d.update(k)
            return make_shell(M, I2, CTRIA3, d['eid'], I2.new_list(M.concrete(I2, d['nids'])))
        c = ExtClass('CTRIA3', t)
        return c
    if attr in OTHERS or attr in ('CQUAD8', 'CTRAX3', 'TriShell', 'ShellElement', 'Element', 'LineElement', 'QuadShell', 'RodElement'):
        return ExtClass(attr)
    if attr in ('bdf', 'mesh_utils'):
        return None
    return None
