G = 'crysgsu/gsu/grid.py'
R = 'crysgsu/remeshing.py'
A = 'crysgsu/convert/ansys_to_crystal.py'
SEEDS = [
 dict(id='c09-edge-in-second-zone', prop='C09', needs='cutting an edge that separates two zones, then a look at the edge list of the second of them',
  breaks='a removed edge stays in the edge list of the second zone that lists it',
  edits=[(G, '            if edge in z.Edges:\n                z.Edges.remove(edge)\n', '            if edge in z.Edges:\n                z.Edges.remove(edge)\n                break\n')],
  demo="""
pts, ts = patch(2, 1)
g = load(dat([('a', ts[:2]), ('b', ts[2:])], pts))
e = [e for e in g.Edges if len(e.Faces) == 2 and e.Faces[0].Zone is not e.Faces[1].Zone][0]
a, b = [n.P for n in e.Nodes]
check(g.cut_edge(e, (a + b) * 0.5), 'not cut')
es = set(map(id, g.Edges))
check(all(id(e) in es for z in g.Zones for e in z.Edges), 'a zone lists an edge that has left the grid')
"""),
 dict(id='c09-forgotten-position', prop='C09', needs='an edge is collapsed, and a later edit puts a node at the position that became free',
  breaks='the position of a deleted node stays occupied, a new node there is answered by no node',
  edits=[(G, '        self.Nodes.remove(node)\n        self.RoundedCoordsBag.remove(node.RoundedCoords)\n', '        self.Nodes.remove(node)\n')],
  demo="""
pts, ts = patch(4, 4)
g = load(dat([('a', ts)], pts))
inner = [e for e in g.Edges if len(e.Faces) == 2 and all(all(len(x.Faces) == 2 for x in n.Edges) for n in e.Nodes)]
before = {tuple(n.P.Coords) for n in g.Nodes}
g.collapse_edge(inner[0])
gone = [p for p in before if p not in {tuple(n.P.Coords) for n in g.Nodes}]
for p in gone:
    n = gsu.Node(geom.Vect(*p))
    check(g.find_near_node(n) is None, 'setup')
    check(g.add_node(n, True) is n, 'the free position is still taken')
"""),
 dict(id='c11-first-half', prop='C11', needs='a cloud of a single triangle asked for its intersections with a larger cloud, with hits in both halves of it',
  breaks='only the pairs of the first half of the other cloud that has any are reported',
  edits=[('crysgsu/geom/triangles_cloud.py', '            return list(itertools.chain(*[self.intersection_with_triangles_cloud(b) for b in tc.Subclouds]))\n',
          '            return next((r for r in map(self.intersection_with_triangles_cloud, tc.Subclouds) if r), [])\n')],
  demo="""
V = geom.Vect
one = geom.Triangle(V(-1., 0.2, -1.), V(9., 0.2, -1.), V(4., 0.2, 9.))
many = [geom.Triangle(V(i + 0., 0., 0.5), V(i + 0.8, 0., 0.5), V(i + 0.1, 1., 0.6)) for i in range(5)]
r = geom.TrianglesCloud([one]).intersection_with_triangles_cloud(geom.TrianglesCloud(list(many)))
want = {id(t) for t in many if one.intersection_with_triangle(t) != []}
check(len(want) >= 2, 'setup')
check({id(p[0]) for p in r} - {id(one)} == want, 'a pair is missed')
"""),
 dict(id='c12-negative-chunk', prop='C12', needs='height smoothing strong enough to take more ice from a face than it has in this step',
  breaks='a chunk that became negative is cut off at zero, so smoothing creates ice',
  edits=[(R, '                face.ice_chunk = face.loc_ice_chunk\n', '                face.ice_chunk = max(face.loc_ice_chunk, 0.0)\n')],
  demo="""
import remeshing
pts, ts = patch(3, 3)
g = load(dat([('a', ts)], pts))
t = remeshing.TongRemesher('m.dat', None, '')
t.grid = g
t.hsmooth_steps, t.hsmooth_alfa, t.hsmooth_beta = 1, 1.0, 1.0
for i, f in enumerate(g.Faces):
    f.rest_ice = f.target_ice = f.get_triangle().area() * (0.001 if i == 7 else 0.0)
    f.actual_ice = 0.0
t.calc_ice_chunks(1)
t.init_ice_dirs()
t.define_ice_shifts()
t.define_ice_shifts = lambda: None
before = sum(f.ice_chunk for f in g.Faces)
t.heights_smoothing()
check(abs(sum(f.ice_chunk for f in g.Faces) - before) < 1e-12, 'smoothing changed the total of the ice')
"""),
 dict(id='c16-zone-prefix', prop='C16', needs='a file with a zone whose name begins with the name of a requested zone',
  breaks='a zone that was not requested is copied',
  edits=[(A, """        str = 'T="%s"' % zone_to_extract\n""", """        str = 'T="%s' % zone_to_extract\n""")],
  demo='''
import ansys_to_crystal as A
A.zones_to_extract = ['wing']
with scratch() as d:
    lines = ['TITLE="t"', 'VARIABLES="X","Y","Z"', 'ZONE T="wing2", N=2, E=1', '0 0 0', '1 0 0', '1 2 1 2', 'ZONE T="wing", N=1, E=1', '5 5 5', '1 1 1 1']
    open(d + '/i', 'w').write('\\n'.join(lines) + '\\n')
    quiet(A.filter_zones, d + '/i', d + '/o')
    got = open(d + '/o').read().split('\\n')[:-1]
check(got == lines[:2] + lines[6:], 'other zones than the requested one are in the output')
'''),
 dict(id='c17-opposite-corners', prop='C17', needs='an element whose first and third corner are the same node',
  breaks='such an element becomes two degenerate faces instead of one triangle',
  edits=[('crysgsu/convert/gsu_converter.py', '                        elif n1 == n3:\n                            faces.append(Face(n1, n2, n4))\n', '')],
  demo='''
import gsu_converter
with scratch() as d:
    open(d + '/i', 'w').write('TITLE="t"\\nVARIABLES="X"\\nZONE T="z", N=4, E=1\\n' + ''.join('%d %d 0 1 2 3 4 5 6\\n' % (i, i * i) for i in range(4)) + '2 3 2 4\\n')
    for rev in (False, True):
        g = gsu_converter.Grid()
        g.LoadNodesData(d + '/i', rev)
        check([sorted(n.Id for n in f.Nodes) for f in g.Zones[0].Faces] == [[1, 2, 3]], 'not the triangle of the distinct corners')
'''),
 dict(id='c18-approximate-neighbour', prop='C18', needs='a source mesh large enough for the search tree to have several leaves, and a target face whose nearest source face lies in another leaf than the first one looked at',
  breaks='data is taken from a face that is not the nearest',
  edits=[('crysgsu/convert/interpolate.py', '        i = kdtree.query(f.aux_node.coords_as_np())[1]\n', '        i = kdtree.query(f.aux_node.coords_as_np(), eps=4.0)[1]\n')],
  demo='''
import interpolate
pts, ts = patch(16, 16, lambda i, j: 0.9 * ((i * 7 + j * 5) % 4))
a = load(dat([('a', ts)], pts))
sh = [(x * 0.93 + 0.31, y * 1.04 + 0.27, z * 0.7) for x, y, z in pts]
b = load(dat([('a', ts)], sh, lambda j, i: -1.0))
for i, f in enumerate(a.Faces):
    f['T'] = float(i)
    f['Hw'] = float(-i)
quiet(interpolate.face_centered_interpolation, a, b)
c = [f.get_triangle().centroid() for f in a.Faces]
for f in b.Faces:
    p = f.get_triangle().centroid()
    check(p.dist_to(c[int(f['T'])]) <= min(p.dist_to(q) for q in c) + 1e-12, 'not the nearest face')
'''),
 dict(id='c20-signed-volume', prop='C20', needs='a tetrahedron whose corners are given in the other orientation',
  breaks='the volume of a tetrahedron is negative for one of the two orientations',
  edits=[('crysgsu/geom/utils.py', '    return abs(Vect.dot_product((a - d), Vect.cross_product(b - d, c - d))) / 6.0\n', '    return Vect.dot_product((a - d), Vect.cross_product(b - d, c - d)) / -6.0\n')],
  demo='''
V = geom.Vect
a, b, c, d = V(0., 0., 0.), V(1., 0., 0.), V(0., 1., 0.), V(0., 0., 1.)
for q in ((a, b, c, d), (b, a, c, d)):
    check(abs(geom.utils.tetrahedron_volume(*q) - 1 / 6) < 1e-12, 'not the volume')
'''),
 dict(id='c21-inside-zones', prop='C21', needs='a predicate that holds for faces of two zones and a component that reaches over the border between them',
  breaks='the path of a component stops at zone borders',
  edits=[(G, '                if not e.is_border():\n                    f2 = f.get_neighbour(e)\n', '                if e.is_inner():\n                    f2 = f.get_neighbour(e)\n')],
  demo="""
pts, ts = patch(3, 2)
g = load(dat([('a', ts[:6]), ('b', ts[6:])], pts))
for f in g.Faces:
    f.bfs_mark = False
p = g.bfs_path_connectivity_component(g.Faces[0], lambda f: True)
check(p[0] is g.Faces[0] and sorted(map(id, p)) == sorted(map(id, g.Faces)), 'reachable faces are missed')
"""),
 dict(id='c22-zero-ignored', prop='C22', needs='a configuration that sets a coefficient to zero',
  breaks='a configured zero is replaced by the default',
  edits=[(R, "            self.hsmooth_alfa = data['remesh_hsmooth_alfa']\n", "            self.hsmooth_alfa = data['remesh_hsmooth_alfa'] or self.hsmooth_alfa\n")],
  demo="""
import remeshing
t = remeshing.TongRemesher('m.dat', None, '')
t.try_to_read_options({'remesh_hsmooth_alfa': 0.0})
check(t.hsmooth_alfa == 0.0, 'the configured value is not used')
"""),
]
