G = 'crysgsu/gsu/grid.py'
SEEDS = [
 dict(id='c01-coincident-in-zone', prop='C01', needs='a zone that lists two coincident points (merging on), so the second one maps to a node the zone already has',
  breaks='the local node numbering of the zone shifts, faces get other nodes than their file lines name',
  edits=[(G, '                        node = self.add_node(node, is_merge_same_nodes)\n                        zone.add_node(node)\n',
             '                        node = self.add_node(node, is_merge_same_nodes)\n                        if not any(x is node for x in zone.Nodes):\n                            zone.add_node(node)\n')],
  demo='''
t = """TITLE="t"
VARIABLES="X", "Y", "Z", "T"
ZONE T="a"
NODES=5
ELEMENTS=2
DATAPACKING=BLOCK
ZONETYPE=FETRIANGLE
VARLOCATION=([4-4]=CELLCENTERED)
0.0 1.0 0.0 1.0 1.0
0.0 0.0 1.0 0.0 1.0
0.0 0.0 0.0 0.0 0.0
1.0 2.0
1 2 3
4 5 3
"""
try:
    g = load(t)
except IndexError:
    check(False, 'a face refers to a node the zone does not have')
check([[tuple(n.P.Coords[:2]) for n in f.Nodes] for f in g.Faces] == [[(0, 0), (1, 0), (0, 1)], [(1, 0), (1, 1), (0, 1)]], 'faces have other nodes than the file says')
'''),
 dict(id='c02-sixteen-digits', prop='C02', needs='a value that needs seventeen significant digits',
  breaks='coordinates are stored with sixteen significant digits, so some come back as a different double',
  edits=[('crysgsu/gsu/zone.py', "'{0:.18e}'.format(node.P[i]) for", "'{0:.15e}'.format(node.P[i]) for")],
  demo="""
pts, ts = patch(2, 2)
pts = [(x + 0.1 + 0.2, y * (1.0 / 3.0), 1e-7 / 3.0 * (x + 1)) for x, y, z in pts]
g = load(dat([('a', ts[:3]), ('b', ts[3:])], pts))
with scratch() as d:
    g.store(d + '/o.dat')
    h = gsu.Grid()
    h.load(d + '/o.dat')
c = lambda g: [[tuple(n.P.Coords) for n in f.Nodes] for f in g.Faces]
check(c(g) == c(h), 'corners changed')
"""),
 dict(id='c03-fixed-zone-lost', prop='C03', needs='a hierarchical decomposition with a fixed zone and at least two levels',
  breaks='faces of a fixed zone that is large enough to be split are moved out of it',
  edits=[(G, '        if zone.IsFixed:\n', '        if zone.IsFixed and len(zone.Faces) < 2:\n')],
  demo='''
pts, ts = patch(3, 3)
g = load(dat([('a', ts[:6]), ('b', ts[6:])], pts))
before = [id(f) for f in g.Zones[0].Faces]
quiet(g.decompose_hierarchical, levels=2, fixed_zones=['a'])
z = [z for z in g.Zones if z.Name == 'a']
check(len(z) == 1 and [id(f) for f in z[0].Faces] == before, 'the fixed zone lost its faces')
partition(g)
'''),
 dict(id='c04-one-sided-cut', prop='C04', needs='cut edges that list the right half before the left half, in a number that changes which axis is best',
  breaks='the number of edges cut along an axis is undercounted, so the chosen axis does not cut the fewest edges',
  edits=[(G, '                    if (ff.Zone == zl and sf.Zone == zr) or (ff.Zone == zr and sf.Zone == zl):\n',
             '                    if ff.Zone == zl and sf.Zone == zr:\n')],
  demo='''
import random, itertools
def cut(g, fs, k):
    v = sorted(f.get_center()[k] for f in fs)
    b = v[len(v) // 2]
    l = {id(f) for f in fs if f.get_center()[k] < b}
    if not l or len(l) == len(fs):
        return None, None
    return sum(len(e.Faces) == 2 and (id(e.Faces[0]) in l) != (id(e.Faces[1]) in l) for e in g.Edges), l
r = random.Random(5)
for _ in range(60):
    n, m = r.randint(2, 4), r.randint(2, 4)
    pts, ts = patch(n, m, lambda i, j: 0.3 * r.random())
    ts = list(ts)
    r.shuffle(ts)
    g = load(dat([('a', ts)], pts))
    want = [c for c in (cut(g, g.Faces, k)[0] for k in range(3)) if c is not None]
    quiet(g.decompose_hierarchical, levels=2)
    got = sum(len(e.Faces) == 2 and e.Faces[0].Zone is not e.Faces[1].Zone for e in g.Edges)
    check(got == min(want), 'the cut has %d edges, the best axis cuts %d' % (got, min(want)))
'''),
 dict(id='c05-stale-fixed', prop='C05', needs='a decomposition that keeps a fixed zone which already lists its nodes and edges',
  breaks='a kept zone lists its nodes and edges twice',
  edits=[(G, '        for z in self.Zones:\n            z.Nodes.clear()\n            z.Edges.clear()\n',
             '        for z in self.Zones:\n            if not z.IsFixed:\n                z.Nodes.clear()\n                z.Edges.clear()\n')],
  demo='''
pts, ts = patch(3, 2)
g = load(dat([('a', ts[:5]), ('b', ts[5:])], pts))
zone_lists(g)
quiet(g.decompose_farhat, 2, fz_names=['b'])
zone_lists(g)
'''),
 dict(id='c06-longest-border', prop='C06', needs='border edges in the last zone of the list (the slice of the last zone reaches the border column)',
  breaks='border edges of the last zone are counted as cross edges, so the total exceeds the number of edges',
  edits=[('crysgsu/gsu/zones_adjacency_matrix.py', '            cec += sum(line[(i + 1):self.ZonesCount])\n', '            cec += sum(line[(i + 1):max(self.ZonesCount, i + 2)])\n')],
  demo='''
pts, ts = patch(3, 2)
g = load(dat([('a', ts[:5]), ('b', ts[5:])], pts))
s = gsu.zones_adjacency_matrix.ZonesAdjacencyMatrix(g.Edges, g.Zones).edges_statistics()
w = (len(g.Edges), sum(len(e.Faces) == 1 for e in g.Edges), sum(len(e.Faces) == 2 and e.Faces[0].Zone is e.Faces[1].Zone for e in g.Edges),
     sum(len(e.Faces) == 2 and e.Faces[0].Zone is not e.Faces[1].Zone for e in g.Edges))
check(tuple(s[:4]) == w, 'statistics %s instead of %s' % (s[:4], w))
'''),
 dict(id='c07-border-numbering', prop='C07', needs='three zones and a border between zones whose shared edges have other local numbers in an earlier written zone',
  breaks='edges of a border are written once per zone pair only: the file of the higher zone lists no edges for borders already written by the lower one when the pair is not adjacent in order',
  edits=[(G, '                            if e.is_connect_zones(z, lz):\n', '                            if e.is_connect_zones(z, lz) and (abs(li - zi) == 1 or e.Faces[0].Zone == z or li > zi):\n')],
  demo='''
pts, ts = patch(3, 3)
bad = 0
import random
r = random.Random(3)
for _ in range(20):
    t2 = list(ts)
    r.shuffle(t2)
    g = load(dat([('a', t2[:6]), ('b', t2[6:12]), ('c', t2[12:])], pts))
    with scratch() as d:
        g.store_mpi(d + '/m', '000000000000')
        lines = [open(d + '/m_%05d_000000000000.cry' % i).read().split('\\n') for i in range(3)]
    for a in range(3):
        for b in range(3):
            if a == b:
                continue
            want = [i for i, e in enumerate(g.Zones[a].Edges) if e.is_connect_zones(g.Zones[a], g.Zones[b])]
            got = [[int(x) for x in l.split()[1:]] for l in lines[a] if l.startswith('[%d] ' % b)]
            check(got == ([want] if want else []), 'border %d-%d: %s instead of %s' % (a, b, got, want))
'''),
 dict(id='c08-previous-timestamp', prop='C08', needs='a directory with two timestamps whose later group does not list every face the earlier one listed',
  breaks='values of one timestamp leak into the merged grid of another',
  edits=[('crysgsu/merge.py', '        g.load(grid_file)\n', '        if not g.Faces:\n            g.load(grid_file)\n')],
  demo='''
import merge
pts, ts = patch(2, 1)
with scratch() as d:
    open(d + '/g.dat', 'w').write(dat([('a', ts)], pts))
    os.makedirs(d + '/src')
    h = 'VARIABLES="GloId", "T", "Hw"\\n'
    open(d + '/src/g_00000_000000000001.txt', 'w').write(h + '0 1.5 2.5\\n')
    open(d + '/src/g_00000_000000000002.txt', 'w').write(h + '1 7.5 8.5\\n')
    quiet(merge.merge, d + '/g.dat', d + '/src', d + '/dst')
    for tm, hit in (('000000000001', 0), ('000000000002', 1)):
        h = gsu.Grid()
        h.load(d + '/dst/g_r_%s.dat' % tm) if False else None
        txt = open(d + '/dst/g_r_%s.dat' % tm).read()
        o = gsu.Grid()
        o.load(d + '/g.dat')
        o.load_faces_calc_data(d + '/src/g_00000_%s.txt' % tm)
        o.store(d + '/want.dat')
        check(txt == open(d + '/want.dat').read(), 'timestamp %s holds data of another one' % tm)
'''),
 dict(id='c09-flip-identifiers', prop='C09', needs='flipping an edge whose removed faces are not the last ones of the grid, followed by a look at the identifiers',
  breaks='both new faces of a flip get the identifier of the first removed face when the second one is a lower one',
  edits=[(G, '            gloid2 = other_face.GloId\n', '            gloid2 = max(other_face.GloId, gloid1)\n')],
  demo='''
pts, ts = patch(3, 3, lambda i, j: 0.05 * i * j)
for k in range(len(ts)):
    g = load(dat([('a', ts)], pts))
    f = g.Faces[k]
    e = f.max_edge_from_face()
    if len(e.Faces) == 2:
        check(g.collapse_face(f) is True, 'flip refused')
        check(sorted(x.GloId for x in g.Faces) == list(range(len(g.Faces))), 'face identifiers are not dense')
'''),
 dict(id='c10-edge-of-triangle', prop='C10', needs='a segment that meets the triangle near the far side, where both barycentric coordinates are large',
  breaks='points of the triangle with alfa + beta above the larger coordinate bound are missed',
  edits=[('crysgsu/geom/triangle.py', '        is_inside_tri = (alfa >= 0.0) and (beta >= 0.0) and (alfa + beta <= 1.0)\n',
          '        is_inside_tri = (alfa >= 0.0) and (beta >= 0.0) and (alfa + beta <= 1.0) and (alfa * beta <= 0.24)\n')],
  demo='''
t = geom.Triangle(geom.Vect(0., 0., 0.), geom.Vect(4., 0., 0.), geom.Vect(0., 4., 0.))
for x, y in ((1., 1.), (1.99, 1.99), (0.5, 3.)):
    r = t.intersection_with_segment(geom.Segment(geom.Vect(x, y, -1.), geom.Vect(x, y, 1.)))
    check(len(r) == 1 and r[0].dist_to(geom.Vect(x, y, 0.)) < 1e-9, 'no intersection at %s %s' % (x, y))
'''),
 dict(id='c11-touching-boxes', prop='C11', needs='a box flat along an axis (axis aligned triangles) or boxes that touch exactly',
  breaks='segments whose box only touches the cloud box in z are pruned',
  edits=[('crysgsu/geom/box.py', '        is_no_z = (sb.MinZ > self.MaxZ) or (sb.MaxZ < self.MinZ)\n', '        is_no_z = (sb.MinZ >= self.MaxZ) or (sb.MaxZ < self.MinZ)\n')],
  demo='''
ts = [geom.Triangle(geom.Vect(float(i), 0., 0.), geom.Vect(i + 1., 0., 0.), geom.Vect(float(i), 1., 0.)) for i in range(4)]
c = geom.TrianglesCloud(list(ts))
s = geom.Segment(geom.Vect(2.25, 0.25, 0.), geom.Vect(2.25, 0.25, 1.))
check(ts[2].intersection_with_segment(s) != [], 'setup')
r = c.first_intersection_with_segment(s)
check(r is not None and r.intersection_with_segment(s) != [], 'a met triangle is missed')
'''),
 dict(id='c13-flag-count', prop='C13', needs='marking fixed nodes on a mesh in which some nodes are flagged already (a second call)',
  breaks='nodes flagged before are counted again',
  edits=[(G, '                    if not n.border:\n                        n.border = True\n                        self.number_of_border_nodes += 1\n',
             '                    if not n.border or e.GloId == 0:\n                        n.border = True\n                        self.number_of_border_nodes += 1\n')],
  demo='''
import itertools
pts, ts = patch(2, 2)
for k in range(len(ts)):
    for j in range(3):
        t2 = ts[k:] + ts[:k]
        t2[0] = t2[0][j:] + t2[0][:j]
        g = load(dat([('a', t2)], pts))
        g.Edges.reverse()
        g.mark_all_fixed_nodes()
        want = {id(n) for e in g.Edges if len(e.Faces) == 1 for n in e.Nodes}
        check({id(n) for n in g.Nodes if n.border} == want, 'flags')
        check(g.number_of_border_nodes == len(want), 'count %d instead of %d' % (g.number_of_border_nodes, len(want)))
'''),
 dict(id='c14-step-limit', prop='C14', needs='a flight whose last allowed step crosses a surface',
  breaks='the step limit is reported before the crossing by the last step is looked at',
  edits=[('crysgsu/drops.py', '            tr.add_point(fp)\n', '            tr.add_point(fp)\n            if tr.points_count() > max_steps:\n                return \'N\', None, tr\n')],
  demo='''
import drops
ps = [(geom.Vect(float(x), float(y), float(z)), geom.Vect(1., 0., 0.)) for x in (0, 10) for y in (0, 10) for z in (0, 10)]
s = drops.Space(ps, [p[0].coords_tuple() for p in ps])
tri = geom.Triangle(geom.Vect(3.5, 0., 0.), geom.Vect(3.5, 10., 0.), geom.Vect(3.5, 0., 10.))
tri.BackRef = 'face'
c = geom.TrianglesCloud([tri])
for m in (2, 3, 4, 5):
    r = s.fly(geom.Vect(1., 1., 1.), geom.Vect(1., 0., 0.), 1e-3, 1.0, c, m)
    met = tri.intersection_with_segment(geom.Segment(r[2].Points[-2], r[2].Points[-1])) != []
    check((r[0] == 'C') == met, 'the last segment %s the triangle and the flight ends with %s' % ('meets' if met else 'misses', r[0]))
'''),
 dict(id='c15-group-order', prop='C15', needs='three files of one timestamp, interleaved with another timestamp',
  breaks='a file is put in front of its group when the group already has two members',
  edits=[('crysgsu/utils.py', '            v.append(f)\n', '            v.insert(min(len(v), 2), f)\n')],
  demo='''
import utils
fs = ['a_%05d_%012d.txt' % (i, t) for i, t in ((0, 1), (1, 1), (0, 2), (2, 1), (3, 1), (4, 1), (1, 2))]
d = utils.group_txt_files_by_timestamps(fs)
for t in (1, 2):
    check(d['%012d' % t] == [f for f in fs if f[-16:-4] == '%012d' % t], 'group of timestamp %d is out of order' % t)
'''),
 dict(id='c19-zone-names', prop='C19', needs='querying a cross edge with the same zone twice',
  breaks='a cross edge is said to connect each of its zones with itself',
  edits=[('crysgsu/gsu/edge.py', '        return ((z0 == fz0) and (z1 == fz1)) or ((z0 == fz1) and (z1 == fz0))\n', '        return ((z0 == fz0) or (z0 == fz1)) and ((z1 == fz1) or (z1 == fz0))\n')],
  demo='''
pts, ts = patch(2, 1)
g = load(dat([('a', ts[:2]), ('b', ts[2:])], pts))
for e in g.Edges:
    for x in g.Zones:
        for y in g.Zones:
            want = len(e.Faces) == 2 and sorted(map(id, (x, y))) == sorted(id(f.Zone) for f in e.Faces)
            check(e.is_connect_zones(x, y) == want, 'an edge is said to connect %s and %s' % (x.Name, y.Name))
'''),
]
