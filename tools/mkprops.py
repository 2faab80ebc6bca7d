"""Generates /verif/properties.jsonl (kept as a script so that wording is edited in one place)."""
import json, os
G='crysgsu/gsu/grid.py'; R='crysgsu/remeshing.py'
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        observe_at=list(observe),hook_needed=None)))

prop('C01','Loading a surface file builds a mutually consistent mesh',
 'Loading a well-formed surface file yields a mesh whose links are mutual and complete: every face has the three nodes its file line names, in that order, and three edges; every edge joins two nodes, there is exactly one edge per connected node pair, and an edge lists exactly the one or two faces that contain both its nodes. Node, edge and face identifiers equal positions in the grid lists; with merging on, nodes whose coordinates agree after rounding to ten decimals are a single node, with merging off every listed node stays separate. A file that would put a third face on an edge, or whose zone header is malformed, is rejected with an error.',
 ['inputs'],'every well-formed file: any zone, node and face count, any connectivity, both merge modes',
 'The tests load three fixed files and only check identifiers after a few edits; the links of an arbitrary mesh are never compared with the file.',
 [G,'crysgsu/gsu/node.py','crysgsu/gsu/edge.py','crysgsu/gsu/face.py'],
 [('load','%s Grid.load'%G),('node merging','%s Grid.add_node / find_near_node'%G),('edge creation','%s Grid.complex_link_face_node_node_edge / find_edge'%G),('pairwise linking','%s Grid.link_node_edge, link_node_face, link_edge_face'%G)],
 [('Nodes/Edges/Faces','grid-wide object lists, position = identifier',G),('RoundedCoordsBag','rounded coordinates of all nodes',G)],['the object graph reachable from a Grid'])

prop('C02','Storing a mesh and loading it back preserves it',
 'Storing a mesh and loading the stored file reproduces the mesh: the same title, the same zones in the same order with the same names, per zone the same faces in the same order, each with the same three corner coordinates in the same order and the same value for every variable, all as exact 64-bit floats. Storing does not change the mesh.',
 ['inputs'],'every consistent mesh (any number of zones, nodes, faces and variables; names free of quote, equals sign and newline)',
 'case_001 loads and stores one single-zone grid and compares nothing; multi-zone numbering, shared nodes and precision are never checked.',
 [G,'crysgsu/gsu/zone.py'],
 [('store','%s Grid.store'%G),('local node numbering','%s Grid.store loc_ids'%G),('slices','crysgsu/gsu/zone.py get_nodes_coord_slice_str, get_faces_data_slice_str'),('load','%s Grid.load'%G)],
 [],['the written .dat file','the reloaded Grid'])

prop('C03','Every decomposition puts each face in exactly one zone',
 'After any decomposition (mono, random, linear, hierarchical, Farhat) of a consistent mesh, every face is listed exactly once in exactly one zone of the grid, that zone is the one the face refers to, and zones list nothing else. Zones declared fixed in the hierarchical and Farhat decompositions keep exactly their faces; geometry, connectivity and face data are unchanged. No face is lost or duplicated, and decompositions may be applied one after another.',
 ['inputs','histories'],'every consistent mesh, every zone count or level count, every set of fixed zones, any sequence of decompositions',
 'case_002 runs each algorithm once on one grid and asserts nothing about the resulting partition.',
 [G,'crysgsu/gsu/zone.py','crysgsu/gsu/face.py'],
 [('relinking','crysgsu/gsu/zone.py Zone.add_face; face.py Face.unlink_from_zone'),('decompositions','%s decompose_mono/random/linear/hierarchical/farhat'%G),('splitting','%s split_zone, split_zone_metric'%G)],
 [('Zone.Faces / Face.Zone','two views of the partition','crysgsu/gsu/zone.py, face.py')],['Grid.Zones after the call'])

prop('C04','Linear and Farhat decompositions are balanced, hierarchical halves by median',
 'Linear and Farhat decomposition into n domains create exactly n new zones whose face counts differ by at most one (linear also keeps face order: each zone is a contiguous run). Splitting a zone hierarchically sends a face left exactly when its coordinate is below the median of the zone along the chosen axis, both halves are non-empty, and the chosen axis cuts the fewest edges; a zone that cannot be split is kept whole.',
 ['inputs'],'every mesh, n and level count, including meshes flat along an axis and disconnected meshes',
 'The tests never look at zone sizes or at the cut.',
 [G],[('linear','%s decompose_linear'%G),('farhat','%s decompose_farhat'%G),('split','%s split_zone, split_zone_metric'%G)],[],['Grid.Zones sizes and order'])

prop('C05','Zone node and edge lists are exactly the incident ones',
 'After loading and after every decomposition, a zone lists a node exactly once if and only if some face of the zone contains the node, and an edge exactly once if and only if some face of the zone lies on the edge; both lists follow the grid order. No stale entries from an earlier decomposition remain.',
 ['inputs','histories'],'every mesh and every assignment of faces to zones',
 'No test reads the node and edge lists of a zone.',
 [G,'crysgsu/gsu/zone.py'],[('relink','%s link_nodes_and_edges_to_zones'%G),('post actions','%s post_decompose'%G)],[],['Zone.Nodes, Zone.Edges'])

prop('C06','The zone adjacency matrix counts every edge exactly once per zone pair',
 'For any mesh divided into zones, the adjacency matrix is symmetric, its diagonal holds the number of inner edges of each zone, its off-diagonal entries the number of edges between the two zones, and its last row and column the border edges of each zone. The statistics derived from it (total, border, inner and cross counts and percentages, per-zone cross-edge counts, border counts and longest border) agree with direct counts over the edges; an edge with no or with more than two faces is rejected.',
 ['inputs'],'every list of edges with one or two faces and every list of zones',
 'No test touches the matrix except through printing.',
 ['crysgsu/gsu/zones_adjacency_matrix.py'],[('counting','ZonesAdjacencyMatrix.__init__, inc, inc_border'),('statistics','edges_statistics, zone_cross_edges_array, zone_cross_edges_count, zone_cross_borders_count, zone_max_cross_border_len, max_cross_border_len')],[],['ZonesAdjacencyMatrix.M and accessors'])

prop('C07','Per-process mesh files are complete and agree across shared borders',
 'Storing a decomposed mesh for n processes writes one file per zone with the declared node, edge, face and cross-edge counts, local connectivity that maps back to the same faces, edges and nodes, and the global identifiers of the faces. For every pair of zones sharing edges both files list that border, with the same edges in the same order (in their own local numbering), and no border is listed for zones that share none; the in-memory border map built for a running process is the same.',
 ['inputs'],'every decomposed mesh, every zone pair, every timestamp and base name',
 'case_009 writes the files once and never reads them.',
 [G,'crysgsu/crys.py','crysgsu/gsu/zones_adjacency_matrix.py'],[('writer','%s store_mpi'%G),('border map','crysgsu/crys.py get_mpi_borders'),('border predicate','crysgsu/gsu/edge.py is_connect_zones')],[],['the .cry files'])

prop('C08','Calculated data is imported to exactly the faces named, merge is complete',
 'Importing a calculation file replaces the data of exactly the faces whose global identifiers it lists by exactly the listed variables and values, and leaves every other face untouched. Merging a directory of calculation files produces one mesh per timestamp, built from the original grid plus all files of that timestamp and no other, and sums the totals tables column by column keeping the time column once.',
 ['inputs'],'every calculation file (any subset and order of faces, any variables), every directory content',
 'case_007 stores and loads one file and asserts nothing; merge has no test.',
 [G,'crysgsu/merge.py','crysgsu/utils.py'],[('import','%s load_faces_calc_data'%G),('merge','crysgsu/merge.py merge'),('grouping','crysgsu/utils.py group_txt_files_by_timestamps')],[],['Face data after import','merged .dat and .csv files'])

prop('C09','Local mesh edits keep the mesh consistent',
 'Each local edit (divide a face by a point, flip the longest edge of a face, cut an edge once or twice, cut a border edge, collapse an edge), applied where its preconditions hold (the new point is not an existing node; a flip does not join nodes already joined; a collapsed edge meets the link condition), leaves a consistent triangle mesh: mutual links, three nodes and three edges per face, one edge per node pair, at most two faces per edge, every face in exactly one zone with its data equal to the data of one of the faces the edit replaces, and grid-wide node, edge and face identifiers that are still each of 0..count-1 exactly once. Zones list no node or edge twice and none that has left the grid, a single zone still lists exactly the nodes and edges of its faces, and looking a position up finds the node that is there now, or nothing. Edits that do not apply report false and change nothing.',
 ['inputs','histories'],'every consistent mesh, every face, edge and new interior point, and sequences of edits',
 'The tests apply each edit once at one place of one grid and look only at the set of identifiers.',
 [G,'crysgsu/gsu/node.py'],[('edits','%s divide_face, collapse_face, cut_edge, cut_single_edge, cut_edge_with_two_nodes, collapse_edge'%G),('deletions','%s del_face, del_edge, del_node'%G),('node merge','crysgsu/gsu/node.py replacing_node')],[],['the object graph after the edit'])

prop('C10','Triangle-segment intersection is sound and complete',
 'For a triangle and a segment in general position (segment direction not parallel to the triangle plane), the intersection query returns exactly one point if the segment meets the closed triangle, namely that common point, and the empty list otherwise. Swapping the ends of the segment, or relabelling the corners of the triangle, does not change the answer.',
 ['inputs'],'every non-degenerate triangle and transversal segment (exact real arithmetic)',
 'The tests sample a handful of configurations of triangle pairs and no segment directly.',
 ['crysgsu/geom/triangle.py','crysgsu/geom/vect.py','crysgsu/geom/segment.py'],[('linear solve','crysgsu/geom/triangle.py intersection_with_segment')],[],['Triangle.intersection_with_segment result'])

prop('C11','Spatial search over a triangle cloud agrees with checking every triangle',
 'A triangle cloud built from any non-empty list keeps every triangle exactly once in its leaves, and every bounding box encloses all triangles below it. Asking for an intersection with a segment returns a triangle that the segment meets if any triangle of the list is met, and nothing otherwise; the cloud-to-cloud query reports exactly the intersecting pairs found by checking all pairs.',
 ['inputs'],'every list of triangles, every segment and every pair of clouds',
 'No existing test builds a cloud at all.',
 ['crysgsu/geom/triangles_cloud.py','crysgsu/geom/box.py','crysgsu/geom/triangle.py'],[('tree','TrianglesCloud.build_subclouds_tree, separate_triangles_list'),('pruning','Box.is_intersect_with_segment, is_potential_intersect_with_box'),('queries','first_intersection_with_segment, intersection_with_triangles_cloud')],[],['query results'])

prop('C12','Remeshing keeps exact account of the ice on every face',
 'When a mesh is remeshed, each face starts with planned ice equal to its area times its ice height and nothing accreted; every step plans rest divided by remaining steps; smoothing of heights moves ice only between faces sharing an edge and conserves the total; accreted ice grows by exactly the volume swept by the face; the rest never goes negative and never grows from accretion; area correction scales the rest by the ratio of areas; finally the ice height of every face is zero. Planned and accreted volumes are those of the real geometry (triangle area, swept prism volume).',
 ['inputs'],'every mesh, every ice distribution, every step and option value',
 'No existing test runs the remesher.',
 [R,'crysgsu/geom/utils.py','crysgsu/geom/triangle.py'],[('accounting','%s TongRemesher.__call__, calc_ice_chunks, heights_smoothing, move_nodes, correction_by_area'%R),('volumes','crysgsu/geom/utils.py displaced_triangle_volume, tetrahedron_volume')],[],['face ice fields during and after the run'])

prop('C13','Nodes move exactly as directed and fixed border nodes never move',
 'Marking fixed nodes flags exactly the nodes of edges that have a single face, counting each once. When border nodes are fixed, applying smoothing shifts leaves every flagged node where it was and moves every other node by exactly its own shift; when not fixed every node moves by its shift. The remesher moves each node by its growth direction times its growth height, the initial direction being the unit sum of the normals of the adjacent faces, and exploding a mesh whose zones share no node moves each zone rigidly by the given fraction of its offset from the mesh centre.',
 ['inputs'],'every mesh and every list of shifts, both fixing modes',
 'No existing test checks node positions.',
 ['crysgsu/smoothing.py',G,R],[('apply','crysgsu/smoothing.py Smoothing.move_node, apply_shifts'),('flags','%s mark_all_fixed_nodes'%G),('growth','%s move_nodes, init_ice_dirs'%R),('explosion','%s move_from_mean_point'%G)],[],['node positions before and after'])

prop('C14','Droplet flight stops for exactly one true reason',
 'A droplet flight ends with exactly one diagnosis that is true of its path: crossed a surface (the returned face belongs to a triangle met by the last segment flown), left the air box, stopped in place, or exceeded the step limit; earlier segments of the path meet no surface and earlier points are inside the box. The path starts at the start point, each step moves by velocity times time step with drag towards the velocity of the nearest air sample, and it never holds more points than the limit plus one.',
 ['inputs'],'every start, velocity, diameter, time step, air field, surface and step limit',
 'No existing test flies a droplet (case_002 style runs of drops are not in the suite).',
 ['crysgsu/drops.py','crysgsu/geom/trajectory.py'],[('loop','crysgsu/drops.py Space.fly'),('step','Space.fly_step'),('nearest','Space.find_nearest'),('box','Space.inside')],[],['fly result tuple'])

prop('C15','File names decompose into the parts they were built from',
 'For every base name, twelve-digit timestamp and process number, splitting a generated file name returns exactly those parts: name and timestamp of a timestamped base, and stem, process, timestamp and extension of a per-process file. A name without a timestamp gets the zero timestamp and is otherwise unchanged; a file is accepted as belonging to a stem exactly when stem, digit fields and extension all match; grouping by timestamp puts every file into exactly the group of its own timestamp, in order; flattening nested lists keeps every element in order.',
 ['inputs'],'every name, timestamp, process number and every list of files',
 'The tests try a few literal names.',
 ['crysgsu/utils.py'],[('parsers','get_filename_and_timestamp_pair, dummy_split_filename, is_filename_correct_*'),('grouping','group_txt_files_by_timestamps'),('flatten','flatten')],[],['return values'])

prop('C16','ANSYS import keeps the requested zones and variables, line for line',
 'Zone filtering copies exactly the header lines and the requested zones with all their node and element lines in order; variable filtering keeps, for every node line, exactly the values in the columns of the requested variables in file order and all other lines; merging combines the three solution files node by node into the documented columns; the heat transfer step computes, for each node, the recovery factor 2*cp*(Ts-T0)/v^2 and the coefficient -flux/(Tsurf-Ts) and copies the rest.',
 ['inputs'],'every input file set, every requested zone and variable list',
 'There is no test of the converters.',
 ['crysgsu/convert/ansys_to_crystal.py'],[('zones','filter_zones'),('variables','variables_names_and_mask, filter_with_mask, filter_variables'),('merge','merge_fensap_drop3d_adiabatic'),('htc','calculate_htc_recovery_factor')],[],['the output files'])

prop('C17','Quads become triangles covering the same corners, data averaged per face',
 'Loading a quadrilateral node file turns every element with four distinct corners into two triangles that share a diagonal and keep its orientation (reversed on request), and every element with a repeated corner into the single triangle of its distinct corners. Every face then carries the arithmetic mean of each quantity over its three corner nodes, and the exported file lists the same zones, nodes, values (to the six decimals of the format) and connectivity.',
 ['inputs'],'every quad file, every pattern of repeated corners, both orientations',
 'There is no test of the converters.',
 ['crysgsu/convert/gsu_converter.py'],[('splitting','Grid.LoadNodesData'),('averaging','Grid.ConvertDataFromNodesToFaces'),('export','Grid.Export')],[],['converter faces and exported file'])

prop('C18','Interpolation copies data from the nearest source face',
 'After interpolating one mesh onto another, every target face has the temperature and water height of a source face whose centre is at minimal distance from its own centre, and no other data of the target and nothing of the source data is changed.',
 ['inputs'],'every pair of meshes',
 'There is no test of interpolation.',
 ['crysgsu/convert/interpolate.py'],[('nearest','face_centered_interpolation, dual_mesh, all_coordinates_of_aux_nodes')],[],['target face data'])

prop('C19','Edge classification and neighbour queries are exact',
 'An edge with one face is a border and neither cross nor inner; an edge with two faces is inner when both are in one zone and cross otherwise, and it connects exactly that unordered pair of zones. The neighbour of a face across an edge is the other face of the edge, taking the neighbour twice returns the original face, a border edge has none, and a face that is not on the edge is refused; the longest edge reported for a face is one of its edges and none is longer.',
 ['inputs'],'every edge, face and zone assignment',
 'No test queries classification or neighbours.',
 ['crysgsu/gsu/edge.py','crysgsu/gsu/face.py','crysgsu/gsu/zone.py'],[('classification','Edge.is_border, is_cross, is_inner, is_outer, is_connect_zones, is_adjacent_with'),('neighbours','Face.get_neighbour'),('longest','Face.max_edge_from_face'),('real and ghost faces','Zone.get_real_face, get_ghost_face')],[],['return values'])

prop('C20','Vector, box, triangle and volume formulas are the exact geometric ones',
 'Vector sum, difference, scaling, dot and cross product, length, distance and midpoint are the Euclidean ones; a bounding box is the smallest one around its points and its tests never reject a point or segment that meets it; triangle area, unit normal, centroid and shortest side are the geometric ones and invariant under cyclic relabelling. The tetrahedron volume is one sixth of the absolute triple product, symmetric in its corners, and the volume swept by a triangle translated by a vector equals its area times the height of the translation.',
 ['inputs'],'every finite input (exact real arithmetic)',
 'The tests add and subtract fixed vectors only.',
 ['crysgsu/geom/vect.py','crysgsu/geom/box.py','crysgsu/geom/triangle.py','crysgsu/geom/utils.py'],[('vector','Vect'),('box','Box'),('triangle','Triangle.area, normal_orth, centroid, min_side'),('volumes','tetrahedron_volume, displaced_triangle_volume')],[],['return values'])

prop('C21','Breadth-first paths visit every matching face exactly once',
 'The breadth-first path from a start face over the faces satisfying a predicate lists every satisfying face of the grid exactly once and nothing else, whatever the connectivity, and whatever marks earlier traversals left; the path of one component lists exactly the satisfying faces reachable from the start through shared edges between satisfying faces, beginning with the start. The traversal changes nothing but its own marks.',
 ['inputs','histories'],'every mesh, start face and predicate',
 'The path is only exercised inside one decomposition run with no assertion.',
 [G],[('component','%s bfs_path_connectivity_component'%G),('whole grid','%s bfs_path, get_no_bfs_mark_face'%G)],[],['returned list'])

prop('C22','Run options come from the configuration exactly, otherwise defaults',
 'The remesher takes every option present in its configuration file with exactly the value given and keeps the documented default for every option absent, independent of the others; the splitter reads strategy, fixed zones and recovery factor the same way. The number of remesh steps lies between the configured minimum and maximum; an inconsistent pair is refused.',
 ['configurations','inputs'],'every subset of options and every value; every mesh for the step count',
 'No test reads a configuration.',
 [R,'crysgsu/split.py'],[('options','%s set_default_options, try_to_read_options'%R),('steps','%s calculate_nsteps'%R),('split config','crysgsu/split.py extract_*_from_json')],[],['option attributes','step count'])

prop('C23','Halo exchange delivers each neighbour its border data',
 'When the processes of a parallel run exchange border data, every process ends with the value its neighbour holds for the face across each shared edge, for every interleaving of the messages.',
 ['schedules','inputs'],'every decomposition and message schedule',
 'No test runs more than one process.',
 ['crysgsu/crys.py'],[('exchange','crysgsu/crys.py exchange, start_exchanges')],[],['ghost face data'])

prop('C24','Material property laws reproduce their tables',
 'Each temperature-dependent material law passes through its table (linear law) or is the least-squares fit of its functional form, and is continuous between table points.',
 ['inputs'],'every temperature in range',
 'No test evaluates a law.',
 ['crysgsu/phys/laws.py'],[('laws','LinearLaw, FuncLaw, ConstLaw')],[],['law values'])

prop('C25','Null-space smoothing moves nodes only within their tangent space',
 'Null-space smoothing shifts every node only along directions in which its adjacent faces allow sliding, so that flat and ridged features keep their shape.',
 ['inputs'],'every mesh',
 'No test runs the smoother.',
 ['crysgsu/smoothing.py'],[('smoothing','NullSpaceSmoothing.smoothing')],[],['node positions'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P))
