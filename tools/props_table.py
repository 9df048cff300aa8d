def q(over, text): return {'over': over.split(), 'text': text}
def A(files, *mech, **kw):
    d = {'files': files.split(), 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    d.update(kw)
    return d

DT = 'src/DistributedTessellator.cc'
SD = 'src/SerialDistributedTessellator.cc'
SEARCH = 'Seeded search over simulated parallel jobs running the real sources; a clean run is evidence over the sampled jobs, not proof. '
TRUST = 'Trusts the simulated MPI (standard-conforming semantics), the independent geometric reference and the compiler. '

PROPS = [
 dict(id='P01', title='Distributed tessellation equals the Voronoi tessellation of all generators',
  statement='When every rank of a parallel job contributes at least one generator, a distributed tessellation in a box (in two or three dimensions) or a convex polygon returns on each rank exactly one cell per local generator, in the order given, and each cell is, within rounding, the Voronoi cell of that generator among the generators of all ranks, cut to the domain. This holds for any number of ranks, any decomposition (scattered, nested, slivers, single points, collinear) and with or without communication information.',
  quantifier=q('inputs configurations schedules fault_sequences', 'Every generator set, domain position and scale, assignment of generators to ranks, rank count and message schedule.'),
  why_tests_cant='The tests tessellate a few fixed lattices and seeded random sets on one MPI library with 1 to 16 ranks and compare with shallow counts or area sums; decompositions, scales, offsets and message timings beyond those are never run.',
  anchors=A('src/DistributedTessellator.cc src/DistributedTessellator.hh src/convexHull_2d.hh src/convexIntersect.hh src/deleteCells.hh src/polytope_serialize.hh',
    ('hulls of all ranks, their intersections and the resulting candidate neighbours', DT + ': computeDistributedTessellation'), ('exchange of generators with the neighbours', DT), ('removal of the cells of other ranks', 'src/deleteCells.hh: deleteCells'),
    observe_at=['the mesh returned by tessellate on every rank']),
  technique='every rank in one process on a simulated MPI, result compared with an independent Voronoi construction', level='exploration', level_note=SEARCH + TRUST),
 dict(id='P02', title='Gather-based parallel tessellation matches, also with empty ranks',
  statement='The parallel tessellator that gathers all generators gives each rank exactly one cell per local generator, in the order given, equal within rounding to the Voronoi cell of that generator among the generators of all ranks, cut to the box (in two or three dimensions) or convex polygon. Ranks that contribute no generators take part and receive an empty mesh.',
  quantifier=q('inputs configurations schedules', 'Every generator set and assignment to ranks including empty ranks, every rank count and schedule.'),
  why_tests_cant='The tests exercise this tessellator through one Python-side path and no assertion covers empty ranks or unequal shares.',
  anchors=A('src/SerialDistributedTessellator.cc src/SerialDistributedTessellator.hh src/deleteCells.hh', ('gathering all generators by broadcasts', SD + ': computeDistributedTessellation'), ('keeping the local cells', SD), observe_at=['the mesh returned by tessellate on every rank']),
  technique='every rank in one process on a simulated MPI, result compared with an independent Voronoi construction', level='exploration', level_note=SEARCH + TRUST),
 dict(id='P03', title='In domains with notches and holes the cells of all ranks tile the domain exactly',
  statement='For a polygonal domain that is not convex or has holes, the cells of all ranks together have exactly the area of the domain and no cell leaves it. While no Voronoi cell falls into several pieces inside the domain, every cell of the distributed tessellator has the area of its Voronoi cell cut by the domain.',
  quantifier=q('inputs configurations schedules', 'Every simple polygon with any number of holes, every generator set and decomposition.'),
  why_tests_cant='The tests use a handful of named shapes in serial and compare a summed area for a few seeds; the parallel path with such domains is not checked for conservation.',
  anchors=A('src/DistributedTessellator.cc src/clipQuantizedTessellation2d.cc src/QuantizedTessellation2d.cc src/ReducedPLC.hh', ('clipping the quantised cells by the domain and adopting orphaned pieces', 'src/clipQuantizedTessellation2d.cc'), ('passing the boundary through', DT), observe_at=['cell areas over all ranks']),
  technique='every rank in one process on a simulated MPI, conservation against exact integer polygon clipping', level='exploration', level_note=SEARCH + TRUST + 'Known findings cover outlines that cut several cells into pieces.'),
 dict(id='P04', title='The result does not depend on message timing or buffering',
  statement='Two runs of the same parallel tessellation with the same inputs produce bit-identical meshes and shared lists on every rank, whatever the order in which ranks run, how messages are buffered or delayed, which ranks are slow or stalled, and which links were temporarily cut off.',
  quantifier=q('schedules fault_sequences', 'Every schedule, network protocol, delay pattern and timing fault.'),
  why_tests_cant='A test run sees the one schedule its MPI library and machine happen to produce and cannot choose another.',
  anchors=A('src/DistributedTessellator.cc src/SerialDistributedTessellator.cc src/polytope_parallel_utilities.hh', ('messages matched by source and tag, completion awaited before buffers are reused', DT), ('rank-ordered broadcasts', SD), observe_at=['meshes of two simulated runs, bit by bit']),
  technique='the same job under a perturbed and an undisturbed schedule, compared bit by bit', level='exploration', level_note=SEARCH + TRUST),
 dict(id='P05', title='Parallel calls always complete and leave no communication behind',
  statement='A parallel tessellation or consistency check that all ranks call ends on every rank, whatever buffering the message layer provides and however ranks are slowed or stalled or links held up for a while. When it ends no message is left undelivered, no request unfinished, and no buffer was changed while a message still needed it.',
  quantifier=q('schedules fault_sequences configurations', 'Every rank count, decomposition, buffering protocol, schedule and timing fault; bounded number of steps after the last fault.'),
  why_tests_cant='The installed MPI library buffers small messages eagerly, so missing receives, deadlocks under rendezvous and premature buffer reuse stay invisible in the tests.',
  anchors=A('src/DistributedTessellator.cc src/SerialDistributedTessellator.cc src/checkDistributedTessellation.hh src/polytope_parallel_utilities.hh', ('non-blocking sends paired with receives and waits', DT), ('collective verdict', 'src/checkDistributedTessellation.hh'), observe_at=['termination, leftover messages and requests, buffer checksums in the simulated message layer']),
  technique='deadlock, leftover and buffer-ownership detection in the simulated MPI under stalls, slow ranks and partitions', level='exploration', level_note=SEARCH + TRUST),
 dict(id='P06', title='Neighbour and shared lists of all ranks correspond and are complete',
  statement='After a parallel tessellation with communication information in a box (in two or three dimensions) or convex polygon, neighbour lists are symmetric and free of repetitions, and the k-th node or face one rank lists as shared with another is geometrically the k-th element the other lists in return. Every node and every face that two ranks have in common is listed.',
  quantifier=q('inputs configurations schedules', 'Every generator set, decomposition, rank count, domain and schedule.'),
  why_tests_cant='The tests call the built-in consistency check, which compares node lists only and only for neighbours that are listed; a missing element or face is not noticed.',
  anchors=A('src/DistributedTessellator.cc src/SerialDistributedTessellator.cc src/Tessellation.hh src/deleteCells.hh', ('collecting, sorting and renumbering shared nodes and faces', DT), ('shared elements from the gathered mesh', SD), ('renumbering when cells are removed', 'src/deleteCells.hh'), observe_at=['neighbour domains, shared nodes and shared faces of every rank']),
  technique='every rank in one process on a simulated MPI, lists of all ranks compared with each other and with the geometry', level='exploration', level_note=SEARCH + TRUST + 'Known findings: unbounded tessellations, lattices in polygons.'),
 dict(id='P07', title='Shared nodes have bit-identical coordinates on both ranks',
  statement='For every pair of neighbouring ranks, the coordinates of a node they share are the same bit for bit on both after a parallel tessellation in a box or convex polygon.',
  quantifier=q('inputs configurations schedules', 'Every generator set, domain scale and offset, decomposition and schedule.'),
  why_tests_cant='The tests compare positions with a tolerance or not at all.',
  anchors=A('src/DistributedTessellator.cc src/SerialDistributedTessellator.cc', ('one rank owns a shared node and sends its coordinates', DT), ('all ranks derive nodes from the same gathered mesh', SD), observe_at=['coordinates of shared nodes on both ranks']),
  technique='every rank in one process on a simulated MPI, shared coordinates compared bit by bit', level='exploration', level_note=SEARCH + TRUST),
 dict(id='P08', title='Each rank receives a self-consistent mesh of its own cells',
  statement='The mesh a parallel tessellation returns on a rank has exactly its local cells, every face bounds one or two of them with opposite orientation and records exactly those cells, every node belongs to a face, and all indices are in range. The boundary lists name exactly the faces with a single cell and their nodes, each once.',
  quantifier=q('inputs configurations schedules', 'Every generator set, decomposition, rank count, domain and schedule.'),
  why_tests_cant='The tests check sizes of a few arrays for a few inputs; the numbering left after removing the cells of other ranks is not examined.',
  anchors=A('src/deleteCells.hh src/DistributedTessellator.cc src/SerialDistributedTessellator.cc src/findBoundaryElements.hh src/QuantizedTessellation2d.cc', ('culling and renumbering', 'src/deleteCells.hh: deleteCells'), ('boundary elements', 'src/findBoundaryElements.hh'), observe_at=['the mesh of every rank']),
  technique='every rank in one process on a simulated MPI, structural invariants on every returned mesh', level='exploration', level_note=SEARCH + TRUST),
 dict(id='P09', title='The consistency check says ok exactly when the shared lists correspond',
  statement='The distributed consistency check reports ok on every rank exactly when the neighbour lists of all ranks are mutual and, for every pair, the k-th shared node of one is the k-th of the other at the same position and every common node is listed once. All ranks receive the same verdict, including those not involved in a disagreement, and the meshes are not changed.',
  quantifier=q('inputs schedules fault_sequences', 'Every mesh a parallel tessellation returns, every damage to its communication information, rank count and schedule.'),
  why_tests_cant='Tests only call the check on good meshes and require ok; a check that always says ok, or hangs or reads out of bounds when lists differ, passes them.',
  anchors=A('src/checkDistributedTessellation.hh src/Tessellation.hh', ('exchange and comparison of the lists, reduction of the verdict', 'src/checkDistributedTessellation.hh: checkDistributedTessellation'), observe_at=['the message returned on every rank']),
  technique='lists damaged on chosen ranks of a simulated job, verdicts compared with an exact global comparison', level='exploration', level_note=SEARCH + TRUST),
 dict(id='P10', title='A tessellation does not depend on what the objects did before',
  statement='A tessellator that is used again, and a mesh object that was cleared and is filled again, give bit for bit the mesh that new objects give, whatever calls came before with other domains, boundaries, generators or other tessellators. This holds on every rank of a parallel job.',
  quantifier=q('histories inputs schedules', 'Every sequence of calls on one tessellator and one mesh object.'),
  why_tests_cant='Tests build new objects for each case or reuse them in one fixed order and never compare with a fresh run.',
  anchors=A('src/DistributedTessellator.cc src/SerialDistributedTessellator.cc src/BoostTessellator.cc src/Tessellation.hh src/TessellatorInline.hh', ('members set per call', DT), ('clearing a mesh', 'src/Tessellation.hh: clear'), observe_at=['meshes of each call against the same call with new objects']),
  technique='random call histories in simulated jobs, each call compared bit by bit with the call alone', level='exploration', level_note=SEARCH + TRUST),
 dict(id='P11', title='A parallel dump contains every domain, field and tag exactly as given',
  statement='After a parallel write, reading the named files back gives for every process its mesh, connectivity, convex hull, boundary, all fields and all named tags with the values it passed, and the multi-block objects list every process once and in order. This holds for any number of processes and output files, any cycle numbering, with and without a directory, in two and three dimensions.',
  quantifier=q('inputs configurations schedules', 'Every mesh, field and tag set, process count, file count and schedule.'),
  why_tests_cant='Tests write files for viewing and never read one back; how domains are spread over files and when processes write depends on counts and timing no test varies.',
  anchors=A('src/SiloWriter_2d.cc src/SiloWriter_3d.cc src/SiloWriter.hh src/SiloUtils.hh src/SiloUtils.cc', ('baton passing, groups and domain directories', 'src/SiloWriter_2d.cc, src/SiloWriter_3d.cc'), ('master file and multi-block objects', 'src/SiloWriter_2d.cc, src/SiloWriter_3d.cc: write'), observe_at=['contents of the files, read with Silo']),
  technique='simulated jobs writing through the real Silo and HDF5 libraries into a scratch folder, read back and compared', level='exploration', level_note=SEARCH + TRUST + 'Trusts the installed Silo and HDF5 libraries.'),
 dict(id='P12', title='A crash during a dump leaves earlier dumps intact and can be repeated',
  statement='When a job dies anywhere inside a parallel dump, dumps that were finished on all processes before remain complete, except those the dying dump was overwriting. Running the job again over what is left on disk, also over torn or lost files and with another number of files, produces complete dumps.',
  quantifier=q('crash_points inputs configurations schedules', 'Every storage call as crash point, every state the open files may be left in, every process and file count.'),
  why_tests_cant='No test interrupts a write; crash points and torn files cannot be produced by calling the interface.',
  anchors=A('src/SiloWriter_2d.cc src/SiloWriter_3d.cc src/SiloUtils.hh src/SiloUtils.cc', ('creating or appending to files', 'src/SiloUtils.hh'), ('existing directories', 'src/SiloWriter_2d.cc, src/SiloWriter_3d.cc: write'), observe_at=['files on disk after the crash and after the repeated job']),
  technique='the simulated job is killed at a storage call, open files are torn, the job is run again over the remains', level='exploration', level_note=SEARCH + TRUST + 'Trusts the installed Silo and HDF5 libraries.'),
 dict(id='P13', title='Failing storage calls neither hang a dump nor damage other dumps or domains',
  statement='When storage calls fail on some processes during a parallel dump, the dump still ends on every process, with no file left open. Dumps before and after are complete, and in the affected dump the domains of processes whose files and calls did not fail are complete.',
  quantifier=q('fault_sequences inputs configurations schedules', 'Every storage call, failing once or from there on, on any processes.'),
  why_tests_cant='Storage never fails in the tests.',
  anchors=A('src/SiloWriter_2d.cc src/SiloWriter_3d.cc src/SiloUtils.hh src/SiloUtils.cc', ('passing the baton on after a failure', 'src/SiloWriter_2d.cc, src/SiloWriter_3d.cc'), observe_at=['termination, files on disk']),
  technique='storage calls fail in simulated jobs on chosen processes, files read back afterwards', level='exploration', level_note=SEARCH + TRUST + 'Trusts the installed Silo and HDF5 libraries.'),
 dict(id='P14', title='A failed allocation reaches the caller and the tessellator stays usable',
  statement='When an allocation fails during a tessellation, the call either gives the correct mesh or the failure reaches the caller as the standard exception. The same tessellator, and the same mesh object after clearing, then give the mesh a new one gives, and nothing of the library leaks over the lifetime of the objects.',
  quantifier=q('fault_sequences histories inputs', 'Every allocation of the call, failing once or from there on; bounded and unbounded domains, boundaries and all tessellators on one process.'),
  why_tests_cant='Allocations never fail in the tests.',
  anchors=A('src/BoostTessellator.cc src/DistributedTessellator.cc src/SerialDistributedTessellator.cc src/QuantizedTessellation2d.cc src/clipQuantizedTessellation2d.cc', ('state changed around throwing code', 'src/BoostTessellator.cc'), observe_at=['exception, mesh of the repeated call, live allocations']),
  technique='allocations fail at seeded points of the call, then the call is repeated on the same objects', level='exploration', level_note=SEARCH + TRUST + 'One process. Blocks Boost.Polygon loses when its own allocation fails are subtracted.'),
 dict(id='P15', title='All routes to the same tessellation give the same mesh',
  statement='On one process the serial, the distributed and the gather-based tessellator give the same mesh for the same generators and domain, up to rounding and numbering. On several processes the mesh does not depend on whether communication information is requested.',
  quantifier=q('inputs configurations schedules', 'Every generator set, domain, boundary and schedule.'),
  why_tests_cant='Tests run each route on its own and compare with loose expectations, never with each other.',
  anchors=A('src/DistributedTessellator.cc src/SerialDistributedTessellator.cc src/BoostTessellator.cc', ('the parallel wrappers around the serial tessellator', DT), observe_at=['meshes of the routes']),
  technique='the same step by several routes inside one simulated job, meshes compared', level='exploration', level_note=SEARCH + TRUST),
 dict(id='P16', title='The C interface mirrors the C++ classes over any history of calls',
  statement='Any history of C calls that create, fill, clear, write and free meshes, tessellators and boundary complexes gives each mesh exactly what the C++ classes give for the same input, changes no other object, and leaves no memory behind or freed twice once all objects are freed. Parallel dumps written through it are as complete as those of the C++ writer, also for meshes in three dimensions and meshes with shared lists that the caller filled in.',
  quantifier=q('histories inputs configurations schedules', 'Every sequence of calls on several objects on one or more processes.'),
  why_tests_cant='Tests call a few C functions once each in a fixed order.',
  anchors=A('polytope_c/polytope_tessellation.cc polytope_c/polytope_tessellator.cc polytope_c/polytope_plc.cc polytope_c/polytope_write_silo.cc polytope_c/polytope_c.h.in', ('copying meshes to C arrays', 'polytope_c/polytope_tessellator.cc'), ('clear and free', 'polytope_c/polytope_tessellation.cc'), observe_at=['arrays of the C objects, live and misused heap blocks']),
  technique='random histories of C calls on simulated processes with a checked heap, compared with the C++ classes', level='exploration', level_note=SEARCH + TRUST),
 dict(id='P17', title='Threads with tessellators of their own do not affect one another',
  statement='Several threads of one process, each using objects of its own through the C++ or C interface, get bit for bit the meshes they would get in separate processes, wherever they are preempted, and no memory is left behind.',
  quantifier=q('schedules histories inputs', 'Every interleaving at allocation granularity of every set of call histories.'),
  why_tests_cant='Tests use one thread.',
  anchors=A('src/BoostTessellator.cc src/QuantizedTessellation2d.cc src/clipQuantizedTessellation2d.cc polytope_c/polytope_tessellator.cc src/predicates.cc', ('no static data that calls change', 'src/BoostTessellator.cc'), observe_at=['meshes per thread']),
  technique='callers share one copy of the library and are preempted at seeded allocations, results compared with separate processes', level='exploration', level_note=SEARCH + TRUST + 'Preemption points are allocations and explicit yields, not single instructions.'),
 dict(id='P18', title='Parallel mesh editing keeps the meshes of all ranks consistent',
  statement='After all ranks of a two-dimensional parallel tessellation clean short edges with the same tolerance, every rank has a consistent mesh of the same cells whose nodes are a subset of the old ones, shared lists still correspond element by element, are complete and name nodes with identical coordinates, and the cells of all ranks cover the domain as before. Only nodes of short edges go, and a short edge nothing protects does go. Deleting cells leaves the other cells as they were. The calls end on every rank and leave no communication behind.',
  quantifier=q('inputs configurations schedules', 'Every tessellation, tolerance, number of ranks, decomposition and message schedule.'),
  why_tests_cant='The test edits a few serial meshes; no test edits a distributed one.',
  anchors=A('src/MeshEditor.cc src/MeshEditor.hh', ('agreement of neighbours on the edges to remove', 'src/MeshEditor.cc'), ('renumbering of what remains', 'src/MeshEditor.cc'), observe_at=['meshes and shared lists after the edit']),
  technique='seeded parallel jobs that tessellate and edit, checked across ranks against the meshes before the edit', level='exploration', level_note=SEARCH + TRUST + 'Cleaning may turn a thin cell over; orientation is not part of the claim.'),
 dict(id='P19', title='Generators that coincide share one cell, on every rank',
  statement='Called for generators some of which coincide on their rank, exactly or within the tolerance, the tessellators that allow this return on every rank bit for bit the mesh they return when each group is listed once, at the place of its first member, and for each generator the index of its cell. Generators further apart than the tolerance keep cells of their own. This holds for all domains, any number of ranks (ranks without generators included where they are allowed), reused objects and every schedule; the call ends on every rank.',
  quantifier=q('inputs configurations schedules', 'Every set of groups of coinciding generators, tolerance below their separation, domain, decomposition and schedule.'),
  why_tests_cant='No test calls these functions.',
  anchors=A('src/TessellatorInline.hh src/Tessellator.hh src/polytope_geometric_utilities.hh', ('hashing generators within the extent of all ranks to the different ones', 'src/polytope_geometric_utilities.hh: uniquePoints, Hasher, computeBoundingBox'), ('tessellating those and returning the map', 'src/TessellatorInline.hh: tessellateDegenerate'), observe_at=['meshes and returned maps of every rank']),
  technique='seeded parallel jobs with repeated generators under perturbed schedules, compared bit by bit with jobs that list each once', level='exploration', level_note=SEARCH + TRUST),
]

def na(id, title, statement, inputs, why, files, mech, reason):
    return dict(id=id, title=title, statement=statement, quantifier=q('inputs', inputs), why_tests_cant=why, anchors=A(files, *mech), reason=reason)
PURE = 'A pure function of its input: no schedule, time, I/O, fault or second party for a simulator to decide, so sampling its inputs would not be simulation.'
NA = [
 na('N01', 'Convex hulls contain their points and are minimal', 'The convex hull of any point set is convex, has only input points as vertices, and contains every input point.', 'Every point set.', 'Tests use a few fixed and random sets.', 'src/convexHull_2d.hh src/convexHull_3d.hh', [('hull construction', 'src/convexHull_2d.hh')], PURE + ' (Its use inside parallel tessellation is exercised by P01 and P06.)'),
 na('N02', 'Boolean operations on boundary complexes follow set algebra', 'A point is inside the union, intersection or difference of two piecewise linear complexes exactly when the corresponding statement about the operands holds.', 'Every pair of complexes.', 'Tests use a few solids and compare volumes.', 'src/PLC_CSG_2d.hh src/PLC_CSG_3d.hh src/PLC_Boost_2d.hh src/PLC_CSG.cc', [('BSP trees', 'src/PLC_CSG_3d.hh')], PURE),
 na('N03', 'Geometric predicates agree with exact arithmetic', 'Orientation and in-circle tests return the sign of the exact determinant.', 'Every representable input.', 'Tests do not call them directly.', 'src/predicates.cc', [('adaptive precision', 'src/predicates.cc')], PURE),
 na('N04', 'Serialised objects deserialise to equal objects', 'Reading back the byte stream written for points, boundary complexes and tessellations yields equal objects and consumes exactly the bytes written.', 'Every object.', 'Tests serialise a few objects.', 'src/polytope_serialize.hh', [('codec', 'src/polytope_serialize.hh')], PURE + ' (What travels through it between ranks is exercised by P01 and P03.)'),
 na('N05', 'Quantising and restoring a coordinate loses at most one quantum', 'Mapping a coordinate of the bounding box to the integer grid and back changes it by at most one grid spacing and never leaves the box.', 'Every coordinate and box.', 'Tests sample a few points.', 'src/QuantizedCoordinates.hh src/QuantizedTessellation2d.cc', [('quantize, dequantize', 'src/QuantizedTessellation2d.cc')], PURE),
 na('N06', 'Serial tessellations are Voronoi tessellations', 'A serial tessellation of distinct generators in a bounded domain gives each generator its Voronoi cell.', 'Every generator set and domain.', 'Tests compare counts and areas for fixed sets.', 'src/BoostTessellator.cc src/TessellatorInline.hh src/clipQuantizedTessellation2d.cc', [('Boost.Voronoi on quantised generators', 'src/BoostTessellator.cc')], PURE + ' (The parallel results, and the single-rank case, are decided by P01 to P03.)'),
]
