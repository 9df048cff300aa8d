"""What each check spends and what it runs: real code and stand-ins."""
TESS_REAL = ["DistributedTessellator / SerialDistributedTessellator", "BoostTessellator and the quantized clipping behind it", "deleteCells, convex hulls, serialisation, parallel utilities", "PLC / ReducedPLC / Tessellation containers"]
MPI_STUB = "MPI library (simulated: matching, ordering, protocols, requests, collectives, progress, buffer ownership)"
VORO_STUB = "Voronoi3, a serial tessellator of ours for generators in general position in 3D boxes, in place of TetGen and Voro++ (not installed)"
GEOM_ASSUME = [
    "generators inside the domain, at least 1e-4 of its size from its boundary and from each other; no Voronoi edge shorter than 3e-5 of it other than exactly degenerate ones in box domains",
    "every rank owns a generator where the distributed tessellator is used (the gather-based one is also run with empty ranks)",
    "an MPI library that follows the MPI standard: messages are neither lost, duplicated nor reordered on one (source, tag) stream; matching, progress, buffering and timing are free",
]
TESS_RULE = ("One evaluation is one simulated parallel job drawn from one seed: rank count, generator cloud, decomposition, domain (box or polygon with or without holes), numbering, "
             "world scale and offset, network behaviour (eager/rendezvous, late buffer reads, collective synchronisation, latencies) and timing faults. "
             "Non-trivial: it ended, more than one rank took part, and the oracle compared every rank's mesh; distinct by the hash of all result meshes and of the interleaving.")
def tess(quick, thorough_s=600, **kw):
    d = dict(quick=quick, thorough_s=thorough_s, level='exploration', rule=TESS_RULE, real=TESS_REAL, stub=[MPI_STUB, VORO_STUB], assumptions=GEOM_ASSUME)
    d.update(kw)
    return d
IO_REAL = ["SiloWriter and SiloUtils", "Silo and HDF5 libraries, POSIX files in a scratch folder", "the tessellators that make the meshes (2D)"]
IO_STUB = [MPI_STUB, "Lattice3, a serial tessellator of ours for 3D lattices, in place of TetGen (not installed)"]
IO_ASSUME = ["Silo and HDF5 behave as documented", "prefixes and directories are plain names; field and tag names are unique", GEOM_ASSUME[2]]
def store(quick, what, **kw):
    d = tess(quick, real=IO_REAL, stub=IO_STUB, assumptions=IO_ASSUME)
    d['rule'] = "One evaluation is one simulated parallel job from one seed: 1 to 12 processes, meshes in 2D or 3D, one to three dumps with drawn file counts, overloads, cycles, fields and tags, network behaviour and timing faults" + what + " Distinct by the hash of the meshes and of the interleaving."
    d.update(kw)
    return d
def other(quick, rule, real, stub, assume, **kw):
    d = tess(quick, rule=rule, real=real, stub=stub, assumptions=assume)
    d.update(kw)
    return d
HEAP_STUB = "operator new/delete (counts, fails on request, passes on to malloc)"
CHEAP_STUB = "malloc family as called from the C interface (tracked blocks, guards)"
BUDGET = {
    'P01': tess(9000), 'P02': tess(8000), 'P03': tess(5000), 'P04': tess(4500),
    'P05': tess(8000), 'P06': tess(9000), 'P07': tess(8000), 'P08': tess(9000),
    'P09': tess(9000, rule=TESS_RULE.split(' Non-trivial')[0] + " After it the communication information is damaged on chosen ranks (19 kinds of damage) and the consistency check is called, up to three times. Non-trivial: more than one rank took part and every verdict was compared; distinct by the hash of all meshes and of the interleaving."),
    'P10': tess(9000, rule=TESS_RULE.split(' Non-trivial')[0] + " The job makes two or three calls, each drawn anew, on reused or new tessellators and meshes; every call is repeated alone with new objects. Non-trivial: every call was compared; distinct by the hash of all meshes and of the interleaving."),
    'P11': store(4000, ". Every file is read back. Non-trivial: the job ended and its dumps were read."),
    'P12': store(2400, ". One process crashes at a storage call; files open then are kept, truncated, partly zeroed or removed; the job runs again over the remains. Non-trivial: the crash happened."),
    'P13': store(3500, ". Up to three storage calls fail, once or from there on. Non-trivial: at least one call failed."),
    'P14': other(24000, "One evaluation is a history of one to three tessellations on one process from one seed, each called with an allocation failing at a drawn point (once or from there on) and then again without. Non-trivial: an allocation failed; distinct by the hash of the meshes.",
        TESS_REAL, [MPI_STUB, HEAP_STUB], GEOM_ASSUME[:1] + ["Boost.Polygon may lose blocks of its own when its allocation fails; those are measured and subtracted"]),
    'P15': tess(7000),
    'P16': other(8000, "One evaluation is a history of three to twelve C calls on three meshes, two tessellators and two boundary complexes on one to three simulated processes from one seed, in two or three dimensions, with meshes made in parallel and filled in by the caller, and C dumps. Non-trivial: at least one tessellation was compared with the C++ classes or one mesh was filled in; distinct by the hash of all meshes and of the interleaving.",
        ["the C interface (polytope_tessellation, _tessellator, _plc, _write_silo)"] + TESS_REAL[1:] + IO_REAL[:2], [MPI_STUB, HEAP_STUB, CHEAP_STUB], GEOM_ASSUME[:1] + ["a mesh object is cleared before it is filled again; unbounded tessellations have at least 8 generators"]),
    'P17': other(10000, "One evaluation is two to four callers in one process sharing one copy of the library, each with a history of C++ and C calls from one seed, preempted at drawn allocations, then the same histories in separate processes. Non-trivial: a scheduling choice was made inside the library; distinct by the hash of all meshes and of the interleaving.",
        ["BoostTessellator, quantised clipping, containers and the C interface, one shared copy of all static data"], ["thread scheduler (callers are preempted at allocations and yields)", HEAP_STUB, CHEAP_STUB], GEOM_ASSUME[:1] + ["each thread uses objects of its own"]),
    'P18': tess(8000, rule=TESS_RULE.split(' Non-trivial')[0] + " Then the ranks clean short edges with tolerances from 0.001 to 0.3 or delete cells, once or twice. Non-trivial: the edit removed something on some rank; distinct by the hash of all meshes and of the interleaving.",
        real=TESS_REAL + ["MeshEditor"]),
    'P19': tess(4500, rule=TESS_RULE.split(' Non-trivial')[0] + " Generators are repeated on their rank, exactly or within the tolerance; one or two calls, then the same calls with each group listed once. Non-trivial: some generators coincided; distinct by the hash of all meshes and of the interleaving."),
}
