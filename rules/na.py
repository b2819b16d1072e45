"""Properties sst-core should have which this family of technique does not decide here."""
NA = [
    dict(id="N01", title="Serial and parallel runs of one model give the same results",
         statement="A model whose components communicate through links only produces the same component states, statistics and end time on any number of ranks and threads and with any partitioner.",
         over=["configurations", "schedules"], text="all models, partitions, numbers of ranks and threads, thread interleavings",
         why="Equality of whole runs is a relation between executions; a test compares a few models on a few configurations.",
         files=["src/sst/core/simulation.cc", "src/sst/core/sync/syncManager.cc"], mech=[("Simulation::run", "src/sst/core/simulation.cc")],
         reason="It relates complete executions, including the models' own code, which is not in this repository. Its local ingredients are decided instead: one strict order of activities (P01), time (P02), "
                "delivery time (P03), lookahead (P05), exchange (P06), barriers (P07), collectives (P08)."),
    dict(id="N02", title="Unit and fixed-point arithmetic is exact within its stated precision",
         statement="Sums, products, quotients and roundings of UnitAlgebra and decimal_fixedpoint values are exact up to the 15 digits before and 33 digits after the point that the representation holds.",
         over=["inputs"], text="all operand values",
         why="Carry and rounding errors show at particular digit patterns only.",
         files=["src/sst/core/unitAlgebra.cc", "src/sst/core/decimal_fixedpoint.h"], mech=[("decimal_fixedpoint", "src/sst/core/decimal_fixedpoint.h")],
         reason="It quantifies over the numerical content of multi-word digit arithmetic with data-dependent loops; no sound abstraction that a static analysis here could use bounds the carries exactly, and deciding it by solving "
                "the paths or running them is another family of technique. How conversions use the results (division by the core time base, rounding, range and error cases) is decided by P22."),
    dict(id="N03", title="Random number generators produce the documented sequences and distributions",
         statement="Each generator yields the reference sequence of its algorithm for a seed, and each distribution's values follow the stated law.",
         over=["inputs", "histories"], text="all seeds and numbers of draws",
         why="Statistical quality cannot be read off a few samples.",
         files=["src/sst/core/rng/mersenne.cc", "src/sst/core/rng/distrib.h"], mech=[("MersenneRNG::generateNext", "src/sst/core/rng/mersenne.cc")],
         reason="A statement about the numbers produced (their joint distribution), which no dataflow or structural argument reaches. That the state of generators and distributions survives a checkpoint is decided by P12."),
    dict(id="N04", title="Every run makes progress and ends",
         statement="A run whose model ends does end: no deadlock between ranks or threads, no starvation at a lock or barrier.",
         over=["schedules"], text="all schedules of ranks and threads",
         why="A hang needs one particular interleaving.",
         files=["src/sst/core/sync/syncManager.cc", "src/sst/core/threadsafe.h"], mech=[("SyncManager::execute", "src/sst/core/sync/syncManager.cc")],
         reason="Liveness depends on the scheduler, on MPI's progress and on the model's own handlers. The safety facts it rests on are decided: lock order and release (P10), equal sequences of barriers (P07) and of collectives "
                "(P08), matching sends and receives (P06), and the end condition (P15)."),
    dict(id="N05", title="Partitioners balance the load and cut few links",
         statement="The partitions produced have nearly equal weight and small cut.",
         over=["configurations"], text="all graphs",
         why="A quality measure over all graphs.",
         files=["src/sst/core/impl/partitioners/simplepart.cc"], mech=[("SimplePartitioner::performPartition", "src/sst/core/impl/partitioners/simplepart.cc")],
         reason="A quantitative quality of a heuristic without a stated bound: there is nothing a static argument could decide. That every component gets a rank that exists is decided by P20."),
]
