"""What is built for which property, and how much of it is explored."""
WRAPS = "memcpy memmove memset memcmp exit abort _Exit quick_exit".split()

DEFS = ["-DNF_WITH_GINKGO=0", "-DNF_WITH_PETSC=0", "-DNEOFOAM_DP_SCALAR=1"]
CORE_SRC = ["{REPO}/src/core/database/" + f for f in ("database.cpp", "collection.cpp", "document.cpp")] + [
    "{REPO}/src/core/" + f for f in ("dictionary.cpp", "demangle.cpp", "tokenList.cpp")] + [
    "{REPO}/src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp", "{REPO}/src/linearAlgebra/utilities.cpp"]

KOKKOS_STUB = ("Kokkos: the execution spaces are a simulated multi-worker host and a simulated device with its own address space; "
               "workers, assignment of iterations, interleaving at memory accesses, chunking and joining order of reductions and scans come from the seeded scheduler; "
               "allocation can fail on demand and is checked for leaks, double and wrong-side releases and out-of-bounds accesses")
KOKKOS_ASSUME = [
    "the stub follows the documented Kokkos contract: results of reductions overwrite the target, functors are copied, fresh storage has no usable content, realloc keeps the common prefix",
    "iterations of a kernel interleave at memory accesses under sequential consistency; vectorised or warp-synchronous effects of a real device are not modelled",
]

CC = "finiteVolume/cellCentred/"
FV_SRC = ["executor/CPUExecutor", "executor/GPUExecutor", "executor/serialExecutor", "core/primitives/vector", "core/demangle", "core/dictionary", "core/tokenList", "core/time",
          "core/database/database", "core/database/collection", "core/database/document", "core/database/fieldCollection", "core/database/oldTimeCollection",
          "dsl/coeff", "dsl/explicit", "dsl/spatialOperator", "dsl/temporalOperator", "linearAlgebra/utilities", "mesh/unstructured/boundaryMesh", "mesh/unstructured/unstructuredMesh",
          CC + "linearAlgebra/sparsityPattern", CC + "stencil/stencilDataBase", CC + "stencil/geometryScheme", CC + "stencil/basicGeometryScheme", CC + "stencil/cellToFaceStencil", CC + "boundary/boundary",
          CC + "operators/ddtOperator", CC + "operators/gaussGreenGrad", CC + "operators/gaussGreenDiv", CC + "operators/gaussGreenLaplacian", CC + "operators/sourceTerm", CC + "operators/surfaceIntegrate",
          CC + "interpolation/linear", CC + "interpolation/upwind", CC + "faceNormalGradient/uncorrected", CC + "auxiliary/coNum", "timeIntegration/timeIntegration"]

# every source the library had when this was written: a file that is not here is new and is tried in every group
KNOWN_SRC = [
    "src/core/database/collection.cpp",
    "src/core/database/database.cpp",
    "src/core/database/document.cpp",
    "src/core/database/fieldCollection.cpp",
    "src/core/database/oldTimeCollection.cpp",
    "src/core/demangle.cpp",
    "src/core/dictionary.cpp",
    "src/core/mpi/halfDuplexCommBuffer.cpp",
    "src/core/primitives/vector.cpp",
    "src/core/time.cpp",
    "src/core/tokenList.cpp",
    "src/dsl/coeff.cpp",
    "src/dsl/explicit.cpp",
    "src/dsl/spatialOperator.cpp",
    "src/dsl/temporalOperator.cpp",
    "src/executor/CPUExecutor.cpp",
    "src/executor/GPUExecutor.cpp",
    "src/executor/serialExecutor.cpp",
    "src/finiteVolume/cellCentred/auxiliary/coNum.cpp",
    "src/finiteVolume/cellCentred/boundary/boundary.cpp",
    "src/finiteVolume/cellCentred/faceNormalGradient/uncorrected.cpp",
    "src/finiteVolume/cellCentred/interpolation/linear.cpp",
    "src/finiteVolume/cellCentred/interpolation/upwind.cpp",
    "src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp",
    "src/finiteVolume/cellCentred/operators/ddtOperator.cpp",
    "src/finiteVolume/cellCentred/operators/expression.cpp",
    "src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp",
    "src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp",
    "src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp",
    "src/finiteVolume/cellCentred/operators/sourceTerm.cpp",
    "src/finiteVolume/cellCentred/operators/surfaceIntegrate.cpp",
    "src/finiteVolume/cellCentred/stencil/basicGeometryScheme.cpp",
    "src/finiteVolume/cellCentred/stencil/cellToFaceStencil.cpp",
    "src/finiteVolume/cellCentred/stencil/geometryScheme.cpp",
    "src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp",
    "src/linearAlgebra/ginkgo.cpp",
    "src/linearAlgebra/utilities.cpp",
    "src/mesh/unstructured/boundaryMesh.cpp",
    "src/mesh/unstructured/communicator.cpp",
    "src/mesh/unstructured/unstructuredMesh.cpp",
    "src/timeIntegration/rungeKutta.cpp",
    "src/timeIntegration/timeIntegration.cpp",
]

GROUPS = {
    "core": {
        "flags": ["-I{REPO}/include"] + DEFS,
        "repo": CORE_SRC,
        "support": ["harness/common.cpp"],
        "real": "the shipped library sources of this part, compiled from /repo with memory-access instrumentation, and the real libstdc++ containers",
        "stub": "threads (fibers under the seeded scheduler), the allocator (arena that can fail on demand and detects leaks, double and wild frees), process exit and output streams",
        "assumptions": [
            "threads interleave at memory accesses and atomics under sequential consistency; weak-memory effects are reported as races instead of being executed",
            "code inside the precompiled libstdc++ runtime is not instrumented (exception machinery, stream formatting)",
        ],
    },
    "fld": {
        "flags": ["-I{VERIF}/sim/kokkos", "-I{REPO}/include"] + DEFS,
        "repo": ["{REPO}/src/" + f for f in ("executor/CPUExecutor.cpp", "executor/GPUExecutor.cpp", "executor/serialExecutor.cpp", "core/primitives/vector.cpp")],
        "support": [],
        "real": "the shipped field, executor and parallel-algorithm code, compiled from /repo with memory-access instrumentation",
        "stub": KOKKOS_STUB,
        "assumptions": KOKKOS_ASSUME,
    },
    "dom": {
        "flags": ["-I{VERIF}/sim/kokkos", "-I{REPO}/include"] + DEFS,
        "repo": ["{REPO}/src/" + f for f in ("executor/CPUExecutor.cpp", "executor/GPUExecutor.cpp", "executor/serialExecutor.cpp", "core/primitives/vector.cpp", "core/demangle.cpp", "mesh/unstructured/boundaryMesh.cpp", "mesh/unstructured/unstructuredMesh.cpp", "finiteVolume/cellCentred/stencil/stencilDataBase.cpp")],
        "support": [],
        "real": "the shipped field, boundary-data, domain-field and mesh code, compiled from /repo with memory-access instrumentation",
        "stub": KOKKOS_STUB,
        "assumptions": KOKKOS_ASSUME,
    },
    "fv": {
        "flags": ["-I{VERIF}/sim/kokkos", "-I{REPO}/include"] + DEFS,
        "repo": ["{REPO}/src/" + f + ".cpp" for f in FV_SRC],
        "support": [],
        "real": "the shipped mesh, field, boundary, interpolation, operator, expression, time-integration, matrix and field-database code, compiled from /repo with memory-access instrumentation",
        "stub": KOKKOS_STUB + "; linear solvers are replaced by a dense elimination registered with the shipped solver factory",
        "assumptions": KOKKOS_ASSUME,
    },
    "ext": {
        "flags": ["-I{VERIF}/sim/kokkos", "-I{VERIF}/sim/ext", "-I{REPO}/include", "-DNF_WITH_GINKGO=1", "-DNF_WITH_PETSC=1", "-DKOKKOS_ENABLE_CUDA=1", "-DNEOFOAM_DP_SCALAR=1"],
        "repo": ["{REPO}/src/" + f + ".cpp" for f in FV_SRC + ["linearAlgebra/ginkgo", "timeIntegration/rungeKutta"]],
        "support": [],
        "real": "the shipped wrappers of the linear solvers and of the Runge-Kutta integrator, and the matrix, field, expression and operator code they use, compiled from /repo with memory-access instrumentation",
        "stub": "Ginkgo, PETSc and SUNDIALS: stand-ins that follow the documented interfaces, keep their own objects and memory (host or device), count what is not released, solve by elimination and can report an error from any call; " + KOKKOS_STUB,
        "assumptions": KOKKOS_ASSUME + ["the external libraries behave as documented: what is judged is what the wrappers ask of them and what they do with the answer"],
    },
    "mpi": {
        "flags": ["-I{VERIF}/sim/kokkos", "-I{VERIF}/sim/mpi", "-I{REPO}/include", "-DNF_WITH_MPI_SUPPORT"] + DEFS,
        "repo": ["{REPO}/src/" + f for f in ("executor/CPUExecutor.cpp", "executor/GPUExecutor.cpp", "executor/serialExecutor.cpp", "core/primitives/vector.cpp", "core/mpi/halfDuplexCommBuffer.cpp", "mesh/unstructured/communicator.cpp")],
        "support": [],
        "plain": ["sim/mpi/mpi.cpp"],
        "real": "the shipped communicator, message-buffer and reduction code and the fields they act on, compiled from /repo with memory-access instrumentation; one instance per rank",
        "stub": "MPI: ranks are fibers of one process; delivery times, eager or synchronous sends, partial delivery, completion times, late completion reports, stalled ranks and the order of reduction come from the seeded scheduler; matching follows the standard (per-channel order, tags, communicators); " + KOKKOS_STUB,
        "assumptions": KOKKOS_ASSUME + [
            "the MPI library is correct and reliable, as the standard requires: messages are delayed, delivered in parts and reported late but not lost or duplicated",
            "ranks are scheduled at calls into MPI; they share nothing else",
        ],
    },
}


def P(group, harness, quick, thorough, **kw):
    d = {"group": group, "harness": ["harness/" + h for h in harness], "quick": quick, "thorough": thorough, "binary": group + "-" + harness[0].replace(".cpp", "")}
    d.update(kw)
    return d


# (runs, wall cap in s)
PROPS = {
    "C01": P("core", ["core_db.cpp"], (60000, 60), (3000000, 720)),
    "C02": P("core", ["core_db.cpp"], (60000, 60), (3000000, 720)),
    "C03": P("core", ["core_db.cpp"], (60000, 60), (3000000, 720)),
    "C04": P("core", ["core_db.cpp"], (60000, 60), (3000000, 720)),
    "C05": P("core", ["core_dict.cpp"], (80000, 60), (3000000, 720)),
    "C06": P("core", ["core_dict.cpp"], (80000, 60), (3000000, 720)),
    "C07": P("core", ["core_factory.cpp"], (80000, 60), (3000000, 720)),
    "C08": P("core", ["core_dict.cpp"], (80000, 60), (3000000, 720)),
    "C09": P("core", ["core_threads.cpp"], (60000, 60), (2000000, 720)),
    "F01": P("fld", ["fld_fields.cpp"], (60000, 60), (3000000, 720)),
    "F02": P("fld", ["fld_fields.cpp"], (60000, 60), (3000000, 720)),
    "F03": P("fld", ["fld_fields.cpp"], (60000, 60), (3000000, 720)),
    "F04": P("fld", ["fld_segments.cpp"], (60000, 60), (3000000, 720)),
    "M01": P("mpi", ["mpi_comm.cpp"], (40000, 60), (2000000, 720)),
    "M02": P("mpi", ["mpi_comm.cpp"], (40000, 60), (2000000, 720)),
    "M03": P("mpi", ["mpi_comm.cpp"], (40000, 60), (2000000, 720)),
    "F05": P("dom", ["dom_domain.cpp"], (60000, 60), (3000000, 720)),
    "V06": P("fv", ["fv_boundary.cpp"], (40000, 60), (2000000, 720)),
    "V07": P("fv", ["fv_geometry.cpp"], (40000, 60), (2000000, 720)),
    "V08": P("fv", ["fv_geometry.cpp"], (40000, 60), (2000000, 720)),
    "V03": P("fv", ["fv_explicit.cpp"], (40000, 60), (2000000, 720)),
    "V04": P("fv", ["fv_explicit.cpp"], (40000, 60), (2000000, 720)),
    "V12": P("fv", ["fv_explicit.cpp"], (40000, 60), (2000000, 720)),
    "V05": P("fv", ["fv_implicit.cpp"], (40000, 60), (2000000, 720)),
    "V13": P("fv", ["fv_implicit.cpp"], (40000, 60), (2000000, 720)),
    "V10": P("fv", ["fv_time.cpp"], (40000, 60), (2000000, 720)),
    "V09": P("fv", ["fv_registry.cpp"], (40000, 60), (2000000, 720)),
    "X01": P("fv", ["fv_all.cpp", "fv_topology.cpp", "fv_boundary.cpp", "fv_geometry.cpp", "fv_explicit.cpp", "fv_implicit.cpp", "fv_time.cpp", "fv_registry.cpp", "fld_fields.cpp", "fld_segments.cpp", "dom_domain.cpp"], (120000, 90), (4000000, 720)),
    "N01": P("ext", ["ext_rk.cpp"], (25000, 60), (2000000, 720)),
    "N02": P("ext", ["ext_solvers.cpp"], (40000, 60), (2000000, 720)),
    "V01": P("fv", ["fv_topology.cpp"], (40000, 60), (2000000, 720)),
    "V02": P("fv", ["fv_topology.cpp"], (40000, 60), (2000000, 720)),
}
