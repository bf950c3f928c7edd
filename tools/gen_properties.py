#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the committed file is the output of this script)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": list(observe), "hook_needed": hook}})

DB = "include/NeoFOAM/core/database/"
SDB = "src/core/database/"

prop("C01", "Documents get unique, permanent identities, even when created concurrently",
 "Any two documents created in one process, by any threads at any time and however they are built, have different identifiers unless the caller supplied one. A caller-supplied identifier is kept, and the identifier of a document never changes, is what every read of it returns, and survives copying, moving and storage in a collection. Creating a document that fails (rejected, or out of memory) never makes a later identifier collide with one already handed out.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of document construction, copy and storage by several threads, with allocation failures and rejecting validators at any point",
 "the tests create two documents one after the other in one thread and compare their ids; they never create concurrently, never fail a construction and never look at ids after a failure",
 [DB+"document.hpp", SDB+"document.cpp"],
 [("process-wide atomic id counter", DB+"document.hpp generateID"), ("id inserted into the document's dictionary if absent", SDB+"document.cpp constructors")],
 [("counter", "next identifier", DB+"document.hpp generateID")],
 ["Document::id", "get<std::string>(\"id\")", "CollectionMixin::find"])

prop("C02", "A document exists only if its validator accepts its content",
 "Constructing a document succeeds only if the validator in force accepts exactly the content the document ends up with, identifier included; otherwise construction throws and no document results. Asking an existing document to validate itself applies that same validator to its current content, throws if it is rejected and reports success otherwise, also for copies and stored documents, and never changes the content.",
 ["inputs", "histories", "fault_sequences"],
 "every sequence of constructions, edits and validations over every validator outcome, including validators that throw and allocations that fail in the middle",
 "the tests use one validator on two dictionaries; none makes the validator throw, edits a document and re-validates it, or fails an allocation during validation",
 [DB+"document.hpp", SDB+"document.cpp"],
 [("validate() called from the constructor", SDB+"document.cpp"), ("validator stored with the document", DB+"document.hpp validator_")],
 [("validator_", "the validator in force", DB+"document.hpp")], ["Document ctor", "Document::validate"])

prop("C03", "A collection returns exactly the stored documents, through every view of it",
 "A collection's size, lookup by identifier, query by predicate and sorted listing always describe exactly the set of documents stored in it: each query calls its predicate on stored documents only and returns the identifiers of precisely those for which it is true. The type-erased handle answers identically to the concrete collection it wraps, can be viewed only as exactly that type, and an unknown identifier or wrong type is reported by an exception without changing anything. References to stored documents stay valid while other documents are added.",
 ["histories", "inputs", "fault_sequences"],
 "all histories of insertions, removals, edits, lookups and queries, with predicates that throw and allocations that fail at any point",
 "the tests store one or two documents and run two fixed predicates; they cannot cover growth of the container, throwing predicates, failing allocations or long histories",
 [DB+"collection.hpp", SDB+"collection.cpp"],
 [("type erasure by concept/model", DB+"collection.hpp"), ("dynamic_cast guarded downcast", DB+"collection.hpp as<>"), ("document map keyed by id", DB+"collection.hpp docs_")],
 [("docs_", "documents by identifier", DB+"collection.hpp")], ["Collection::find/doc/size/type/name/as", "CollectionMixin::sortedKeys"])

prop("C04", "The database is a faithful name-to-collection registry that never overwrites",
 "Inserting under a free name stores the collection and returns it; inserting under a taken name leaves the stored collection untouched and returns that one. Membership, lookup, count and removal always agree with the history of insertions and removals, lookups of absent names throw, and a collection keeps its address and content until it is removed, however many others come and go. An operation that fails leaves the set of registered collections and their contents as they were.",
 ["histories", "fault_sequences"],
 "all histories of insertions, removals and lookups over colliding names, with an allocation failure at any point",
 "the tests insert two or three collections once each; they never re-insert a name, never grow the table while references are held, and never fail an allocation",
 [DB+"database.hpp", SDB+"database.cpp"],
 [("try_emplace on a node-based map", SDB+"database.cpp insert")],
 [("collections_", "collections by name", DB+"database.hpp")], ["Database::insert/contains/at/remove/size"])

prop("C05", "A dictionary is a typed, deep-copying map that failures cannot corrupt",
 "Reads return the value last stored under the key, with exactly the type stored: a missing key throws an out-of-range error, a wrong type throws a bad-cast error, and neither changes the dictionary; nested dictionaries are recognised and reached by reference. Copies are deep and independent, insertion replaces, removal removes only that key, and the key list is exactly the set of present keys. If an operation fails part way, every other key is unaffected and the key operated on holds its old value, its new value, or what it was before - never an empty placeholder.",
 ["histories", "inputs", "fault_sequences"],
 "all histories of inserts, typed reads, removals, copies and nested edits over all key and value kinds, with an allocation failure at any point of any operation",
 "the tests perform a handful of inserts and reads with a few types; they never fail an allocation inside an operation and never compare a long history against a model",
 ["include/NeoFOAM/core/dictionary.hpp", "src/core/dictionary.cpp", "include/NeoFOAM/core/demangle.hpp", "src/core/demangle.cpp"],
 [("any-typed hash map", "include/NeoFOAM/core/dictionary.hpp data_"), ("any_cast with logging and rethrow", "include/NeoFOAM/core/dictionary.hpp get")],
 [("data_", "values by key", "include/NeoFOAM/core/dictionary.hpp")], ["get", "operator[]", "subDict", "isDict", "keys", "contains"])

prop("C06", "A token list keeps order and its read cursor survives failed reads",
 "Tokens are kept in insertion order; indexed reads return the token at that index with exactly its stored type, and a wrong type or an index past the end throws without changing the list. The read cursor starts where the list was told to start, moves forward by exactly one on each successful sequential read and not at all on a failed one. Removing from the front or at an index removes exactly that token, only if the read succeeded, and a copy carries tokens and cursor and is independent.",
 ["histories", "inputs", "fault_sequences"],
 "all histories of inserts, typed reads, sequential reads, removals and copies, including reads of the wrong type, reads past the end and failing allocations",
 "the tokens are exercised by one short fixed sequence; no test fails a sequential read and continues",
 ["include/NeoFOAM/core/tokenList.hpp", "src/core/tokenList.cpp"],
 [("cursor advanced after the checked read", "include/NeoFOAM/core/tokenList.hpp next"), ("erase after the checked read", "include/NeoFOAM/core/tokenList.hpp popFront")],
 [("nextIndex_", "read cursor", "include/NeoFOAM/core/tokenList.hpp")], ["next", "get", "popFront", "remove", "size", "empty"])

prop("C07", "Selecting a class by name creates exactly the registered class, or stops",
 "Every class registered for runtime selection is registered before the program's own code runs and can be created by its name with the caller's arguments passed on unchanged and uncopied beyond what the constructor asks for. Creating by an unknown name never returns: it reports the name and the valid names and ends the program. The list of entries, the count, the printed table, and the documentation and schema lookups agree with each other, with the base-class registry, and with the set of registered classes, whatever was created, failed or destroyed before.",
 ["inputs", "histories", "fault_sequences", "schedules"],
 "all histories of creations by known and unknown names, throwing constructors, failing allocations and destructions, from one or several threads",
 "the tests create two registered classes once each and read their documentation; unknown names (which end the process), failing constructors and concurrent creation are out of their reach",
 ["include/NeoFOAM/core/runtimeSelectionFactory.hpp", "include/NeoFOAM/core/error.hpp"],
 [("registration by static initialisation", "include/NeoFOAM/core/runtimeSelectionFactory.hpp Register/REGISTERED"), ("keyExistsOrError before lookup", "include/NeoFOAM/core/runtimeSelectionFactory.hpp create")],
 [("table/docTable", "creators and documentation by name", "include/NeoFOAM/core/runtimeSelectionFactory.hpp")], ["create", "entries", "doc", "schema", "size", "print"])

prop("C08", "Per-mesh cached data is stored once and never silently replaced",
 "The first value cached under a key stays: a later insertion under the same key changes nothing, and the value keeps its address while other keys are added. Typed access returns the cached object itself by reference, throws on a missing key or a wrong type without changing anything, and membership agrees with what was inserted. An insertion that fails leaves the cache as it was.",
 ["histories", "fault_sequences"],
 "all histories of insertions and typed accesses over colliding keys, with an allocation failure at any point",
 "no existing test touches this cache on its own; the schemes that use it are tested once each",
 ["include/NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp", "src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp"],
 [("emplace into a node-based map of any", "include/NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp insert")],
 [("stencilDB_", "cached objects by key", "include/NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp")], ["insert", "get", "contains", "operator[]"])

prop("C09", "Concurrent read-only use of shared objects is free of data races",
 "Any number of threads may read the same dictionary, document, collection, database, cache or selection table at once through read-only operations: every read returns what a single thread would have read, and no read modifies shared memory in a way another reader can observe. The same holds for threads that each create, use and destroy their own objects, including objects created by runtime selection.",
 ["schedules"],
 "all interleavings, down to individual memory accesses, of several threads performing read-only operations on shared objects and arbitrary operations on private ones",
 "every existing test is single threaded; a race shows only under particular interleavings and usually not even then",
 ["include/NeoFOAM/core/dictionary.hpp", "src/core/dictionary.cpp", DB+"collection.hpp", DB+"document.hpp", SDB+"database.cpp", "include/NeoFOAM/core/runtimeSelectionFactory.hpp"],
 [("const operations without caches or mutable state", "include/NeoFOAM/core/dictionary.hpp"), ("function-local static tables", "include/NeoFOAM/core/runtimeSelectionFactory.hpp table")],
 [], ["const member functions"])

prop("M01", "A halo exchange delivers exactly the mapped values, whatever the timing",
 "After an exchange completes, every receiving entry of the field on every rank holds the value the mapped sending entry on the neighbour rank held when the exchange was started, and every other entry is unchanged. This holds for any rank count, any maps (empty ones included), any message timing and completion order, repeated exchanges, element types of different size, and several named exchanges in flight at once.",
 ["schedules", "inputs", "histories", "fault_sequences"],
 "all rank counts and rank maps, all schedules of the ranks and all message delays, orders and completion times the message-passing standard allows, over sequences of overlapping named exchanges",
 "the tests need a real MPI launch and run one exchange pattern with whatever timing the machine gives; delayed and reordered completion and overlapping exchanges are not tried",
 ["include/NeoFOAM/mesh/unstructured/communicator.hpp", "src/mesh/unstructured/communicator.cpp", "include/NeoFOAM/core/mpi/halfDuplexCommBuffer.hpp", "include/NeoFOAM/core/mpi/fullDuplexCommBuffer.hpp", "src/core/mpi/halfDuplexCommBuffer.cpp"],
 [("per-name duplex buffers with tags", "include/NeoFOAM/mesh/unstructured/communicator.hpp"), ("rank offsets into one byte buffer", "src/core/mpi/halfDuplexCommBuffer.cpp")],
 [("buffers_/communicatorMap", "in-flight exchanges by name", "include/NeoFOAM/mesh/unstructured/communicator.hpp")], ["Communicator::startComm/isComplete/finaliseComm"])

prop("M02", "Buffers are never touched, moved or reused while a message is pending",
 "From the start of an exchange until it is reported complete, the memory given to the message layer stays allocated, is not modified on the sending side and not reused for another exchange. Completion is reported only when every send and receive of that exchange is complete, always eventually is, and a buffer can then be used again with a different name, element type or size, so that exchanges which follow each other need no further memory.",
 ["schedules", "histories", "fault_sequences"],
 "all schedules, message timings and completion orders over histories that start, poll, wait for, finish and reuse several buffers",
 "the tests complete each exchange before starting the next, and a buffer misused while a message is pending usually still yields the right bytes on one machine",
 ["include/NeoFOAM/core/mpi/halfDuplexCommBuffer.hpp", "src/core/mpi/halfDuplexCommBuffer.cpp", "include/NeoFOAM/core/mpi/fullDuplexCommBuffer.hpp", "include/NeoFOAM/mesh/unstructured/communicator.hpp"],
 [("request list tested before reuse", "src/core/mpi/halfDuplexCommBuffer.cpp isComplete"), ("name empty/non-empty protocol", "src/core/mpi/halfDuplexCommBuffer.cpp initComm/finaliseComm")],
 [("rankBuffer_, request_", "payload and pending requests", "include/NeoFOAM/core/mpi/halfDuplexCommBuffer.hpp")], ["isActive", "isComplete", "waitComplete", "MPI call stream"])

prop("M03", "Global reductions give every rank the reduction of all ranks' values",
 "A global sum, maximum, minimum or similar reduction of scalars, integers or vectors returns on every rank the reduction of the values all ranks contributed, component by component, independent of the order in which ranks arrive. Consecutive reductions never mix, and the operation and element type asked for are the ones applied.",
 ["schedules", "inputs", "histories"],
 "all rank counts, values, element types and operations, all arrival orders and message timings, over sequences of reductions interleaved with point-to-point exchanges",
 "the tests reduce one value once; arrival order, interleaving with other traffic and all operation/type pairs are not sampled",
 ["include/NeoFOAM/core/mpi/operators.hpp", "include/NeoFOAM/core/mpi/environment.hpp"],
 [("datatype and operation mapping", "include/NeoFOAM/core/mpi/operators.hpp")], [], ["reduceAllScalar", "sendScalar/recvScalar families"])

prop("F01", "Parallel loops, reductions and scans mean the same on every executor",
 "A parallel loop applies its body exactly once to every index of its range and to nothing else, a reduction combines the contribution of every index exactly once, and a scan gives each index the combination of all earlier ones and returns the total. The result does not depend on the executor chosen, the number of workers, how indices are split among them or the order in which they run; empty ranges do nothing.",
 ["schedules", "inputs", "configurations"],
 "all executors, worker counts, splits and interleavings of workers, all ranges including empty and offset ones, sums and maxima over integers",
 "the tests run each algorithm once per available backend with whatever schedule it gives, on one range",
 ["include/NeoFOAM/core/parallelAlgorithms.hpp", "include/NeoFOAM/core/executor/executor.hpp", "include/NeoFOAM/core/executor/serialExecutor.hpp", "include/NeoFOAM/core/executor/CPUExecutor.hpp", "include/NeoFOAM/core/executor/GPUExecutor.hpp"],
 [("dispatch on the executor variant", "include/NeoFOAM/core/parallelAlgorithms.hpp")], [], ["parallelFor", "parallelReduce", "parallelScan"])

prop("F02", "Fields own their storage and behave as independent values on every executor",
 "A copy of a field, on the same or another executor, has equal content and is independent of the original; assignment, resizing, filling and moving do what they say, content is preserved by any chain of transfers between host and device, and self-assignment is harmless. Storage is allocated and released exactly once on the executor that owns it and is never read or written from the wrong side. If an allocation fails, the operation reports it, nothing leaks and the other fields are intact.",
 ["histories", "configurations", "fault_sequences", "schedules"],
 "all histories of construction, copy, move, assignment, resize, fill and transfer over all executors, with an allocation failure at any point and any worker schedule",
 "the tests copy and resize a few fields once per backend; without a device they never see a wrong-side access, and none fails an allocation",
 ["include/NeoFOAM/fields/field.hpp", "include/NeoFOAM/core/executor/executor.hpp", "include/NeoFOAM/core/view.hpp", "include/NeoFOAM/fields/fieldFreeFunctions.hpp"],
 [("owning raw pointer with executor-specific allocation", "include/NeoFOAM/fields/field.hpp"), ("copyToExecutor/copyToHost", "include/NeoFOAM/fields/field.hpp")],
 [("data_, size_, exec_", "owned storage", "include/NeoFOAM/fields/field.hpp")], ["Field API", "allocation ledger of the simulated host and device"])

prop("F03", "Field arithmetic is element-wise exact and executor independent",
 "Sums, differences, products, scaling, mapping, filling, partial assignment and sum reductions of fields compute element by element what the scalar formula says, on the stated range only and without modifying the operands. The result is the same on every executor and under every schedule.",
 ["schedules", "inputs", "configurations"],
 "all field sizes, ranges and element types, all executors, worker splits and interleavings, with operands aliasing where the interface permits it",
 "the tests use constant fields of one size; wrong ranges, aliasing and schedule effects are not sampled",
 ["include/NeoFOAM/fields/field.hpp", "include/NeoFOAM/fields/fieldFreeFunctions.hpp", "include/NeoFOAM/fields/operations/sum.hpp"],
 [("one kernel per operation", "include/NeoFOAM/fields/fieldFreeFunctions.hpp")], [], ["operators", "map", "fill", "setField", "add/sub/mul", "sum"])

prop("F04", "Segmented storage partitions its values exactly",
 "Built from segment lengths, a segmented field has one segment per length, the segments are disjoint, in order, and cover all values exactly; each segment shows exactly its own entries and writing one never changes another. Offsets computed from lengths, and lengths recovered from offsets, agree for any lengths including zero, on every executor and under every schedule.",
 ["schedules", "inputs", "configurations"],
 "all length sequences including empty ones and zero lengths, all executors, worker splits and interleavings",
 "the tests use one short constant length list per backend; zero lengths, empty lists and chunked scans are not tried",
 ["include/NeoFOAM/fields/segmentedField.hpp", "include/NeoFOAM/core/parallelAlgorithms.hpp"],
 [("offsets by exclusive scan", "include/NeoFOAM/fields/segmentedField.hpp segmentsFromIntervals")],
 [("values_/segments_", "payload and offsets", "include/NeoFOAM/fields/segmentedField.hpp")], ["SegmentedFieldView::view/bounds/range/subview"])

prop("F05", "Boundary and domain data copy completely and stay with their executor",
 "A copy or transfer of a field with boundary data carries all of it - interior values, boundary values, reference values, reference gradients, fractions, patch types and patch ranges - lands on the executor asked for, and is independent of the original. Patch ranges partition the boundary entries, and reading a patch range is legal whatever executor the data lives on.",
 ["histories", "configurations", "fault_sequences", "schedules"],
 "all sequences of construction, copy, assignment and transfer over all executors and patch layouts, with allocation failures",
 "the tests build such fields once per backend and do not transfer them between executors or detect wrong-side access without a device",
 ["include/NeoFOAM/fields/boundaryFields.hpp", "include/NeoFOAM/fields/domainField.hpp"],
 [("member-wise copies on the target executor", "include/NeoFOAM/fields/boundaryFields.hpp")],
 [("offset_", "patch ranges", "include/NeoFOAM/fields/boundaryFields.hpp")], ["BoundaryFields", "DomainField"])

prop("X01", "No kernel races, strays out of bounds or touches the wrong memory space",
 "On no executor do two iterations of the same parallel loop access the same memory with at least one plain write, unless both accesses are reads or both are atomic. No operation of the library reads or writes outside live allocations, dereferences device memory on the host or host memory on the device, frees twice or leaks. This holds for every mesh, including cells with several boundary faces, patches of any size and single-cell meshes.",
 ["schedules", "inputs", "configurations"],
 "all meshes, fields, boundary conditions and operators of the library on every executor, all worker splits and interleavings down to individual memory accesses",
 "the tests run on whatever backend is compiled in, on one small structured mesh; races and wrong-side accesses do not show in values there",
 ["src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp", "src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp", "src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp", "src/finiteVolume/cellCentred/operators/surfaceIntegrate.cpp", "src/finiteVolume/cellCentred/stencil/cellToFaceStencil.cpp", "src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp", "src/finiteVolume/cellCentred/auxiliary/coNum.cpp", "include/NeoFOAM/core/parallelAlgorithms.hpp"],
 [("atomic accumulation into cells shared by faces", "src/finiteVolume/cellCentred/operators/*.cpp"), ("views and executors", "include/NeoFOAM/fields/field.hpp")],
 [], ["every memory access of every kernel, through compiler instrumentation"])

prop("V01", "The cell-to-face stencil lists every cell's faces exactly once",
 "For every cell, the stencil holds exactly the faces that have the cell on either side, boundary faces included, each exactly once and nothing else. It is complete whatever order concurrent workers fill it in.",
 ["schedules", "inputs", "configurations"],
 "all face-cell topologies, all executors, worker splits and interleavings of the filling loops",
 "the tests check one small mesh with one schedule; a lost or duplicated slot needs two workers at the same cell",
 ["src/finiteVolume/cellCentred/stencil/cellToFaceStencil.cpp", "include/NeoFOAM/finiteVolume/cellCentred/stencil/cellToFaceStencil.hpp"],
 [("atomic counting and atomic slot allocation", "src/finiteVolume/cellCentred/stencil/cellToFaceStencil.cpp")], [], ["CellToFaceStencil::computeStencil"])

prop("V02", "The sparsity pattern is exactly the cell adjacency and its offsets point into it",
 "Every matrix row holds its diagonal exactly once and one entry per internal face of the cell, in the column of the cell across that face; row extents are increasing and end at the number of entries. The owner, neighbour and diagonal offsets of every face and cell point at the entry whose column is the cell they stand for. This holds for any topology and whatever order concurrent workers build it in.",
 ["schedules", "inputs", "configurations"],
 "all face-cell topologies, all executors, worker splits and interleavings of the construction loops",
 "the tests compare against one structured mesh with the order one schedule gives",
 ["src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp", "include/NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp"],
 [("atomic slot allocation per row", "src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp")],
 [("rowPtrs, colIdxs, owner/neighbour/diag offsets", "CSR structure and face map", "include/NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp")], ["SparsityPattern accessors"])

prop("V03", "Divergence and flux integration are conservative and schedule independent",
 "The flux leaving one cell through an internal face enters the other: summed over all cells, volume-weighted divergence equals the sum of boundary fluxes, for any mesh and field. Each cell receives exactly the signed flux of each of its faces, scaled as asked, and the result does not depend on executor, schedule or what the output held before.",
 ["schedules", "inputs", "configurations"],
 "all topologies, fluxes, fields and interpolation schemes, all executors, worker splits and interleavings",
 "the tests use constant fields on a one-dimensional mesh, where lost, doubled or misdirected face contributions cancel",
 ["src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp", "src/finiteVolume/cellCentred/operators/surfaceIntegrate.cpp", "include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp", "include/NeoFOAM/finiteVolume/cellCentred/operators/surfaceIntegrate.hpp"],
 [("atomic add to owner, atomic subtract from neighbour", "src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp")], [], ["GaussGreenDiv::div", "SurfaceIntegrate", "DivOperator"])

prop("V04", "Interpolation, gradient and Laplacian equal their face-by-face definition",
 "Linear and upwind interpolation, the face-normal gradient, the Gauss gradient and the explicit Laplacian give, for any mesh and field, exactly what a sequential sum over faces of the defining formula gives, boundary faces included. The upwind value follows the sign of the flux at each face, the result replaces old content of the output, and it does not depend on executor or schedule.",
 ["schedules", "inputs", "configurations"],
 "all topologies, fields, fluxes, weights and boundary values, all executors, worker splits and interleavings",
 "the tests use constant fields or one-dimensional meshes and one schedule",
 ["src/finiteVolume/cellCentred/interpolation/linear.cpp", "src/finiteVolume/cellCentred/interpolation/upwind.cpp", "src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp", "src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp", "src/finiteVolume/cellCentred/faceNormalGradient/uncorrected.cpp"],
 [("face loops with atomic accumulation", "src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp")], [], ["SurfaceInterpolation", "GaussGreenGrad::grad", "FaceNormalGradient", "GaussGreenLaplacian"])

prop("V05", "Implicit operators assemble the same matrix as a sequential assembly",
 "The matrix and right-hand side assembled by the implicit convection, diffusion, time-derivative and source operators equal those of a sequential face-by-face and cell-by-cell assembly, entry by entry, for any mesh, coefficients and boundary values, with contributions of several operators adding up. Applying the assembled convection or diffusion system to the current field reproduces the corresponding explicit operator where both use the same scheme. The result does not depend on executor or schedule.",
 ["schedules", "inputs", "configurations"],
 "all topologies including cells with several boundary faces, coefficients and boundary kinds, all executors, worker splits and interleavings",
 "the tests assemble on a one-dimensional mesh with at most one boundary face per cell and one schedule, where a lost concurrent update cannot occur",
 ["src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp", "src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp", "src/finiteVolume/cellCentred/operators/ddtOperator.cpp", "src/finiteVolume/cellCentred/operators/sourceTerm.cpp", "include/NeoFOAM/linearAlgebra/linearSystem.hpp"],
 [("atomic accumulation into diagonal and off-diagonal entries", "src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp")], [], ["implicitOperation of each operator", "LinearSystem"])

prop("V06", "A boundary condition sets exactly its own patch, to what it declares",
 "Correcting the boundary conditions of a field gives every patch the values its condition declares - the fixed value, the adjacent cell value plus the fixed gradient over the face distance, or the adjacent cell value - and leaves the entries of all other patches and the interior untouched, in any patch order and patch layout. The result does not depend on executor or schedule and repeating the correction changes nothing.",
 ["schedules", "inputs", "configurations", "histories"],
 "all patch layouts, condition mixes and field values, all executors, worker splits and interleavings, over repeated corrections after field changes",
 "the tests correct one condition on one mesh once; overlap between patches and stale values after changes are not sampled",
 ["include/NeoFOAM/finiteVolume/cellCentred/boundary/", "include/NeoFOAM/finiteVolume/cellCentred/boundary.hpp", "include/NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp", "include/NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp"],
 [("patch range passed to each condition's kernel", "include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp")], [], ["correctBoundaryConditions"])

prop("V07", "Mesh geometry and its copies satisfy the finite-volume identities",
 "Interpolation weights lie between zero and one and are the projected distance ratio of the two cells, face distance coefficients are the inverse cell-to-cell distance, and boundary entries are computed from the cell each boundary face belongs to. Generated meshes are closed (face area vectors of every cell sum to zero), consistent between face and boundary data, and a copy of a mesh preserves all of it.",
 ["schedules", "inputs", "configurations"],
 "all mesh sizes and geometries, all executors, worker splits and interleavings, with copies",
 "the tests check one small mesh per generator on the host",
 ["src/mesh/unstructured/unstructuredMesh.cpp", "src/mesh/unstructured/boundaryMesh.cpp", "src/finiteVolume/cellCentred/stencil/basicGeometryScheme.cpp", "src/finiteVolume/cellCentred/stencil/geometryScheme.cpp"],
 [("face loops over owner and neighbour", "src/finiteVolume/cellCentred/stencil/basicGeometryScheme.cpp")], [], ["GeometryScheme", "UnstructuredMesh", "BoundaryMesh"])

prop("V08", "Derived mesh data is computed once per mesh and shared by all users",
 "However often and from whichever operator the geometry data or sparsity pattern of a mesh is requested, all requesters of one mesh get the same instance, requesters of different meshes get different ones, and a request that fails part way leaves the mesh usable: the next request computes and caches a complete instance.",
 ["histories", "fault_sequences"],
 "all histories of requests over several meshes with an allocation failure at any point of any request",
 "the tests request each once on one mesh and cannot fail a computation part way",
 ["src/finiteVolume/cellCentred/stencil/geometryScheme.cpp", "src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp", "include/NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"],
 [("shared pointer cached in the mesh's store", "src/finiteVolume/cellCentred/stencil/geometryScheme.cpp readOrCreate")], [], ["GeometryScheme::readOrCreate", "SparsityPattern::readOrCreate"])

prop("V09", "Registered fields keep their identity and their time history",
 "Registering a field stores it once under its name and time metadata, gives the field the key of its document, and looking it up by key returns that same field. The previous-time version of a field is created on first request with the field's current content, is the same object on every later request, is linked in both directions with the current field, and chains to earlier times without mixing histories of different fields. A failed or refused registration adds nothing, and a request for a previous time that fails may leave an unlinked copy behind but every link stays valid and asking again succeeds.",
 ["histories", "fault_sequences", "configurations"],
 "all histories of registration, lookup, modification and old-time requests over several fields, names and levels, with allocation failures and throwing creators",
 "the tests register one or two fields and ask for one previous level",
 [DB+"fieldCollection.hpp", DB+"oldTimeCollection.hpp", SDB+"fieldCollection.cpp", SDB+"oldTimeCollection.cpp"],
 [("documents holding shared fields", DB+"fieldCollection.hpp"), ("old-time documents linking keys", DB+"oldTimeCollection.hpp")],
 [], ["FieldCollection", "OldTimeCollection", "oldTime()"])

prop("V10", "Time stepping applies the discrete equation exactly once per step",
 "One explicit step sets the solution to the previous solution minus step size times the sum of the scaled explicit operators evaluated on the previous solution, with boundary values corrected and the previous solution updated; every operator added to an equation contributes exactly once with its coefficient, however expressions were added, scaled, negated or combined. One implicit step solves the system that sums the equation's implicit operators, with the explicit ones moved to the right-hand side as source times cell volume, hands the solver its configuration, and updates solution, boundary values and previous solution likewise. An expression that is assembled, copied, given a reference value and multiplied with a field represents that same system throughout, and its copies are independent. The result does not depend on executor or schedule.",
 ["schedules", "programs", "configurations", "histories"],
 "all expression trees built by addition, subtraction and scaling from explicit, implicit and temporal operators, over several steps, all executors and schedules",
 "the tests combine a few fixed expressions of two operators on one mesh for one step",
 ["include/NeoFOAM/dsl/expression.hpp", "include/NeoFOAM/dsl/spatialOperator.hpp", "include/NeoFOAM/dsl/temporalOperator.hpp", "src/dsl/coeff.cpp", "include/NeoFOAM/timeIntegration/forwardEuler.hpp", "include/NeoFOAM/dsl/solver.hpp", "include/NeoFOAM/dsl/coeff.hpp", "include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp"],
 [("type-erased operators with coefficient", "include/NeoFOAM/dsl/operator.hpp"), ("forward Euler update", "include/NeoFOAM/timeIntegration/forwardEuler.hpp")], [], ["Expression::explicitOperation/implicitOperation", "ForwardEuler::solve"])

prop("V12", "The Courant number is the true extremum over cells, on any executor",
 "The Courant number of a flux field is half the step size times the maximum over cells of the summed face-flux magnitudes divided by cell volume, each face counted once for each cell it bounds; the mean it reports is the same with the sums over all cells in place of the maximum. It does not depend on executor or schedule, and computing it changes neither the fluxes nor the mesh.",
 ["schedules", "inputs", "configurations"],
 "all meshes, fluxes and step sizes, all executors, worker splits and interleavings",
 "the tests use a uniform flux on a uniform mesh, where every cell gives the same number",
 ["src/finiteVolume/cellCentred/auxiliary/coNum.cpp"],
 [("atomic accumulation and max/sum reductions", "src/finiteVolume/cellCentred/auxiliary/coNum.cpp")], [], ["computeCoNum"])

prop("V13", "Sparse matrices and linear systems copy and multiply exactly",
 "Copying a matrix or linear system to any executor preserves its structure and values, lands on the executor asked for, and is independent of the original; reading or writing an entry addresses exactly the stored entry of that row and column. Converting to other value or index types converts every entry and keeps the structure. The residual of a system equals, row by row, the sum of entry times solution minus the right-hand side, and clearing a system zeroes it completely. None of this depends on executor or schedule.",
 ["schedules", "inputs", "configurations", "histories"],
 "all sparsity structures and values, all executors and transfers, worker splits and interleavings",
 "the tests use one 3x3 matrix and copy only to the host",
 ["include/NeoFOAM/linearAlgebra/CSRMatrix.hpp", "include/NeoFOAM/linearAlgebra/linearSystem.hpp"],
 [("row loop over CSR extents", "include/NeoFOAM/linearAlgebra/linearSystem.hpp spmv"), ("entry search within a row", "include/NeoFOAM/linearAlgebra/CSRMatrix.hpp")], [], ["CSRMatrix", "LinearSystem", "spmv"])

prop("N01", "Runge-Kutta steps advance the solution and report every failure",
 "A time step with the Runge-Kutta integrator gives the previous solution plus the step size times the negated sum of the equation's explicit operators (the first-order method, the only one offered), on every executor and for every schedule, with the boundary conditions of the solution corrected and the previous solution updated. This holds for a new integrator, a copied or moved one, and one that is used again with another equation, field content, time or step size. When the external library reports an error, in the set-up or in the step, the step does not succeed silently, and whatever ends it leaves the solution either as it was or completely new. Every library object, vector and heap block is released; a copied vector is a vector of its own.",
 ["inputs", "histories", "fault_sequences", "schedules", "configurations"],
 "all equations, fields, step sizes and times, sequences of steps with reused and copied integrators, failures of any library call or allocation, worker schedules",
 "the test runs one equation on a single cell, with a new integrator for every step and no failures, and needs the external library",
 ["include/NeoFOAM/timeIntegration/rungeKutta.hpp", "src/timeIntegration/rungeKutta.cpp", "include/NeoFOAM/timeIntegration/sundials.hpp"],
 [("life cycle of context, vectors and integrator memory", "src/timeIntegration/rungeKutta.cpp initSUNERKSolver"), ("field and vector exchange on every executor", "include/NeoFOAM/timeIntegration/sundials.hpp fieldToSunNVector"), ("error codes of the library", "src/timeIntegration/rungeKutta.cpp solve")], [], ["explicitRKSolve", "SKVector"])

prop("N02", "External linear solvers are given exactly the system and return its solution",
 "A solver made from a dictionary hands the external library exactly the matrix, right-hand side, initial guess and configuration it was given, and returns the library's solution, so that the residual meets the tolerance asked for, on every executor and for host and device fields alike. This holds for repeated use, for changed values, for systems of any size and for copied or moved solvers. The system is left unchanged. A configuration that cannot be honoured is refused. When the library or an allocation fails the failure reaches the caller, and every library object and storage block is released.",
 ["inputs", "configurations", "histories", "fault_sequences"],
 "all systems, sizes, executors and solver dictionaries, sequences of solves, failures of any library call or allocation",
 "the tests solve one 3x3 system with a new solver each and no failures, and need the external libraries",
 ["include/NeoFOAM/linearAlgebra/ginkgo.hpp", "src/linearAlgebra/ginkgo.cpp", "include/NeoFOAM/linearAlgebra/petsc.hpp", "include/NeoFOAM/linearAlgebra/petscSolverContext.hpp", "include/NeoFOAM/linearAlgebra/solver.hpp"],
 [("translation of the configuration", "src/linearAlgebra/ginkgo.cpp parse"), ("conversion of the sparse matrix", "include/NeoFOAM/linearAlgebra/petscSolverContext.hpp initialize"), ("solver copies", "include/NeoFOAM/linearAlgebra/solver.hpp")], [], ["petscSolver", "ginkgoSolver"])

prop("N03", "Three-component vector algebra follows the component formulas",
 "Addition, subtraction, scaling, inner product, magnitude, comparison and component access of three-component vectors follow the usual formulas.",
 ["inputs"], "all component values",
 "unit tests sample a handful of vectors",
 ["include/NeoFOAM/core/primitives/vector.hpp", "src/core/primitives/vector.cpp"],
 [("component-wise operators", "include/NeoFOAM/core/primitives/vector.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
