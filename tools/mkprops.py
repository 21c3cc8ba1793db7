#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script only to keep the lines readable)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


p("P01", "An input deck means exactly what its lines say",
  "Every setting of a well-formed input deck takes the value of its last occurrence, settings that do not occur keep their documented defaults, and materials, element blocks and boundary conditions accumulate (boundary conditions in deck order). The result does not depend on comments, blank lines, indentation, spacing around the colon, line length or on how settings of different kinds are interleaved.",
  ["inputs"], "all decks: any sequence of recognised key/value lines with any formatting noise",
  "No test reads a deck; the example decks use one formatting style and never repeat or reorder keys.",
  ["src/nimble_parser.cc", "src/nimble_parser.h"],
  [("Parser::ReadFile", "src/nimble_parser.cc"), ("Parser::ParseKeyValue", "src/nimble_parser.cc"), ("BlockProperties", "src/nimble_parser.cc")],
  ["Parser accessors after Initialize()"])
p("P02", "A malformed deck is rejected, never half-accepted",
  "Reading a deck that cannot be opened, contains an unknown setting, a line without a colon, an empty value, an invalid value of a switch, a number that is no number, or an element block or material line without all its parts fails with an error; it neither hangs nor crashes nor is silently accepted. Reading always terminates, whatever the length of a line.",
  ["inputs"], "all decks with at least one malformed line, at any position among valid lines",
  "No test feeds a malformed deck.",
  ["src/nimble_parser.cc"], [("Parser::ReadFile / ParseKeyValue error paths", "src/nimble_parser.cc")],
  ["exception from Parser::Initialize()"])
p("P03", "File names are rank-distinct and agree with the decomposition convention",
  "The mesh and output file names derived for a rank consist of the base name without its .g/.e suffix, the optional tag, the extension and - in a parallel run - the number of ranks and the rank number zero-padded to the same width. Two ranks never share a file, serial runs carry no rank suffix, and \"none\" stays \"none\".",
  ["inputs", "configurations"], "all base names (with directories and dots), tags, extensions, rank counts and ranks",
  "The tests never run with more than one rank or an unusual name.",
  ["src/nimble_parser.cc", "src/nimble.cc"], [("IOFileName", "src/nimble_parser.cc")], ["IOFileName", "files a run reads and writes"])
p("P04", "Boundary-condition expressions evaluate by the expression language",
  "A well-formed expression of x, y, z, t evaluates at every point to the value given by the language: from loosest to tightest ?:, %, + and -, * and /, ^ (right associative), unary minus, with conditions built from comparisons by |, ^ (exclusive or), &, !. Letter case and spaces between tokens do not matter, evaluation has no memory of earlier points, and a copied or reassigned expression behaves like a freshly parsed one.",
  ["inputs"], "all expressions of the language, all evaluation points, all copy/assign histories",
  "No test evaluates an expression.",
  ["src/nimble_expression_parser.h", "src/nimble_expression_parser.cc"],
  [("EquationContext::ParseEquation / ParseOperation / ParseBooleanExpression", "src/nimble_expression_parser.h"), ("Evaluatable::optimize (constant folding)", "src/nimble_expression_parser.h"), ("BoundaryConditionFunctor", "src/nimble_expression_parser.h")],
  ["BoundaryConditionFunctor::eval"])
p("P05", "Malformed boundary-condition expressions are rejected",
  "Every string that is not a sentence of the expression language is rejected with an invalid-argument error when it is parsed. It never crashes, hangs or yields a value, and a rejected reassignment leaves the previous expression in force.",
  ["inputs"], "all token sequences outside the language",
  "No test parses an expression.",
  ["src/nimble_expression_parser.h", "src/nimble_expression_parser.cc"],
  [("EquationContext error paths", "src/nimble_expression_parser.h")], ["BoundaryConditionFunctor construction and assignment"])
p("P06", "Explicit runs take the requested steps and write exactly the requested outputs",
  "An explicit run from the initial to the final time with N load steps takes N equal steps and its output database holds the initial state, then - counting the steps from zero - the state after every step whose number is a multiple of the output frequency, and the state after the last step, each exactly once and in order, labelled with its simulation time. With output frequency zero only the initial state is written; a final time before the initial time is refused.",
  ["inputs", "configurations"], "all initial/final times, step counts and output frequencies, with and without contact, serial and parallel",
  "No test runs a simulation to completion and inspects the time history.",
  ["src/integrators/explicit_time_integrator.cc", "src/nimble_exodus_output.cc"],
  [("ExplicitTimeIntegrator::Integrate", "src/integrators/explicit_time_integrator.cc"), ("ExodusOutput::WriteStep", "src/nimble_exodus_output.cc")],
  ["time values of the output database"])
p("P07", "Kinematic boundary conditions hold at every output, last one wins",
  "At every output each component of each node of the named node set that is constrained in velocity has the prescribed velocity, and at every output after the start each one constrained in displacement has the prescribed displacement, evaluated at the node's reference position and the current time; when several conditions constrain the same component the last one in the deck wins. Initial velocities are applied once, at the start only, and nodes or components that no condition names are never constrained.",
  ["inputs", "configurations"], "all node sets (overlapping, empty, unknown), components, constant and expression-valued conditions, orders and time steps",
  "No test applies a boundary condition.",
  ["src/nimble_boundary_condition_manager.cc", "src/nimble_boundary_condition_manager.h", "src/nimble_boundary_condition.cc", "src/integrators/explicit_time_integrator.cc"],
  [("BoundaryConditionManager::ApplyKinematicBC / ApplyInitialConditions", "src/nimble_boundary_condition_manager.h"), ("BoundaryCondition::Initialize", "src/nimble_boundary_condition.cc")],
  ["displacement and velocity in the output database"])
p("P08", "Explicit dynamics follows the central-difference trajectory of the mesh",
  "At every output the displacements, velocities and accelerations of all nodes are those of the central-difference scheme for the assembled mesh: half-step velocity update, boundary conditions, displacement update, forces of the deformed configuration divided by lumped mass, half-step velocity update. Without kinematic boundary conditions total momentum is conserved and a rigid translation stays rigid.",
  ["inputs", "histories"], "all hexahedral meshes, block and material assignments, initial velocities, boundary conditions, step sizes and step counts",
  "Unit tests exercise a material on one point; no test follows a trajectory.",
  ["src/integrators/explicit_time_integrator.cc", "src/nimble_kokkos_model_data.cc", "src/nimble_kokkos_block.h", "src/nimble_element.h"],
  [("ExplicitTimeIntegrator::Integrate", "src/integrators/explicit_time_integrator.cc"), ("kokkos ModelData::ComputeInternalForce", "src/nimble_kokkos_model_data.cc"), ("UpdateStates", "src/nimble_kokkos_model_data.cc")],
  ["nodal fields of the output database"])
p("P09", "The result does not depend on the decomposition",
  "For any partition of a mesh's elements over any number of ranks the run completes and every rank's output holds, for each of its nodes and elements, the values the serial run holds for the same global id, at the same times; all ranks that share a node agree on it.",
  ["configurations", "schedules"], "all meshes, partitions (including ranks that share a corner only, chains, stars, nodes shared by many ranks) and message completion orders, for both reduction back ends",
  "The test suite never starts more than one process.",
  ["src/nimble.mpi.reduction.cc", "src/nimble_vector_communicator.h", "src/nimble_kokkos_model_data.cc", "src/nimble_tpetra_utils.cc"],
  [("VectorCommunicator::VectorReduction", "src/nimble_vector_communicator.h"), ("GenerateReductionInfo", "src/nimble.mpi.reduction.cc"), ("ComputeLumpedMass / ComputeInternalForce", "src/nimble_kokkos_model_data.cc")],
  ["per-rank output databases"])
p("P10", "Shared-node reduction sums every contribution exactly once",
  "After a vector reduction every rank holds, for each component of each node it shares, the sum of the contributions of all ranks that have the node, and everything else is unchanged; this holds for 1, 2 and 3 components, for repeated reductions and for every order in which messages complete. The reduction never deadlocks and never depends on local node numbering.",
  ["schedules", "configurations", "histories"], "all node-to-rank distributions, rank counts, local orderings and message completion orders",
  "The test suite never starts more than one process and cannot choose completion orders.",
  ["src/nimble.mpi.reduction.cc", "src/nimble.mpi.rank_clique_reducer.h", "src/nimble.mpi.reduction_utils.cc", "src/nimble.mpi.reduction.h", "src/nimble_vector_communicator.h"],
  [("GenerateReductionInfo", "src/nimble.mpi.reduction.cc"), ("ReductionInfo::PerformReduction", "src/nimble.mpi.reduction.h"), ("ReductionClique", "src/nimble.mpi.rank_clique_reducer.h")],
  ["vector contents on every rank after VectorReduction"])
p("P11", "Every shared node has exactly one owner that all ranks agree on",
  "The partition-boundary query returns, on every rank, each node the rank shares with another rank exactly once and no other node, together with the lowest rank that has the node. All ranks that share a node name the same owner.",
  ["configurations"], "all node-to-rank distributions, rank counts and local orderings",
  "The test suite never starts more than one process.",
  ["src/nimble.mpi.reduction.h", "src/nimble.mpi.reduction.cc", "src/nimble_vector_communicator.h"],
  [("ReductionInfo::GetAllIndices", "src/nimble.mpi.reduction.h"), ("GetPartitionBoundaryNodeLocalIds", "src/nimble_vector_communicator.h")],
  ["return values on every rank"])
p("P12", "Lumped mass is positive, conserves block mass, and sets a safe step",
  "Every node of an element has positive lumped mass; each element's share adds up to its density times its volume, so that total mass is the sum over blocks, wherever the mesh lies and however it is partitioned. The reported critical time step is the smallest over all elements of characteristic length over the block's sound speed, and is independent of the position of the mesh.",
  ["inputs", "configurations"], "all hexahedral elements (rotated, translated, non-cubic), block assignments and densities",
  "No test assembles mass.",
  ["src/nimble_element.cc", "src/nimble_element.h", "src/nimble_block_base.cc", "src/nimble_kokkos_model_data.cc"],
  [("HexElement::ComputeLumpedMass", "src/nimble_element.cc"), ("HexElement::ComputeCharacteristicLength", "src/nimble_element.cc"), ("BlockBase::ComputeCriticalTimeStep", "src/nimble_block_base.cc")],
  ["lumped_mass field, critical time step"])
p("P13", "Internal force is exact for linear fields, self-equilibrated and frame-true",
  "The internal force of any assembly of elements is zero for a stress-free motion, always sums to zero, is unaffected by translating the mesh, and for small displacements equals minus the exact stiffness of the trilinear element for the block's material. Elements of one block never feel the material of another block.",
  ["inputs"], "all hexahedral meshes, displacement fields and material assignments",
  "No test assembles a force.",
  ["src/nimble_element.cc", "src/nimble_element.h", "src/nimble_kokkos_block.cc", "src/nimble_kokkos_model_data.cc", "src/nimble_block.cc"],
  [("HexElement::ComputeNodalForces / ComputeDeformationGradients", "src/nimble_element.h"), ("ModelData::ComputeInternalForce", "src/nimble_kokkos_model_data.cc"), ("Block::ComputeInternalForce", "src/nimble_block.cc")],
  ["internal force vector"])
p("P14", "Material models give the constitutive stress of the deformation gradient",
  "For every deformation gradient the elastic model returns the isotropic Hooke stress of the small strain and the neohookean model the compressible neohookean Cauchy stress; both vanish without deformation and are proportional to the moduli. The neohookean stress is objective: it is unchanged up to the rotation when a rotation is superposed; host and device entry points agree.",
  ["inputs"], "all admissible deformation gradients and moduli",
  "One unit test evaluates one point and compares host with device only.",
  ["src/nimble_material.cc", "src/nimble_material.h", "src/nimble_utils.h"],
  [("ElasticMaterial::GetStress", "src/nimble_material.cc"), ("NeohookeanMaterial::GetStress", "src/nimble_material.cc"), ("Polar_Decomp and tensor helpers", "src/nimble_utils.h")],
  ["stress returned by GetStress"])
p("P15", "Material parameters reach exactly the material they were written for",
  "A material definition yields the material whose name comes first, with every later key bound to the number or string that follows it, independent of the order of the pairs and of spacing; missing required parameters, unknown materials and invalid keys are errors. Each element block gets the material its deck line names, whatever the order of the lines.",
  ["inputs"], "all material strings and block assignments",
  "The unit tests cover a handful of well-formed strings and no block assignment.",
  ["src/nimble_material_factory_base.cc", "src/nimble_material_factory.cc", "src/nimble_kokkos_material_factory.cc", "src/nimble_parser_util.h", "src/nimble_parser.h"],
  [("MaterialFactoryBase::ParseMaterialParametersString", "src/nimble_material_factory_base.cc"), ("MaterialFactory::create", "src/nimble_material_factory.cc"), ("Parser::GetModelMaterialParameters", "src/nimble_parser.h")],
  ["MaterialParameters accessors, created material moduli"])
p("P16", "Fields are registered once and keep their values apart",
  "Registering a field gives an id under which it is found again by label, registering the same label again gives the same id, and unknown labels are reported as absent; values written to one field, block, element or integration point are never visible in another. Advancing the state makes the values computed in this step the old values of the next.",
  ["histories"], "all sequences of registrations, reads, writes and state advances",
  "No test uses the field registry.",
  ["src/nimble_model_data.cc", "src/nimble_model_data.h", "src/nimble_model_data_base.cc", "src/nimble_kokkos_model_data.cc", "src/nimble_block.cc"],
  [("AllocateNodeData / AllocateIntegrationPointData / GetFieldId", "src/nimble_model_data_base.cc"), ("UpdateStates / SwapStates", "src/nimble_model_data.cc")],
  ["field accessors"])
p("P17", "Requested output fields appear, named and valued as defined",
  "Each requested nodal or element quantity appears in the output under the names derived from its label and components - per integration point with an ipt prefix, volume averaged without - and holds the value of that quantity for the right node or element of the right block; unknown requests change nothing. Volume-averaged stress, deformation gradient and volume are the exact averages over the deformed element.",
  ["inputs", "configurations"], "all combinations of output fields, blocks and deformations",
  "No test inspects output.",
  ["src/nimble_model_data_base.cc", "src/nimble_kokkos_model_data.cc", "src/nimble_exodus_output.cc", "src/nimble_data_utils.cc", "src/nimble_element.cc"],
  [("SpecifyOutputFields / WriteExodusOutput", "src/nimble_kokkos_model_data.cc"), ("GetComponentLabels", "src/nimble_data_utils.cc"), ("ExodusOutput::InitializeDatabase", "src/nimble_exodus_output.cc"), ("HexElement::ComputeVolumeAverageSymTensor", "src/nimble_element.cc")],
  ["output database"])
p("P18", "The mesh is read faithfully and echoed faithfully",
  "Coordinates, connectivity, element blocks, node sets, and global ids read from a mesh - whatever the block and set ids, names, ordering and number of distribution factors - are those of the file, and the output database repeats them. An element or node is never lost, duplicated or attached to another block or set.",
  ["inputs"], "all hexahedral meshes: any number of blocks and sets, ids, names, empty blocks, id maps",
  "No test reads a mesh.",
  ["src/nimble_genesis_mesh.cc", "src/nimble_exodus_output.cc"],
  [("GenesisMesh::ReadFile", "src/nimble_genesis_mesh.cc"), ("ExodusOutput::Initialize", "src/nimble_exodus_output.cc")],
  ["GenesisMesh accessors, output database"])
p("P19", "Matrix containers behave like the matrix they store",
  "A compressed-row matrix built from a nonzero list returns, after any sequence of set, sum and fill operations, exactly the value of the corresponding dense matrix, refuses entries outside its pattern, and multiplies vectors like it. The pattern determined for a mesh's tangent contains exactly the pairs of degrees of freedom whose nodes share an element; when the mesh is spread over ranks, the matrix holds on each rank exactly the pairs of that rank's elements.",
  ["inputs", "histories"], "all patterns, operation sequences and vectors; all meshes",
  "No test builds a matrix.",
  ["src/nimble_linear_solver.cc", "src/nimble_linear_solver.h", "src/nimble_mesh_utils.cc", "src/nimble_tpetra_utils.cc"],
  [("CRSMatrixContainer", "src/nimble_linear_solver.cc"), ("DetermineTangentMatrixNonzeroStructure", "src/nimble_mesh_utils.cc"), ("TpetraContainer::AllocateTangentStiffnessMatrix", "src/nimble_tpetra_utils.cc")],
  ["matrix accessors, MatVec"])
p("P20", "The conjugate-gradient solver never claims success falsely",
  "When the solver reports success, the returned vector satisfies the linear system to the requested relative tolerance, whatever the initial guess; for symmetric positive definite systems it succeeds within the iteration limit, and a zero right-hand side gives zero. When it cannot converge within the limit it reports failure.",
  ["inputs"], "all symmetric positive definite systems, right-hand sides, initial guesses, tolerances and iteration limits",
  "No test solves a linear system.",
  ["src/nimble_linear_solver.cc", "src/nimble_linear_solver.h"],
  [("CG_SolveSystem", "src/nimble_linear_solver.cc")], ["solution vector and return value"])
p("P21", "Constraints on residual and tangent touch exactly the constrained entries",
  "Imposing kinematic conditions on a right-hand side zeroes exactly the constrained entries, and imposing them on a matrix replaces exactly the constrained rows and columns by a diagonal, leaving every other entry as it was. Traction conditions and conditions on unknown node sets constrain nothing.",
  ["inputs"], "all node sets, condition lists, right-hand sides and matrices",
  "No test applies constraints.",
  ["src/nimble_boundary_condition_manager.h", "src/nimble_boundary_condition_manager.cc", "src/nimble_linear_solver.cc"],
  [("ModifyRHSForKinematicBC / ModifyTangentStiffnessMatrixForKinematicBC", "src/nimble_boundary_condition_manager.h")],
  ["vector and matrix contents"])
p("P22", "A quasistatic step ends in equilibrium or in an error",
  "A quasistatic run either ends every load step in equilibrium of all unconstrained degrees of freedom to the requested relative tolerance, with the boundary conditions satisfied, or stops with an error; it never reports an unconverged state as a result. Parallel quasistatic runs are refused.",
  ["inputs", "configurations"], "all meshes, materials, boundary conditions, tolerances and iteration limits",
  "No test runs the quasistatic integrator.",
  ["src/integrators/quasistatic_time_integrator.cc", "src/nimble_model_data.cc"],
  [("QuasistaticTimeIntegrator::Integrate / ComputeQuasistaticResidual", "src/integrators/quasistatic_time_integrator.cc")],
  ["nodal displacement and residual after each load step"])
p("P23", "Contact surfaces are exactly the exterior faces, outward, uniquely identified",
  "The contact facets of a block set are exactly the element faces that belong to one element of the set only - across all ranks - each split into four outward-facing triangles meeting at the face centre, and the contact nodes are exactly the nodes of those faces. Identifiers are distinct over all facets and nodes of all ranks and do not depend on the decomposition; the bounding boxes used by a search enclose what they stand for.",
  ["inputs", "configurations"], "all hexahedral meshes, choices of primary and secondary blocks, and partitions",
  "The tests project a point on a hand-made facet and never skin a mesh.",
  ["src/nimble_contact_manager.cc", "src/nimble_contact_entity.cc", "src/nimble_contact_entity.h"],
  [("ContactManager::SkinBlocks / RemoveInternalSkinFaces / CreateContactNodesAndFaces", "src/nimble_contact_manager.cc")],
  ["contact facets and nodes of the manager"])
p("P24", "A projected contact point is the closest point, and gap and sides are right",
  "The projection of a node on a facet lies in the facet's plane at the reported barycentric coordinates, and is accepted exactly when it falls inside the facet and the node lies on the inner side within the facet's characteristic length; the gap is the signed distance. The closest-point query reports vertex, edge or face exactly as the nearest feature is.",
  ["inputs"], "all triangles and points, including points on edges and vertices and degenerate alignments",
  "The tests try a handful of points on one facet.",
  ["src/nimble_contact_manager.cc", "src/nimble_contact_entity.h"],
  [("ContactManager::Projection / SimpleClosestPointProjectionSingle", "src/nimble_contact_manager.cc")],
  ["gap, barycentric coordinates, projection type"])
p("P25", "Contact forces are equal and opposite and vanish without penetration",
  "For each penetrating node the force on the node is the penalty times the gap along the facet normal and pushes it out, the facet's nodes receive the opposite force in barycentric shares, and nothing else receives any. Contact forces therefore sum to zero, are zero when nothing penetrates, and do not accumulate from step to step.",
  ["inputs", "histories"], "all facets, penetrating nodes, penalties and sequences of evaluations",
  "No test evaluates a contact force.",
  ["src/nimble_contact_manager.cc", "src/nimble_contact_interface.h", "src/nimble_contact_entity.h"],
  [("PenaltyContactEnforcement::EnforceContact", "src/nimble_contact_interface.h"), ("ContactEntity::ScatterForceToContactManagerForceVector", "src/nimble_contact_entity.h")],
  ["contact force vector"])
p("P26", "Serialisation round-trips",
  "Unpacking the packed form of any supported value - arithmetic values, plain structs, pairs, arrays, vectors and nested vectors of these, and pointers standing for what they point to - yields the value, consumes exactly the bytes that packing produced, and the announced size is the produced size.",
  ["inputs"], "all values of the supported types, including empty containers, in any nesting",
  "No test serialises anything.",
  ["src/nimble.mpi.serialization.h"], [("meta::serialize / pack / unpack", "src/nimble.mpi.serialization.h")], ["packed bytes and unpacked values"])
p("P27", "Collectives deliver every rank's data to the right place",
  "The communication context's gather, allgather, scatter, broadcast and send/receive of values and of variable-length vectors deliver to each rank exactly the data the operation defines, in rank order, for every number of ranks and every, including empty, contribution.",
  ["configurations", "inputs"], "all rank counts, root ranks and contribution sizes",
  "The test suite never starts more than one process.",
  ["src/nimble.mpi.mpicontext.h"], [("mpicontext", "src/nimble.mpi.mpicontext.h")], ["results on each rank"])
p("P28", "A run ends cleanly or fails loudly",
  "A run of the program on a valid deck exits with status zero and has written its output database; a run whose deck, mesh, material, or boundary condition is invalid, or whose file is missing, terminates with a nonzero status and a message, and never reports success without results. The way the program is started (serial, several ranks, either reduction back end) does not change this.",
  ["configurations", "inputs", "fault_sequences"], "all command lines and all single faults in the inputs",
  "No test starts the program.",
  ["src/nimble.cc", "src/nimble_cli.cc", "src/nimble_main.cc"], [("NimbleApplication::Run / ExecMain", "src/nimble.cc")], ["exit status, files written"])
p("P29", "The tangent is the derivative of the internal force",
  "The assembled tangent stiffness is symmetric, maps rigid translations to zero and equals the derivative of the negative internal force with respect to nodal displacement; contributions of elements and blocks add up, and permuting local numbering permutes the matrix.",
  ["inputs"], "all hexahedral meshes, displacements and materials",
  "No test assembles a tangent.",
  ["src/nimble_element.cc", "src/nimble_block.cc", "src/nimble_block_base.cc", "src/nimble_model_data.cc"],
  [("HexElement::ComputeTangent", "src/nimble_element.cc"), ("Block::ComputeTangentStiffnessMatrix", "src/nimble_block.cc")], ["tangent matrix"])
p("P30", "Contact acts in the run and is shown where it is",
  "In an explicit run with a contact command the contact force of every step is that of the positions of that step, summed over the ranks and never carried over, and lumped mass times acceleration is the sum of internal, external and contact force. The contact visualisation holds, at the times of the output, every facet and contact node exactly once over all ranks under a number that does not depend on the decomposition, displaced with its nodes and flagged when in contact; writing it changes nothing else.",
  ["inputs", "histories", "configurations"], "all meshes, motions, block lists, penalties, output frequencies and partitions",
  "No test runs a simulation with contact or writes a contact visualisation.",
  ["src/integrators/explicit_time_integrator.cc", "src/nimble_contact_manager.cc", "src/nimble_contact_interface.h", "src/nimble_exodus_output.cc"],
  [("ExplicitTimeIntegrator::Integrate", "src/integrators/explicit_time_integrator.cc"), ("ContactManager::ComputeContactForce / InitializeContactVisualization / WriteVisualizationData", "src/nimble_contact_manager.cc")],
  ["output database and contact visualisation database"])
p("P31", "The tensor kernel computes what its names say",
  "Products, sums, transposes, symmetric and skew parts, determinants, inverses and norms of the 3x3 tensor kernel are those of the tensors; the polar decomposition of any deformation with positive determinant is a positive definite symmetric stretch times a proper rotation, and its logarithm and the logarithm of any rotation, half a turn included, are the ones exponentiation takes back; a factored regular system is solved for every right-hand side. Results go to their target only.",
  ["inputs", "histories"], "all tensors, rotations, stretches (repeated ones included) and regular systems, and sequences of operations in which results become operands",
  "The unit tests invert one matrix.",
  ["src/nimble_utils.h"], [("Polar_Decomp / Polar_Left_LogV_Lame / Log_Rotation / Invert_Full33 / BCH / LU_Decompose", "src/nimble_utils.h")], ["tensors and vectors returned"])
p("P32", "Views of storage act on exactly the elements they cover",
  "A view - strided in one or two indices, a run of an array, a part of another view, a section of a divided array, a field - reads and writes the cells of its image, each once, and no other cell: filling, copying, scaled addition, exchange, transformation and division act on whole views whatever their strides and lengths, and views and copies that share cells see each other's writes.",
  ["inputs", "histories"], "all shapes, strides, bases and lengths (empty ones included), and histories of operations on overlapping and disjoint views of one storage",
  "The unit tests build views of contiguous storage only.",
  ["src/nimble_view.h", "src/nimble.quanta.arrayview.h", "src/nimble.quanta.h"],
  [("Viewify zero / copy / AXPYResult::assignTo", "src/nimble_view.h"), ("arrayview_t / partition_into_arrayviews / spanarray", "src/nimble.quanta.arrayview.h")], ["values read through views", "contents of the storage"])
p("P33", "Labels identify the field, the component and the integration point",
  "Every component of a field, at every integration point, has a label of its own; adding the prefix of an integration point to a label is undone by taking it away and gives the number of the point back, a label that merely resembles a prefixed one is left alone, and a registered field is found with its length under its label, with and without the prefix of any point. Lengths have the number of components their name and the dimension give; a component, length or field that does not exist is refused.",
  ["inputs", "histories"], "all labels (those that contain or resemble prefixes included), lengths, dimensions and point numbers, and registries of fields",
  "The unit tests look at a few labels of three-dimensional tensors.",
  ["src/nimble_data_utils.cc"],
  [("AddIntegrationPointPrefix / RemoveIntegrationPointPrefix / LabelToIntegrationPointNumber", "src/nimble_data_utils.cc"), ("GetComponentLabels / GetComponentLabel / LabelToLength / LengthToInt", "src/nimble_data_utils.cc")], ["labels, numbers and lengths returned", "exceptions"])
p("P34", "The command line decides what is run",
  "The first word that is no option names the deck, wherever options stand: exactly that deck is run, on the communication layer asked for, and the results do not depend on that layer. A help request prints the help and ends with status 0; a missing deck, a name that is no file, a feature this build lacks or a switch with a value it does not know is refused with a non-zero status before anything is run. Words and options that are not known are left alone.",
  ["inputs", "configurations"], "all command lines: any number and order of decks, names that are no decks, options, help requests and unknown words, on one and several ranks",
  "No test gives the program a command line.",
  ["src/nimble_cli.cc", "src/nimble.cc"],
  [("CommandLineConfiguration::ConfigureCommandLineArguments / ParseAndGetErrorCode", "src/nimble_cli.cc"), ("NimbleApplication::Run / InitializeSubsystems", "src/nimble.cc")], ["exit status", "messages", "output files"])

p("P35", "Contact entities follow their nodes and give every force back to them",
  "A contact node sits at its mesh node, a facet at its two mesh nodes and the middle of its face; its bounding box and centroid are always those of its position, with the inflation its length asks for. A force on a facet is divided among its corners by the weights, or by the point, it acts at, and what is scattered to the mesh nodes is exactly what the entity holds: the sum over the nodes is the sum of the forces. The contact status is what was last set. Geometry exported to another entity, and facets sent as bytes, in any number and order, arrive with the position, length, box, centroid, identity and nodes they left with.",
  ["inputs", "histories"], "all histories of creating, placing, loading, scattering, exporting, copying and sending contact entities over moving nodes, shared nodes included",
  "The unit tests build single entities and never send or export one.",
  ["src/nimble_contact_entity.h", "src/nimble_contact_entity.cc"],
  [("ContactEntity::SetCoordinates / SetBoundingBox / ExportGeometryInto", "src/nimble_contact_entity.cc"), ("SetNodalContactForces / ComputeNodalContactForces / ScatterForceToContactManagerForceVector / SerializeContactFaces / UnserializeContactFaces", "src/nimble_contact_entity.h")], ["fields of the entities", "force vector"])

p("P36", "What a run reports is what it did",
  "The report of a run - the banner, the sizes of the problem and of its contact entities, the progress lines, the Newton iterations with their residuals, the warning about the critical time step, the report of failure or success, the file of timings (named after the number of ranks and the time stamp, with dashes for blanks) - agrees with the run it reports on: the steps announced are the steps taken, in order and each once, the sizes are those of the mesh and its contact blocks, the iterations announced converge as the deck asks, and completion is reported exactly once and only by a run that got there. A timed region's time counts every stay in it from entering to leaving, a region enclosing another includes it, and the totals, intervals and orders the timers give are those of the history of regions entered and left.",
  ["inputs", "histories"], "all decks with and without contact, explicit and quasi-static, converging and failing, serial and parallel; histories of entering and leaving nested and repeated regions",
  "No test reads the report of a run; the timers have no test.",
  ["src/nimble.cc", "src/nimble_parser.cc", "src/nimble_profiling_timer.h", "src/nimble_timing_utils.cc", "src/nimble_contact_manager.cc"],
  [("ExplicitTimeIntegrator / QuasistaticTimeIntegrator progress and warnings", "src/nimble.cc"), ("ProfilingTimer::push_region / pop_region_and_report_time", "src/nimble_profiling_timer.h"), ("active contact entity counts", "src/nimble_contact_manager.cc")], ["standard output", "timing log", "times returned"])

p("P37", "A mesh and its results are the same in memory and in every file",
  "A mesh read from a database - Exodus or text, of two or three dimensions, made elsewhere, by the program or put together in memory - has the nodes with their numbers and coordinates, the element blocks with their numbers, names, shapes, connectivity and element numbers, and the node and side sets of the file; its bounding box, the lookup of its blocks by name, the nonzeros of its matrix and the reference coordinates of a model made from it are those of these elements and nodes. A database written for a mesh holds the same mesh (what the format can hold), with its title and program record, and every step appended holds the time and every global, nodal and element value under the name it was declared with, whatever else is open or has been written; writing and reading again changes nothing.",
  ["inputs", "histories"], "all meshes of 2 or 3 dimensions with any numbering, names, empty blocks and sets; all histories of making, loading, saving and appending on several files",
  "The tests read one small mesh and write none.",
  ["src/nimble_genesis_mesh.cc", "src/nimble_exodus_output.cc", "src/nimble_genesis_mesh.h"],
  [("GenesisMesh::ReadFile / ReadTextFile / Initialize", "src/nimble_genesis_mesh.cc"), ("ExodusOutput::Initialize / WriteStep, text files", "src/nimble_exodus_output.cc"), ("GenesisMesh::BoundingBox / BlockNamesToOnProcessorBlockIds", "src/nimble_genesis_mesh.cc"), ("DetermineTangentMatrixNonzeroStructure", "src/nimble_mesh_utils.cc")],
  ["accessors of GenesisMesh", "contents of the databases written"])

p("P38", "No run touches memory it does not hold, or goes by values it was not given",
  "Whatever the deck, mesh, expression, contact surface, distribution over ranks or sequence of calls: every read and write is inside storage that the run holds at that time, nothing is used after it was given back or given back twice, indices and counts do not overflow, and neither a decision of the program nor anything it writes depends on what its memory held before it was given a value.",
  ["inputs", "histories", "schedules"], "all accesses of all runs: decks, expressions, meshes of both formats, fields, matrices, views, contact, reductions and messages on any number of ranks",
  "The tests run without instruments on a few inputs; an access just beyond a buffer, or of memory that happens to be zero, changes none of their results.",
  ["src/nimble_expression_parser.h", "src/nimble_exodus_output.cc", "src/nimble.mpi.rank_clique_reducer.h", "src/nimble_kokkos_defs.h", "src/nimble_view.h"],
  [("MemoryManager", "src/nimble_expression_parser.h"), ("buffers of names in ExodusOutput::InitializeDatabase", "src/nimble_exodus_output.cc"), ("ReductionClique_t buffers and flags", "src/nimble.mpi.rank_clique_reducer.h"), ("Field storage", "src/nimble_kokkos_defs.h")],
  ["accesses seen by instruments of the compiler and by memcheck", "results under memory filled beforehand"])

p("P39", "Every member of an uncertainty ensemble is the run its parameters describe",
  "With --use_uq the nominal run is the run made without it. Each exact sample is the run one would make with moduli p0 + range * xi in the materials named by the deck; each approximate sample is driven by its weighted combination of the forces of the nominal run and of the exact samples. All samples have the masses, initial and kinematic conditions and output times of the nominal run, whatever the number of ranks, blocks, materials and samples, and what is written about a sample under its name is the state of that sample. The table of sampled parameters holds the values that were used. A description of parameters, samples or weights that is wrong or incomplete is refused with a nonzero status before the first step.",
  ["inputs", "schedules"], "all decks with uncertain moduli, sample files, decompositions",
  "No test is built with the feature on.",
  ["src/uq/nimble_uq.cc", "src/uq/nimble_uq_model_data.cc", "src/uq/nimble_uq_block.cc", "src/nimble_material.cc"],
  [("UqModel::ParseConfiguration / ReadSamples / ApplyClosure", "src/uq/nimble_uq.cc"), ("uq_model ModelData: forces, conditions and steps of the samples", "src/uq/nimble_uq_model_data.cc"), ("uq Block::ComputeInternalForce", "src/uq/nimble_uq_block.cc"), ("GetOffNominalStress", "src/nimble_material.cc")],
  ["nodal results written for each sample", "parameter_samples.dat", "exit status of wrong descriptions"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
