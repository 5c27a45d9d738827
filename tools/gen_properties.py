#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "PID feedback follows its law over any history of ticks and reconfigurations",
  "After any history of ticks, gain changes, re-initialisations and rejected parameter sets, the feedback returned by the PID controller equals static offset + Kp*e + Kv*de/dt + Ki*sum(e*dt), where e is the error after the dead-band threshold, dt is the period passed with the tick if it is positive and the configured period otherwise, the derivative of the first tick after a (re)initialisation is zero, and the accumulator covers exactly the ticks since then. "
  "Parameter sets with a negative gain, threshold or offset or a non-positive period are rejected with an exception, and a rejected set leaves the controller behaving as if the call had never been made. "
  "The absolute-error variant obeys the same law with |de|/dt and the configured period.",
  ["histories", "schedules", "fault_sequences"],
  "every interleaving of ticks (with jittered, repeated, late or missing clock periods), sensor values, gain changes, resets and invalid configurations",
  "tests only construct controllers with valid and invalid parameters; no test runs a tick, so no history is exercised at all",
  ["almath/dsp/pidcontroller.h", "src/dsp/pidcontroller.cpp"],
  [("dead band, derivative and integral update", "src/dsp/pidcontroller.cpp computeFeedback/computeFeedbackAbsolute"),
   ("parameter validation", "src/dsp/pidcontroller.cpp xCheckData, setGains")],
  ["return value of computeFeedback / computeFeedbackAbsolute", "exceptions of the constructor, initialize, setGains"],
  [("error, derivative, integral accumulators", "history of the controller", "PIDController private members")])

p("C02", "Digital filter output is its recurrence over everything since reset",
  "For every history of samples, resets and reconfigurations, each output of the digital filter equals sum(wIn[i]*in[i])+sum(wOut[i]*out[i]), oldest first, over the last samples since the reset (each divided by the DC gain in force when it arrived) and the last outputs, once both windows are full, and equals the raw input while either is not. "
  "After a reset the filter behaves exactly like a freshly configured one, a default-constructed filter passes samples through, a reconfiguration keeps the most recent samples and outputs that fit the new windows, and copies evolve independently. "
  "A configuration call that fails for lack of memory leaves the filter behaving as before the call.",
  ["histories", "fault_sequences", "configurations"],
  "every sequence of configurations (orders 0..n), resets, copies, samples, and allocation failures at any point",
  "two tests run one fixed configuration each on a fixed signal; none resets mid-stream, reconfigures, copies or fails an allocation",
  ["almath/dsp/digitalfilter.h", "src/dsp/digitalfilter.cpp"],
  [("circular buffers of inputs and outputs", "src/dsp/digitalfilter.cpp processFilter"),
   ("configuration", "src/dsp/digitalfilter.cpp configureFilter/resetFilter")],
  ["return value of processFilter"],
  [("input and output windows", "last samples, oldest first", "fFilterBufferIn/fFilterBufferOut")])

p("C03", "A mesh under construction is always a well-formed polylist",
  "Whatever sequence of begin/vertex/normal/texCoord/position/end calls is made, including misuse, calls rejected with an exception leave the mesh exactly as it was, and accepted calls append exactly the documented data and return the index of the appended element. "
  "At every moment each vertex refers to existing positions, normals and texture coordinates, and whenever no polygon is being built the polygon vertex counts sum to the number of vertices (3 per triangle, 4 per quad). "
  "The box and rounded-box factories append to any existing mesh a closed, outward, counter-clockwise surface of the requested extents, with unit normals, without altering what was there.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of builder calls in and out of protocol, with allocation failures at any point, and factory calls interleaved on the same mesh",
  "tests build a handful of fixed meshes in protocol order; misuse is sampled by a few calls and no allocation ever fails",
  ["almath/scenegraph/mesh.h", "src/scenegraph/mesh.cpp", "almath/scenegraph/meshfactory.h", "src/scenegraph/meshfactory.cpp"],
  [("begin/end protocol checks", "src/scenegraph/mesh.cpp begin/vertex/end"),
   ("index range checks", "src/scenegraph/mesh.cpp normal(size_t)/texCoord(size_t)/vertex(size_t)"),
   ("surface generation", "src/scenegraph/meshfactory.cpp")],
  ["Mesh accessors", "exceptions of Mesh members"],
  [("current mode, normal, texture coordinate", "builder cursor", "Mesh private members")])

p("C04", "A scene export contains every added mesh once, exactly and in order",
  "After any history of mesh and shape additions, copies and assignments of scene builders, exporting a builder yields a well-formed COLLADA document in which every mesh added to that builder (and nothing else) appears once, in order, with a unique id, its own geometry, polygon counts, indices and transform matching what was given, bound to the configured material, every internal reference resolving to exactly one element. "
  "Copies are independent of the original and carry its configuration, and a rejected or failed addition (unsupported mesh or shape, lack of memory) leaves the exported document unchanged. "
  "Numeric data survive the text round trip: indices and counts exactly, coordinates to the printed precision.",
  ["histories", "fault_sequences", "inputs"],
  "every history of add/copy/assign/export over several builders with any mesh and any allocation failure point",
  "tests write one fixed scene to a file and compare a few fragments; copies, failures and large meshes are not exercised",
  ["almath/scenegraph/colladabuilder.h", "src/scenegraph/colladabuilder.cpp", "almath/scenegraph/colladascenebuilder.h", "src/scenegraph/colladascenebuilder.cpp", "almath/scenegraph/scenebuilder.h", "src/scenegraph/scenebuilder.cpp"],
  [("unique ids per builder", "src/scenegraph/colladascenebuilder.cpp xAddMesh"),
   ("copy of the document tree", "src/scenegraph/colladascenebuilder.cpp copy constructor/assignment"),
   ("mesh serialisation", "src/scenegraph/colladabuilder.cpp addGeometryMesh")],
  ["text written by operator<<", "ColladaBuilder ptree", "SceneBuilder::getConfig"])

p("C05", "Writing a document either stores all of it or reports the failure",
  "For every way an output stream can misbehave (full disk, I/O error, short writes, failing flush, exceptions from the sink, with or without stream exceptions enabled), writing a COLLADA scene with operator<<, a URDF or an animation document with boost's write_xml, or a URDF tree as a dot graph with UrdfDotPrinterVisitor, either delivers exactly the bytes a healthy stream receives or makes the failure visible to the caller through the stream state or an exception. "
  "The bytes delivered before a failure are always a prefix of the healthy output. "
  "Writing, failed or not, leaves the document in memory unchanged, so that writing it again to a healthy stream gives the complete text.",
  ["fault_sequences", "crash_points", "inputs"],
  "every document, every sink chunking and every failure offset and kind, with and without stream exceptions enabled",
  "tests write to healthy string streams only",
  ["src/scenegraph/urdf.cpp", "src/scenegraph/colladascenebuilder.cpp", "src/scenegraph/colladabuilder.cpp", "src/scenegraph/qianim.cpp", "almath/scenegraph/urdf.h"],
  [("scene writer", "src/scenegraph/colladascenebuilder.cpp operator<<"),
   ("dot graph writer", "src/scenegraph/urdf.cpp UrdfDotPrinterVisitor"),
   ("value to attribute text", "almath/scenegraph/urdf.h customize_stream, Array3dTranslator; src/scenegraph/qianim.cpp put_*")],
  ["bytes in the sink", "stream state", "exceptions"])

p("C06", "URDF loading accepts exactly the valid trees and never breaks on bad input",
  "Loading a URDF document (read_xml, then RobotTree) succeeds exactly when its links and joints have unique names, every joint has an existing parent and child link, mimics refer to existing joints without cycles, and the joints connect all links as one tree with a single root; the order of elements in the file does not matter. "
  "A loaded tree answers every query (root_link, link, joint, is_mimic_tree_flat, depth-first traverse_joints) as an independent reading of the same document does, and so do the element wrappers (Link, Joint, Mimic, Inertial, Visual and its geometry) with the documented defaults for what is absent. "
  "A document that is truncated, corrupted, cut by a read error or loaded while memory runs out is either rejected with an exception or loaded as exactly what an independent reading of the bytes received says, without crash or hang.",
  ["inputs", "fault_sequences", "configurations"],
  "every document (valid or with one or more structural defects), every element order, every truncation, damaged byte, read fault and allocation failure",
  "tests load about fifteen fixed documents, each with one defect in one order",
  ["almath/scenegraph/urdf.h", "src/scenegraph/urdf.cpp"],
  [("index building and checks", "src/scenegraph/urdf.cpp detail::RobotTreeP constructor"),
   ("mimic checks", "src/scenegraph/urdf.cpp RobotTreeP::transitively_mimics, is_mimic_tree_flat")],
  ["exceptions of the RobotTree constructor", "RobotTree query members", "traverse_joints"])

p("C07", "The URDF index matches the document after any edit history",
  "After any history of edits (rm_root_joint, rm_leaf_joint, removeSubTreeIfJoint, define_as_root_link, transport_root_link_frame, makeJointFixed, makeJointFloating, makeContinuousJointsFixed, makeMasslessJointsFixed, squashJointMass, squashFixedJointsMass), successful or rejected, every answer of the RobotTree equals the answer of a fresh load of the document it edits. "
  "An edit rejected because of its arguments, and rm_root_joint or rm_leaf_joint interrupted by lack of memory, leave both the answers and the document as they were, and no edit loses, duplicates or renames elements beyond its documented effect. "
  "Unless a joint that a remaining joint mimics was removed, the document, written and read back, always loads again.",
  ["histories", "fault_sequences"],
  "every sequence of edits on every tree, with invalid arguments and allocation failures at any point",
  "tests apply one edit to one fixed document and look at a few fields",
  ["almath/scenegraph/urdf.h", "src/scenegraph/urdf.cpp"],
  [("incremental index maintenance", "src/scenegraph/urdf.cpp RobotTree::rm_root_joint, rm_leaf_joint, define_as_root_link, transport_root_link_frame")],
  ["RobotTree queries", "the property tree given to RobotTree, written with write_xml"],
  [("link and joint iterators by name, kinematic tree", "index kept next to the ptree", "src/scenegraph/urdf.cpp detail::RobotTreeP members")])

p("C08", "Re-rooting a robot and moving link frames preserves its geometry",
  "For every tree, every joint configuration and every sequence of re-rootings (define_as_root_link) and root frame transports (transport_root_link_frame) with well-formed poses, the relative pose of any two links (up to the documented frame displacement) and the world position of every mass, collision and visual element stay the same, to numerical accuracy, for the same values of the moving joints. "
  "The requested link becomes the root, link and joint sets are preserved, and inertia, axes, limits and velocities keep describing the same physical mechanism. "
  "A re-rooting that cannot be expressed is rejected and changes nothing.",
  ["histories", "inputs", "configurations"],
  "every tree shape, joint types, origins, axes, order of operations and joint values",
  "tests re-root a three-link fixed model and compare strings",
  ["almath/scenegraph/urdf.h", "src/scenegraph/urdf.cpp", "almath/scenegraph/urdfeigen.h"],
  [("kinematic inversion", "src/scenegraph/urdf.cpp RobotTree::define_as_root_link"),
   ("frame transport", "src/scenegraph/urdf.cpp RobotTree::transport_root_link_frame, premul; Pose::inverse, Pose operator*")],
  ["document after the edit", "forward kinematics computed from it"])

p("C09", "Fixing or squashing joints conserves mass, centre of mass and inertia",
  "Whatever joints are converted to fixed (makeJointFixed, makeContinuousJointsFixed, makeMasslessJointsFixed), and in whatever order joints' masses are squashed into their parent link (squashJointMass, squashFixedJointsMass), the total mass of the robot, its centre of mass in the root frame and its inertia tensor about it (at the zero configuration) are conserved to numerical accuracy. "
  "After squashFixedJointsMass no link below a fixed joint has an inertial element, after makeMasslessJointsFixed no moving joint carries a massless link, and links and joints other than the affected ones are untouched. "
  "Massless, missing-inertial and zero-origin links are handled without changing the total, and the returned joint names are those whose type changed. "
  "squashInertial, which does the composition, keeps the same totals over any grouping of bodies, the frame of the result having the axes of the first one.",
  ["histories", "inputs", "configurations"],
  "every tree, every mix of joint types, inertial data including rotated and missing inertial frames, and every order of squashing",
  "tests squash two fixed models whose inertial frames are mostly axis-aligned",
  ["almath/scenegraph/urdf.h", "src/scenegraph/urdf.cpp", "almath/scenegraph/urdfeigen.h", "almath/scenegraph/bodymass.h"],
  [("inertial composition", "src/scenegraph/urdf.cpp squashJointMass / squashFixedJointsMass, almath/scenegraph/bodymass.h"),
   ("joint conversion", "src/scenegraph/urdf.cpp makeJointFixed, makeContinuousJointsFixed, makeMasslessJointsFixed")],
  ["inertial elements of the document", "total mass properties computed from it"])

p("C10", "Building a rigid body system from a URDF calls the builder exactly and in order",
  "For every URDF document and every option set (remove_root_joint, make_continuous_joints_fixed, no_static_frame of the builder's Config), buildRigidBodySystemFromUrdf calls the builder exactly once per link or static frame that the options retain (addLink or addStaticFrame), parents before children in document order, with the mass, centre of mass, inertia, parent body, joint name and type, and static transforms of the document, fixed joints' masses being squashed into the body they are attached to. "
  "Links without mass below a moving joint stop the branch, and joints that cannot be represented (planar, prismatic, axes other than +x, +y and +z) are refused with an exception. "
  "If a builder throws at any call, the exception reaches the caller, no further call is made, and building again with a healthy builder gives the complete system.",
  ["inputs", "fault_sequences", "configurations"],
  "every tree, every option set and every failing call position",
  "tests build two fixed models with a recording builder that never fails",
  ["almath/scenegraph/rigidbodysystembuilder.h", "almath/scenegraph/urdfrigidbodysystemtraverser.h", "src/scenegraph/urdfrigidbodysystemtraverser.cpp", "almath/scenegraph/urdfeigen.h"],
  [("document to builder mapping", "almath/scenegraph/urdfrigidbodysystemtraverser.h and src/scenegraph/urdfrigidbodysystemtraverser.cpp discover")],
  ["sequence of rigidbodysystembuilder::Interface calls"])

p("C11", "Rigid body builder chains stay consistent under any call history",
  "For every history of addLink and addStaticFrame calls and every stacking of the builder layers (NamesChecker, Decorator, Adapter, InertiaEraser), a name-checking builder accepts a call exactly when its parent body is known and its body, joint, frame and transform names are new, each layer passes each accepted call through once with every argument unchanged (except the inertia an InertiaEraser is documented to erase), and the calls that reach the innermost builder form a valid tree. "
  "A rejected call, or a call the inner builder fails, leaves every layer as before, so that retrying it with correct arguments succeeds. "
  "No layer keeps a reference to arguments after a call returns.",
  ["histories", "fault_sequences"],
  "every call sequence with duplicates, unknown parents, failing inner builders and allocation failures, over every stacking of adaptors",
  "tests make a handful of calls on each adaptor alone",
  ["almath/scenegraph/rigidbodysystembuilder.h"],
  [("name bookkeeping", "almath/scenegraph/rigidbodysystembuilder.h NamesChecker"),
   ("forwarding", "almath/scenegraph/rigidbodysystembuilder.h Decorator, Adapter, InertiaEraser")],
  ["calls received by the innermost builder", "exceptions"])

p("C12", "Animation documents stay ordered and consistent under any edit history",
  "For every history of edits to a qianim animation document (require_animation, require_actuatorcurve, require_key, require_tangent/put_tangent, add_labels, add_label, erase_tangent, put_* of values, frames, units), each actuator has exactly one curve, keys of a curve are unique per frame and sorted by frame, labels are kept sorted, lookups return the element last set for that frame or name, and no edit disturbs another element. "
  "An edit rejected for bad arguments leaves the document as it was, and so does an inserting edit (require_*, add_*) interrupted by lack of memory; a put_* interrupted by lack of memory touches nothing but the attribute being set. "
  "The verdict of check_all, check_version and check_cubic_bezier on a document agrees with an independent check of the documented constraints.",
  ["histories", "fault_sequences", "inputs"],
  "every edit sequence, in any frame order, on documents with foreign elements, with invalid arguments and allocation failures",
  "tests insert a few keys in a few fixed orders",
  ["almath/scenegraph/qianim.h", "src/scenegraph/qianim.cpp", "almath/scenegraph/qianim/unit.h"],
  [("sorted insertion", "src/scenegraph/qianim.cpp ActuatorCurve::require_key, Labels::add_label, Key::require_tangent"),
   ("verdicts", "src/scenegraph/qianim.cpp Animation::check_all, almath/scenegraph/qianim.h check_cubic_bezier")],
  ["document tree", "lookup results", "exceptions"])

p("C13", "A saved document reloads exactly after a crash, or not at all",
  "For every URDF or animation document saved to an empty file on storage that may lose or tear unsynced writes and crash at any point, reloading what survived either yields the whole of a document given to save (same structure, same strings, and numbers stored through the library reading back equal) or is rejected with an exception. "
  "Saving and reloading is idempotent: a second save of the reloaded document is byte-identical to the first. "
  "Reloading does not depend on how the bytes are chunked by the reader.",
  ["crash_points", "fault_sequences", "inputs"],
  "every document, every sequence of saves, every crash point, torn write and read chunking",
  "tests round-trip a few fixed documents through healthy string streams",
  ["src/scenegraph/urdf.cpp", "src/scenegraph/qianim.cpp", "almath/scenegraph/qianim.h", "almath/scenegraph/urdf.h"],
  [("read_xml / write_xml with exact number formatting", "urdf.cpp, qianim.cpp")],
  ["bytes on the simulated disk", "documents loaded from it"])

p("C14", "Independent callers never disturb one another, whatever the interleaving",
  "However the executions of several callers, each using its own objects (or sharing objects only for reading), are interleaved, interrupted or abandoned part-way, each caller obtains exactly the results it obtains when running alone. "
  "The library keeps no hidden mutable state that one call can leave behind for another. "
  "Failures injected into one caller stay invisible to the others.",
  ["schedules", "fault_sequences"],
  "every interleaving of callers, switched at any memory access, over all parts of the library, with failures injected into some of them",
  "tests are single threaded and sequential",
  ["src/", "almath/"],
  [("no mutable static data; all state in objects", "whole library")],
  ["results of every caller compared with its solo run"])

p("C15", "Text output of values is faithful and leaves the stream as it found it",
  "Printing any pose, position, rotation, quaternion, transform or velocity with operator<< or toSpaceSeparated writes the documented text for that value whatever the stream's history, and leaves the stream's formatting state as it was. "
  "On a failing stream the failure is visible in the stream state or as an exception, and the bytes delivered are a prefix of the right text. "
  "Values built from vectors of any length take the given components when the length is right and the documented default otherwise (identity for rotations, quaternions and transforms, zero for the others), and toVector gives the same components back.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of values and stream manipulations, every stream failure point, every vector length",
  "tests print fixed values to fresh streams, mostly without comparing text",
  ["almath/tools/almathio.h", "src/tools/almathio.cpp", "almath/types/", "src/types/"],
  [("printers", "src/tools/almathio.cpp operator<< overloads, toSpaceSeparated"),
   ("vector conversions", "src/types/*.cpp constructors from std::vector<float>, toVector")],
  ["bytes written", "stream flags, precision and width", "values and vectors"])

p("C16", "Odometry by integrating velocities follows the model under clock faults",
  "Integrating a transform with velocityExponential (T * exp(dt*v), in place or not), or a Pose2D by composition, over any sequence of clock ticks (jittered, late, duplicated, dropped, backwards) follows the exponential-map model of the velocities and elapsed times actually given, to single-precision accuracy, including tiny rotations and rotations of half a turn and more. "
  "Splitting an interval of constant velocity into any number of ticks gives the same final pose, and a tick with the opposite period undoes the tick. "
  "Transforms stay rigid (orthonormal, determinant one) over arbitrarily long histories when normalised (normalizeTransform, or construction from a vector that is not a transform). "
  "transformLogarithm inverts velocityExponential and conversely for rotations up to its documented limit just below half a turn (and, to a few milliradians, half turns about a coordinate axis), and transformMean gives the pose at the requested fraction of the motion between two transforms, rejecting fractions outside [0, 1] without changing its output.",
  ["schedules", "histories", "inputs"],
  "every tick schedule and velocity profile",
  "tests evaluate a few fixed exponentials and logarithms",
  ["almath/tools/altransformhelpers.h", "src/tools/altransformhelpers.cpp", "almath/types/altransform.h", "src/types/altransform.cpp", "src/tools/almath.cpp"],
  [("velocity exponential / transform logarithm", "src/tools/altransformhelpers.cpp velocityExponential, transformLogarithm, changeRepresentation helpers"),
   ("normalisation", "src/types/altransform.cpp normalizeTransform")],
  ["pose after each tick"])

p("C17", "In-place, aliased and chained pose arithmetic always follows the algebra",
  "For every history of value operations on positions, poses, velocities, rotations, quaternions, transforms and displacements (arithmetic and compound assignment, composition, inversion, differences, frame changes, application to points and velocities, normalisation, norms and distances, comparison with == and isNear, conversion to and from vectors, Eigen types and between representations, means of positions and transforms), every register holds what the documented definition gives for its operands, to single-precision accuracy. "
  "This holds when the same object is passed as several operands or as operand and result (compound assignment to itself, InPlace functions and output parameters). All other objects stay bit-for-bit unchanged, and an operation that throws (division by zero, normalisation of a null value, non-unit or null axis) changes nothing. "
  "Conversions between rotation matrix, quaternion, axis-angle, roll-pitch-yaw, position with angles, displacement and transform describe the same rotation, for any rotation including null, tiny, quarter and half turns.",
  ["histories", "inputs"],
  "every sequence of operations over a register file, including aliasing of source and destination",
  "tests evaluate each operation on a few fixed values with distinct operands",
  ["almath/types/", "src/types/", "src/tools/altransformhelpers.cpp", "src/tools/almath.cpp"],
  [("value types", "src/types/*.cpp"), ("conversions", "src/tools/altransformhelpers.cpp")],
  ["all registers after each step"])

p("C18", "Traversing or pruning a URDF visits each joint once, in tree order",
  "For every tree and every pattern of visitor decisions, traverse_joints visits each joint of the retained part exactly once, parents before children in document order, never below a joint whose discover was declined, and notifies the leaving (finish) of each visited joint in reverse nesting order. "
  "removeSubTreeIfJoint removes exactly the joints and links of the sub-trees selected by the predicate, asks the predicate exactly once about each joint outside the sub-trees already selected and at most once about the others, parents before children, and reports the removed joints' names. "
  "If a callback throws at any point the exception reaches the caller and the tree stays usable and consistent.",
  ["inputs", "fault_sequences", "histories"],
  "every tree, every decision pattern (also stateful ones) and every throwing point",
  "tests traverse two fixed trees with fixed decisions",
  ["almath/scenegraph/urdf.h", "src/scenegraph/urdf.cpp"],
  [("depth-first traversal", "src/scenegraph/urdf.cpp RobotTree::traverse_joints"),
   ("pruning", "src/scenegraph/urdf.cpp removeSubTreeIfJoint")],
  ["sequence of callback invocations", "tree after the call"])

p("C19", "Rewriting file names touches every mesh and texture reference exactly once",
  "urdf::robot::transform_filenames calls the given function exactly once per mesh and texture reference of the document, with the reference's current value, and stores exactly what it returned, whatever else the document contains, in any number of rewriting rounds. "
  "Nothing but the references changes. "
  "If the function throws, the exception reaches the caller and each reference holds either its old value or the value returned for it.",
  ["inputs", "fault_sequences", "histories"],
  "every document layout, callback behaviour and throwing point",
  "one test rewrites one fixed document with a pure function",
  ["almath/scenegraph/urdf.h", "src/scenegraph/urdf.cpp"],
  [("filename rewriting", "src/scenegraph/urdf.cpp robot::transform_filenames")],
  ["document before and after", "callback invocations"])

p("C20", "A robot planning Dubins paths always gets a followable path to its goal",
  "For every pose of the robot and of its goal at least four turning radii apart, getDubinsSolutions returns three checkpoints: the end of a first arc of the given radius, tangent to the robot's present heading; the end of a straight segment leaving that arc; and the goal itself, bit for bit, which a last arc of the same radius, tangent to the segment, reaches. "
  "The first two checkpoints have the heading of the segment (modulo a full turn), also when the segment is short or null. Among the four paths made of an arc, a segment and an arc, the one returned has the shortest segment. "
  "A nearer goal is refused with std::invalid_argument and a lack of memory with std::bad_alloc. Over any history of goal and radius changes, localisation jumps and late or repeated plans, the answer depends on the target and radius only, and a robot that follows its last plan arrives at its goal.",
  ["histories", "inputs", "fault_sequences"], "every target pose and radius, along every history of replanning",
  "tests evaluate three fixed poses with one radius",
  ["almath/tools/aldubinscurve.h", "src/tools/aldubinscurve.cpp"],
  [("tangents and their choice", "src/tools/aldubinscurve.cpp xComputeTangent, xComputeBestTangent, getDubinsSolutions")], ["checkpoints of each plan", "pose of the robot at the end"])

p("C21", "A biped's corrected steps stay within limits and its feet never collide",
  "For every convex foot boxes (given clockwise), limits and history of step commands (late, lost, repeated, reordered) and lack of memory: clipFootWithEllipse leaves a move within the limits unchanged and returns false, and otherwise returns true and brings the move onto the ellipse in the same direction, never changing its rotation. "
  "avoidFootCollision returns true exactly when the foot boxes would overlap after the move; it then changes only the rotation, to one of the same sign and no larger, at which the boxes do not overlap whenever it is not null, and which is within 1/32 of the asked rotation of a colliding one; otherwise the move is unchanged. "
  "areTwoBoxesInCollision answers the same in both orders and agrees with exact geometry (also for one box inside the other), computeBox moves every corner by the pose, intersectionSegment2D returns the crossing point of segments that cross and false for those that do not or are parallel. Their inputs are never changed, and a robot that walks with these corrections reaches its goal with its feet apart.",
  ["histories", "inputs", "fault_sequences"], "every walk, displacement, ellipse and pair of foot boxes",
  "tests evaluate a few moves of one robot's feet",
  ["almath/tools/avoidfootcollision.h", "src/tools/avoidfootcollision.cpp"],
  [("dichotomy and clipping", "src/tools/avoidfootcollision.cpp avoidFootCollision, dichotomie, clipFootWithEllipse"), ("overlap", "src/tools/avoidfootcollision.cpp areTwoBoxesInCollision, xPointsInsideBox, xIntersectionSegment2D")],
  ["returned move", "feet in the world after each step"])

p("C22", "Headings, map cells, saturations, masks and shapes keep their meaning",
  "Over any history of a mapping robot (map recentred, resized, rescaled; ticks and samples lost or repeated; visitors that throw; lack of memory): modulo2PI, in place or not, gives the same direction in ]-PI, PI], so that a heading accumulated by increments keeps the turn actually given. meanAngle and weightedMeanAngle give the direction, in ]-PI, PI], of the weighted mean of the unit vectors whatever the scale of the weights, and throw when that mean vector is null, a weight is not strictly positive or the sizes differ. "
  "clipData brings values, vectors and nested vectors between its limits, changes nothing else and reports whether anything changed. OccupancyMapParams puts its centre at the asked place with the present size and scale, gives the nearest cell of a place (x along columns, y upwards) and the same for a pose, the place of a cell (with the orientation unchanged), so that a cell survives the round trip and a place moves by at most half a cell, and displacements do not depend on the origin. "
  "isAxisMask accepts exactly 1 to 63 and the named masks are the unions they name. Every shape keeps the sizes it was given and calls exactly its own visitor overload once; NotImplementedShape3DVisitor throws its message for what is not overridden.",
  ["histories", "inputs", "fault_sequences"], "every history of the map, heading and observation window",
  "tests evaluate fixed arguments",
  ["almath/tools/almath.h", "src/tools/almath.cpp", "src/types/alaxismask.cpp", "almath/types/occupancymapparams.h", "src/types/occupancymapparams.cpp", "almath/geometrics/shapes3d.h", "src/geometrics/shapes3d.cpp"],
  [("angles and saturation", "src/tools/almath.cpp modulo2PI, weightedMeanAngle, clipData"), ("map cells", "almath/types/occupancymapparams.h getPixelFromOffsetAndScale; src/types/occupancymapparams.cpp"), ("shapes", "src/geometrics/shapes3d.cpp")],
  ["heading after each tick", "cells and places", "visited overloads"])

p("C23", "Poses and times survive messages, recordings and clock faults unchanged",
  "Robots that exchange poses as qi::geometry messages over any network (messages lost, repeated, held back, reordered), with clocks that run, jump or sit anywhere in the 64-bit range, and that restart from a recording in ROS time, keep one consistent picture. "
  "The product, inverse, Eigen matrix, norm, normalisation and angle-axis construction of messages follow the algebra in double precision, whether called directly or by name through the geometry module, without changing their arguments; isNear means a relative difference below the tolerance, whatever the sign of the quaternions or the order. "
  "Going to ALMath transforms and planar poses and back keeps positions exactly (to their single precision) and rotations and headings to single precision, with unit quaternions. "
  "toValidRosTime gives the same nanosecond, clipped to [TIME_MIN, TIME_MAX], never the null time, and keeps order; toQiDuration inverts it; so a restart from a recording finds the same last poses. "
  "Printing a message gives its values in its documented form.",
  ["inputs", "fault_sequences", "histories"], "every pose, duration, message fate and clock fault",
  "the tests of these headers are not even built here; they convert half a dozen values",
  ["almath/scenegraph/qigeometry.h", "almath/scenegraph/almathqigeometry.hpp", "almath/scenegraph/qirostime.h", "geometry_module/src/registration.cpp"],
  [("message algebra", "almath/scenegraph/qigeometry.h"), ("conversions", "almath/scenegraph/almathqigeometry.hpp"), ("times", "almath/scenegraph/qirostime.h"), ("module", "geometry_module/src/registration.cpp")],
  ["poses received, recorded times, text"])

p("C24", "The Python bindings carry values unchanged",
  "Values passed to and from Python through the SWIG bindings keep their meaning: vectors, strings and exceptions cross without loss.",
  ["inputs"], "every value",
  "the bindings are not built by the test suite here",
  ["almath.i", "almath.py"],
  [("typemaps", "almath.i")], ["converted values"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
