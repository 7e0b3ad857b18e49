#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=("public API of PhysicsSystem",)):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})
PS, EN, CO, OR = "src/physics_system.rs", "src/entity.rs", "src/collision.rs", "src/orientation.rs"
CL = ["src/null_collider.rs", "src/sphere_collider.rs", "src/plane_collider.rs", "src/mesh_collider.rs", "src/aligned_box_collider.rs"]

prop("C01", "Colliders and entities agree on who owns whom",
     "At every moment a collider is linked to at most one entity, and the colliders an entity lists are exactly the colliders that report that entity as theirs. Linking moves a collider from its previous entity to the new one, unlinking frees it, and removing either side ends the link, whatever calls came before.",
     ["histories"], "every sequence of add/link/relink/unlink/remove/update/step calls on any number of entities and colliders",
     "The tests try one short link/relink/unlink sequence with two entities; the claim is about every order of calls, including removals while linked and re-used slots.",
     [PS, EN] + CL, [("link_collider", PS), ("remove_collider", PS), ("remove_entity", PS)],
     [("InternalEntity.colliders", "handles the entity lists", EN), ("Internal*Collider.entity", "back link of the collider", CL[1])],
     ("get_entity().get_colliders()", "get_collider() + Collider::get_entity"))
prop("C02", "Handles work from add until removal and never again",
     "A handle reads, updates and links the thing it was returned for until that thing is removed; removing an entity removes exactly the colliders linked to it and nothing else. After that every call with the stale handle reports absence or an error and changes nothing, even when the slot has been re-used.",
     ["histories"], "every history of additions and removals, and every use of a live or stale handle after it",
     "Tests remove one entity once; stale handles, slot re-use and removal of things that are asleep, touching or share colliders are not sampled.",
     [PS, EN], [("remove_entity", PS), ("remove_collider", PS), ("generational arenas", PS)],
     [("entities/colliders/unary_force_generators", "generational arenas", PS)])
prop("C03", "Invalid input is refused and changes nothing",
     "Adding or updating with a negative or NaN mass, a sphere radius not above 0.05, a plane normal without length, a box without extent along some axis, a mesh without a face, an unknown handle, or a collider of another kind than the stored one is an error and leaves every observable value as it was. Every other well-formed input is accepted.",
     ["inputs", "histories"], "every argument value of the add/update/link calls, in every state",
     "Tests only pass valid values; refusal has to hold for each field of each kind, for both add and update, and must be atomic.",
     [PS, EN] + CL, [("is_valid", CL[1]), ("new_from/update_from", EN), ("update_collider", PS)])
prop("C04", "What is stored is what is read, and calls touch only their target",
     "After a successful add or update, reading back returns the stored values (rotation up to representation, plane normals at unit length, box corners sorted per axis, the link and the collider list kept), as copies that do not change the system. A call changes only the entity or collider it names plus the mass, center and inertia of the linked entity; updating an entity with exactly what was read changes nothing, not even its sleep.",
     ["inputs", "histories"], "every kind of entity/collider value and every state in which it is written or read",
     "Tests read back a few fields of one collider kind; the claim is per field, per kind and about everything else staying unchanged.",
     [PS, EN] + CL, [("make_pub/update_from", EN), ("get_collider/update_collider", PS)])
prop("C05", "Mass, center, inertia and energy follow from the parts",
     "At any time an entity's total mass is its own mass plus the masses of its linked colliders (infinite if any is infinite); its center of mass is the mass-weighted center of its massive colliders (its local origin if there are none or one is infinite). Its inertia tensor is the sum of the colliders' tensors (solid sphere, solid box, as given for null colliders) moved to that center by the parallel axis theorem and turned with the entity, zero if a collider has infinite mass, and its energy is the kinetic energy of these.",
     ["inputs", "histories"], "every set of linked colliders, placement, rotation and history of edits that led to it",
     "Tests cover one or two colliders, axis-aligned; the aggregation must be right after every edit history and in every pose.",
     [EN, OR] + CL, [("recalculate_mass", EN), ("prep_moment_of_inertia/finalize_moment_of_inertia", OR), ("get_moment_of_inertia_tensor", CL[4])],
     [("total_mass, prepped_moment_of_inertia", "cached aggregate", EN)])
prop("C06", "Editing mass never moves the body",
     "Linking, unlinking, removing or updating colliders and changing an entity's own mass may move its center of mass but never its local frame: every point fixed to the body, and its rotation, stay where they were in the world. Its linear and angular velocity values are left alone.",
     ["histories", "inputs"], "every sequence of collider and mass edits in every pose",
     "One test checks the local origin for one edit of an unrotated and one rotated entity; it has to hold for every edit sequence and pose.",
     [EN, OR, PS], [("recalculate_mass (internal_origin_offset)", EN), ("position_into_world", OR)],
     [("Orientation.internal_origin_offset", "local origin relative to the center of mass", OR)])
prop("C07", "Free bodies follow their velocity and the forces on them",
     "In a step of length dt a body that is awake and hits nothing changes its velocity by (sum of forces)/mass*dt and its angular velocity by (inverse inertia)*(sum of torques about its center of mass)*dt, then moves by velocity*dt and turns about its center of mass by angular velocity*dt in the world frame. Bodies of infinite or zero mass keep their velocities, sleeping bodies do not move, and nothing else about any body changes.",
     ["inputs", "histories"], "every pose, velocity, spin, mass distribution, set of force generators and step length",
     "Tests check gravity on one ball and one spin; off-center forces, several generators, tilted spin axes and compound bodies are not reached.",
     [PS, EN, OR], [("initial integration in step", PS), ("affect_with", OR)])
prop("C08", "Collision records are the true contacts, in order, none missed",
     "Every record of a step names two bodies that are in contact at the record's time (both taken at linear motion within the step), at the recorded position, with the recorded unit normal pointing off the first one into the second, and that approach each other there. Records are ordered by time, and no pair of colliders (sphere with sphere, plane, box or mesh, and mesh with plane) reaches an approaching contact before the next record, or before the end of a step that handled all its collisions, without being recorded.",
     ["inputs", "configurations"], "every pair of shapes, size, placement, pose, relative motion and order of the two, for every feature (face, edge, corner) that can be hit",
     "The collision tests try a handful of axis-aligned hits per function; every face, edge and corner, rotated or displaced frames, both argument orders and simultaneous candidates need a model of contact.",
     [CO, PS, "src/range.rs"], [("collide and its helpers", CO), ("quadratic_zeros/linear_overlap", "src/range.rs"), ("earliest collision search in step", PS)],
     observe=("PhysicsSystem::collision_records",))
prop("C09", "Collisions conserve momentum and rebound by the restitution",
     "A recorded collision changes only its two bodies, by equal and opposite impulses at the recorded position: their total linear and angular momentum stays the same (a body of infinite mass takes any amount without changing its linear velocity). Along the normal the contact points separate at the product of the two restitution coefficients times the speed at which they approached, and the record states that product and the impulse magnitude.",
     ["inputs", "configurations"], "every mass, inertia, pose, spin, contact position and restitution of the two colliders",
     "Tests use equal masses, central hits or one rod; the law must hold for any mass distribution and contact geometry, with other bodies around.",
     [PS, EN], [("calc_collision_impulse", PS), ("apply_impulse", EN), ("get_inverse_moment_of_inertia", EN)])
prop("C10", "Friction opposes sliding within the Coulomb limit, energy never grows",
     "After the normal impulse J, friction acts at the contact against the sliding direction with an impulse of at most the coefficient times J and never more than what stops the sliding. The coefficient is the product of the two static ones if the ratio of remaining normal to sliding speed is below the product of the two friction thresholds, else the product of the dynamic ones; with restitution at most one and no forces, no step increases the total kinetic energy.",
     ["inputs", "configurations"], "every pair of friction and restitution coefficients, masses, spins and sliding velocities",
     "No test checks friction beyond one spinning-ball energy trend; the law is over all masses and directions.",
     [PS], [("friction part of step", PS), ("calc_collision_impulse_denominator", PS)])
prop("C11", "Bodies fall asleep exactly after resting long enough, and then stay put",
     "A body is put to sleep at the end of a step exactly if its kinetic energy was at or below the energy threshold at the end of every step since it last was above it (or was woken), and the lengths of those steps after the first one add up to the sleep time threshold. Until something wakes it, a sleeping body does not move or turn (and its velocities are zero from the end of the next step on).",
     ["histories", "configurations"], "every history of steps, step lengths, thresholds and disturbances",
     "Two tests follow one ball and one pair falling asleep with default thresholds; the timer semantics depend on the whole history.",
     [PS, EN], [("end of step", PS)],
     [("falling_asleep, falling_asleep_time, asleep", "sleep timer", EN)], ("get_entity().was_asleep()",))
prop("C12", "Waking reaches everything resting together, and nothing else",
     "A sleeping body wakes if it is updated with changed values or takes part in a recorded collision (from that moment on), and with it wakes every body connected to it through contacts that bodies were resting in when they went to sleep; infinite-mass bodies do not pass waking on and are woken only by an update. Nothing else wakes a sleeping body, and a woken one needs the full time to fall asleep again; removing a body never breaks later waking of the others.",
     ["histories"], "every contact graph, order of falling asleep, disturbance and removal",
     "One test wakes one pair; chains, shared floors, removals and repeated sleep/wake cycles are histories no unit test samples.",
     [PS, EN], [("wake_up", EN), ("neighbors bookkeeping at the end of step", PS), ("update_from (changed)", EN)],
     [("InternalEntity.neighbors", "contacts held while asleep", EN)])
prop("C13", "Bodies never pass into or through each other",
     "If spheres, planes, non-rotating boxes and non-rotating meshes start without overlap, then after any number of steps no sphere overlaps or has passed through any of them or another sphere (beyond rounding), whatever falls asleep, wakes or exhausts the collision limit of a step meanwhile. The same holds for a non-rotating mesh above a plane.",
     ["histories", "inputs"], "every layout, motion, gravity, number of steps and sequence of pushes and removals",
     "Tests follow one ball on one floor; tunnelling shows up in particular histories (resting on one face while hitting another, sleeping neighbors, many hits per step).",
     [PS, CO, EN], [("step", PS), ("collide", CO)])
prop("C14", "Meshes store each vertex and edge once",
     "After any sequence of added faces a mesh has one face per call, one vertex per distinct point and one edge per distinct pair of consecutive points of a face (either direction, closing edge included), and it collides with exactly these. A face with fewer than three points, or that is not flat or turns the other way at some corner, is refused with a panic and leaves the mesh as it was.",
     ["inputs", "histories"], "every sequence of faces, sharing vertices or edges in any order and direction",
     "One test adds four triangles; polygons, reversed and shared edges, and refusals are not sampled.",
     ["src/mesh_collider.rs", CO], [("add_face/add_points/add_edge", "src/mesh_collider.rs"), ("collide_sphere_with_mesh", CO)],
     observe=("MeshCollider::face_count/edge_count/vertex_count", "collision_records"))
prop("C15", "The outcome depends neither on the frame nor on insertion order",
     "Running the same scene moved and turned as a whole, or with its entities and colliders added in another order, or simply again, gives the same collisions at the same times and the same motion, moved and turned alike (up to rounding, when no two collisions tie). ",
     ["inputs", "configurations"], "every scene, rigid transformation and insertion order",
     "No test compares two runs; the claim quantifies over all frames and orders.",
     [PS, CO, OR], [("pair loop of step", PS), ("collide for both orders", CO), ("into_local/into_world", OR)])
prop("C16", "No call panics and no value becomes NaN",
     "For finite input (masses may be zero or infinite, step lengths non-negative, inertia tensors of massive parts invertible or zero) every sequence of calls completes without panicking, and every position, rotation, velocity and record stays finite; normals and rotations stay of unit length. This includes coincident, touching, nested, massless and doubly infinite pairs, flat meshes, fast rotation and all pairs of shapes.",
     ["inputs", "histories"], "every sequence of API calls with such input, in particular degenerate geometry and mass combinations",
     "Tests only run benign scenes; a panic or NaN needs a particular degenerate input or history.",
     [PS, CO, EN], [("unwrap()s and divisions in step", PS), ("normalize() calls", CO)])
prop("C17", "A step accounts for exactly its time, or stops at its iteration limit",
     "A step moves everything by its full length unless it used up the iteration limit, in which case everything stops together at the time of the last record. There are never more records than the limit; record times lie between 0 and the step length and do not decrease; each step replaces the previous records, and a step shorter than a millionth changes nothing at all.",
     ["inputs", "configurations"], "every step length, iteration limit (including 0) and number of collisions within a step",
     "Tests never reach the limit and never read record times of several collisions in one step.",
     [PS], [("iteration loop of step", PS)])
prop("C18", "Every force generator acts exactly once per movable body and step",
     "In each step every installed generator is asked exactly once for every body of finite positive mass, with the step length and that body's handle, and never for other bodies, for removed bodies or after its own removal. Removing one returns it and leaves the others working; gravity gives every such body the same acceleration whatever its mass.",
     ["histories", "configurations"], "every set of generators and bodies, and every order of adding and removing them",
     "One test adds and removes one generator; call multiplicity is never observed.",
     [PS, "src/gravity_generator.rs"], [("initial integration in step", PS), ("make_force", "src/gravity_generator.rs")],
     observe=("UnaryForceGenerator::make_force calls",))
prop("C19", "World and local coordinates convert consistently",
     "An orientation maps local to world by shifting by the origin offset, rotating and shifting by the position, world to local by the exact inverse, and directions by the rotation alone, keeping lengths. Moving an orientation shifts its position and turns it about that position in the world frame; interpolation starts at the first orientation, ends at the second and takes the short way around in between.",
     ["inputs"], "every position, rotation, offset, movement and interpolation time",
     "One test converts three points with one quarter turn.",
     [OR], [("into_local/into_world", OR), ("affect_with/after_affected", OR), ("lerp", OR)],
     observe=("fluffy_tribble::Orientation",))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        p["statement"] = p["statement"].strip()
        f.write(json.dumps(p) + "\n")
print(len(P))
