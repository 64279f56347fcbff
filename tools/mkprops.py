import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],observe=[],hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
S='src/'
p('P01','Entity and collider stores behave as maps; operations touch only their target',
 'A handle returned by adding an entity, collider or force generator refers to that object, and no other, until it is removed; looking up, updating, linking or removing a handle that was never issued or was already removed is reported (None, Err or false) and changes nothing. Updating, linking or unlinking affects only the objects named in the call plus the entities a collider is or was linked to; all other entities and colliders keep every observable value, apart from being woken when a moved sleeping entity touches them. Removing an entity removes exactly that entity and the colliders linked to it.',
 ['histories','inputs'],'all sequences of API calls and all handles, including stale ones','Unit tests use a couple of fresh handles; they never try stale handles or look at bystanders.',
 [S+'physics_system.rs',S+'entity.rs'],[('add_entity/remove_entity/get_entity/update_entity',S+'physics_system.rs'),('add_collider/remove_collider/get_collider/update_collider/link_collider',S+'physics_system.rs')],observe=['PhysicsSystem::get_entity','PhysicsSystem::get_collider'])
p('P02','Collider links are always mutual and always point at live objects',
 'After every API call, an entity lists a collider exactly when that collider reports being linked to that entity, so a collider is linked to at most one entity. Every collider listed by an entity still exists, and every entity a collider reports being linked to still exists, also after either side has been removed.',
 ['histories'],'all histories of add, remove, update, link and step calls','It is an invariant over histories; tests link and unlink one collider and never remove a linked one.',
 [S+'physics_system.rs'],[('link_collider',S+'physics_system.rs'),('remove_collider, remove_entity',S+'physics_system.rs')],
 state=[('InternalEntity.colliders','handles linked to the entity',S+'entity.rs'),('Internal*Collider.entity','owner of the collider',S+'*_collider.rs')],observe=['Entity::get_colliders','Collider::get_entity'])
p('P03','No sequence of valid API calls panics',
 'From a new system, any sequence of calls on entities, colliders, links and force generators, with any handles (live, stale or foreign to the kind of change) and any source values the constructors accept, returns normally instead of panicking, including removing linked colliders and removing entities that others are resting on. Stepping such a system with a finite time step also returns normally.',
 ['histories','inputs'],'all API histories, all handles, all accepted values','The tests exercise a dozen happy-path histories; a missing handle, a double borrow or a stale neighbour shows only in specific histories.',
 [S+'physics_system.rs',S+'entity.rs'],[('RefCell borrows, Option::unwrap on arena lookups',S+'physics_system.rs'),('wake_up',S+'entity.rs')],observe=['process does not panic'])
p('P04','Total mass is own mass plus the masses of all linked colliders',
 "After every change to an entity, its links or a linked collider, the entity's reported total mass equals its own mass plus the sum of the masses of exactly the colliders currently linked to it. It is infinite as soon as its own mass or any linked collider's mass is infinite.",
 ['histories','inputs'],'all histories, any number of linked colliders in any order, all accepted masses including zero and infinity','Tests link one or two colliders with masses 1 and 2; the sum over an arbitrary set in arbitrary order and after any history is never sampled.',
 [S+'entity.rs',S+'physics_system.rs'],[('recalculate_mass',S+'entity.rs'),('calls of recalculate_mass',S+'physics_system.rs')],observe=['Entity::get_last_total_mass'])
p('P05','Relinking mass moves the centre of mass, never the local frame',
 "When linked masses are finite and sum to more than zero, an entity's reported position becomes the mass-weighted mean of its linked colliders' centres of mass in world space; otherwise it becomes the origin of the entity's local space. Linking, unlinking, removing or updating colliders never moves the world position or rotation of the entity's local coordinate frame, nor the entity's velocities.",
 ['histories','inputs'],'all entity poses, all sets of linked colliders, all accepted masses','One unit test checks one pose with unit masses; the offset bookkeeping involves rotation, order and repeated relinking.',
 [S+'entity.rs',S+'orientation.rs'],[('recalculate_mass',S+'entity.rs'),('Orientation::internal_origin_offset',S+'orientation.rs')],observe=['Entity.position','Entity::get_last_orientation'])
p('P06','Moment of inertia is the sum of the textbook tensors about the centre of mass',
 "An entity's reported moment of inertia in world space is the rotation of the sum, over its linked colliders, of each collider's own tensor moved to the centre of mass by the parallel axis theorem (none for an infinite mass). A solid sphere of mass m and radius r contributes 2/5 m r^2 on the diagonal, a box m/12 times the sums of squares of the two other side lengths, a null collider the tensor it was given, planes and meshes nothing.",
 ['inputs'],'all masses, radii, box sizes, offsets, rotations and numbers of colliders','Tests use spheres of radius one only, where r and r^2 coincide, and never compare a rotated or offset tensor.',
 [S+'sphere_collider.rs',S+'aligned_box_collider.rs',S+'null_collider.rs',S+'orientation.rs',S+'entity.rs'],[('get_moment_of_inertia_tensor',S+'*_collider.rs'),('translate_moment_of_inertia, rotate_moment_of_inertia',S+'orientation.rs')],observe=['Entity::get_last_moment_of_inertia'])
p('P07','Orientations are rigid transforms with consistent local/world conversions',
 'Converting a position or direction to local space and back to world space (or the other way round) returns it, conversions preserve distances and angles, and direction conversions ignore translation while the local origin is where its world position is reported. Applying a movement translates the position by the linear part and composes the rotation by the angular part on the left, leaving the local origin offset alone, and the copy-returning variant equals the in-place one; interpolation gives the start at 0, the end at 1 and a linear path of the position in between.',
 ['inputs'],'all orientations, positions, directions and interpolation times','One test uses one right-angle rotation; rigid-motion laws are identities over all rotations and offsets.',
 [S+'orientation.rs'],[('into_local, into_world, affect_with, lerp',S+'orientation.rs')],observe=['Orientation public API'])
p('P08','Collisions conserve linear and angular momentum',
 'A collision between two entities of finite positive mass (no entity taking part has zero mass) and invertible inertia, friction included, leaves the sum of their linear momenta and the sum of their angular momenta about any point unchanged. An entity of infinite mass keeps its velocities, and entities not taking part in the collision keep theirs.',
 ['inputs','histories'],'all pairs of masses, inertias, velocities, contact points, restitutions and friction coefficients','Tests check two equal spheres head-on; conservation is an algebraic law over all states.',
 [S+'physics_system.rs',S+'entity.rs'],[('calc_collision_impulse, apply_collision_impulse, friction block of step',S+'physics_system.rs'),('apply_impulse',S+'entity.rs')],observe=['entity velocities around a collision'])
p('P09','Restitution law: relative normal velocity is reversed and scaled',
 "When a frictionless collision is handled, the relative velocity of the two contact points along the contact normal afterwards is minus the product of the two colliders' restitution coefficients times what it was before, for any positive masses (at most one infinite), inertias and off-centre contacts, and the record reports that coefficient and the size of the impulse applied. The velocity change of either entity is exactly the one given by a single impulse along the contact normal at the contact point.",
 ['inputs'],'all masses, inertias, contact offsets, velocities and restitution coefficients','Tests cover head-on unit spheres with restitution one or zero.',
 [S+'physics_system.rs',S+'entity.rs'],[('calc_collision_impulse(_denominator)',S+'physics_system.rs'),('get_velocity_at_world_position',S+'entity.rs')],observe=['entity velocities around a collision','collision_records'])
p('P10','Handling a collision never creates kinetic energy',
 'With restitution coefficients between 0 and 1 and friction coefficients between 0 and 1, handling a collision of entities of positive mass and positive semidefinite inertia never increases the total kinetic energy of the two entities (an infinite mass at rest counting as zero). With restitution 1 and no friction the energy is exactly preserved.',
 ['inputs'],'all masses, inertias, contact offsets, velocities and coefficients in range','Tests check only frictionless bounces off a wall; energy gain needs friction with off-centre contacts or unequal masses.',
 [S+'physics_system.rs'],[('calc_collision_impulse and friction block of step',S+'physics_system.rs')],observe=['Entity::get_total_energy before and after step'])
p('P11','Reported contacts are real: on both surfaces, timely, with outward normal',
 'Whenever a sphere is reported to hit a sphere or a plane, the contact time lies within the step, and at that time, with both shapes moved linearly, the reported point is where they touch: on the surface of both spheres (for spheres that already overlap at the start: the point dividing the line between the centres in the ratio of the radii), or the point of the sphere nearest the plane (and on the plane unless the sphere started out embedded). The reported normal has unit length and points from the first entity towards the second (concentric spheres excepted, and up to the engine epsilon for relative movements below a thousandth).',
 ['inputs'],'all radii, centres, plane poses and movements for which a collision is reported','Tests sample a dozen axis-aligned hits; off-centre hits are never checked.',
 [S+'collision.rs',S+'range.rs'],[('collide_sphere_with_sphere, collide_sphere_with_plane',S+'collision.rs'),('quadratic_zeros, linear_overlap',S+'range.rs')],observe=['collision_records'])
p('P12','No tunnelling: spheres that meet a sphere or plane are reported at first contact',
 'If two spheres that start apart, or a sphere and a plane it starts in front of, come into contact while moving linearly over the step, detection reports a collision, and the reported time is the first moment of contact however fast they move. A sphere that starts embedded in a plane is reported as hitting it immediately. Relative movements along the contact direction below the engine epsilon count as standing still.',
 ['inputs'],'all radii, positions and (non-negligible) relative movements','Missed contacts are exactly the cases a sample does not contain.',
 [S+'collision.rs',S+'range.rs'],[('quadratic_zeros, linear_overlap, intersect',S+'range.rs'),('collide_sphere_with_sphere, sphere_plane_overlap_time',S+'collision.rs')],observe=['collision_records'])
p('P13','Collision detection does not depend on the order of the two objects',
 'Detecting a collision between A and B gives the same time and contact point as between B and A, with the opposite normal, for every pair of collider kinds the engine supports (of several exactly simultaneous contacts of two meshes one is chosen); kinds it does not support, and null colliders, never collide. A collider is always placed in the world by the pose of its own entity.',
 ['inputs'],'all collider kinds, shapes and start/end poses','Tests call the geometric kernels directly with one order each; the dispatcher is hardly exercised.',
 [S+'collision.rs'],[('collide',S+'collision.rs')],observe=['collision_records with insertion order swapped'])
p('P14','Collisions are handled earliest first, in time order and bounded in number',
 'In every iteration of a step the collision handled is an earliest one among all pairs of awake-able contacts that are approaching, taken over every unordered pair of distinct entities and every pair of their colliders. The records of a step carry non-decreasing times between 0 and the step length, name two different existing entities and are at most as many as the configured iteration limit.',
 ['histories','inputs'],'all numbers of entities and colliders, all iteration limits, all steps','Tests hold at most two moving entities.',
 [S+'physics_system.rs'],[('pair loop and time bookkeeping of step',S+'physics_system.rs')],observe=['collision_records'])
p('P15','Free motion: every awake entity is integrated exactly once per step',
 'In a step without collisions (and with an iteration limit of at least one) every awake entity ends with its velocity changed by the sum of generator forces over its mass times dt, its angular velocity by the inverse inertia applied to the sum of the torques of those forces about its centre of mass times dt, and its position and rotation advanced by the new velocities times dt. Entities of infinite or zero total mass (up to the engine epsilon) get no force, a sleeping entity does not move, and a step shorter than the engine epsilon changes nothing at all.',
 ['inputs','histories'],'all entities, any number of generators, all states and step lengths','Tests use one entity with unit values, where wrong powers of mass, inertia or dt cancel.',
 [S+'physics_system.rs',S+'orientation.rs'],[('integration loop and advance loop of step',S+'physics_system.rs'),('affect_with',S+'orientation.rs')],observe=['Entity position/rotation/velocities after step'])
p('P16','Sleep and wake rules',
 'An entity falls asleep only after its energy has stayed at or below the threshold, without interruption, for the configured time, and an entity that sleeps through a step has zero velocities after it and does not move until woken. Changing the pose, velocity or mass of an entity through an update wakes it, together with every finite-mass entity it is transitively resting against, while an update that changes nothing wakes nobody. The resting relation is symmetric, so whoever is woken wakes the other, whichever of the two fell asleep first.',
 ['histories'],'all histories of steps and updates, any contact graph','Contact graphs in tests have one wall and at most two balls that never touch each other.',
 [S+'physics_system.rs',S+'entity.rs'],[('sleep loop of step',S+'physics_system.rs'),('wake_up, update_from',S+'entity.rs')],state=[('InternalEntity.neighbors','entities it rests against',S+'entity.rs')],observe=['Entity::was_asleep'])
p('P17','Mesh building keeps indices valid, vertices and edges unique',
 'However many faces are added, each added face increases the face count by one, adds exactly those vertices that are not within epsilon of an existing vertex and exactly those edges that are not already present in either direction. Geometry added earlier is never changed, and every stored face and edge refers to existing vertices, with the edges being exactly the sides of the faces.',
 ['histories','inputs'],'all sequences of face additions with any polygons','One test builds two triangles.',
 [S+'mesh_collider.rs'],[('add_face, add_edge, add_points',S+'mesh_collider.rs')],observe=['MeshCollider::face_count/edge_count/vertex_count','collisions against the mesh'])
p('P18','Invalid values are refused without effect; stored values are normalised',
 'Adding or updating with a negative or NaN mass, a sphere radius at or below the minimum, a (near-)zero plane normal, a box thinner than epsilon in some direction or an incomplete mesh, or updating with another kind of collider, returns an error and leaves every observable value as it was; everything else is accepted. Accepted planes are stored with a unit normal of the same direction and accepted boxes with their corners ordered component-wise.',
 ['inputs','histories'],'all source values including NaN and infinities, for add and for update','Tests check no rejection at all.',
 [S+'entity.rs',S+'null_collider.rs',S+'sphere_collider.rs',S+'plane_collider.rs',S+'aligned_box_collider.rs',S+'mesh_collider.rs',S+'physics_system.rs'],[('is_valid, new_from, update_from',S+'*_collider.rs')],observe=['Result of add_*/update_*','get_collider'])
p('P19','What is stored is what was given',
 'Reading back a just added or updated entity or collider returns the values given, field by field: pose (up to the centre-of-mass shift and the equivalence of rotation vectors), velocities, masses, geometry and the restitution and friction coefficients. Adding ignores any link the source carried, updating keeps the current links and the colliders of an entity, and reading changes nothing.',
 ['inputs','histories'],'all accepted values of all fields of every kind of object','Tests read back two or three fields.',
 [S+'entity.rs',S+'null_collider.rs',S+'sphere_collider.rs',S+'plane_collider.rs',S+'aligned_box_collider.rs',S+'mesh_collider.rs'],[('new_from, make_pub, update_from',S+'*_collider.rs'),('get_collider, add_collider, update_collider',S+'physics_system.rs')],observe=['get_entity','get_collider'])
p('P20','Every call terminates within a bound given by its inputs',
 'A step performs at most the configured number of collision iterations, each looking at every pair of entities once, and waking visits every reachable entity only a bounded number of times even when the resting relation has cycles; all other calls take at most one pass over the stored objects. A step that exhausts its iterations says so in the debug output.',
 ['histories','inputs'],'all contact graphs and all system sizes','Non-termination needs cyclic contact graphs that no test builds.',
 [S+'physics_system.rs',S+'entity.rs'],[('iteration_max loop of step',S+'physics_system.rs'),('completed set of wake_up',S+'entity.rs')],observe=['step and update_entity return'])
p('P21','Gravity accelerates every body equally and spins none',
 "The built-in gravity generator yields, for every entity, a force equal to its acceleration times the entity's total mass, applied at the entity's centre of mass, and changes nothing. So under gravity alone every awake entity of finite mass above the engine epsilon gains exactly acceleration times dt of velocity and no angular velocity per step, whatever its mass, shape or pose.",
 ['inputs'],'all masses, poses, shapes, accelerations and step lengths','Tests use one unit-mass ball.',
 [S+'gravity_generator.rs',S+'physics_system.rs'],[('make_force',S+'gravity_generator.rs'),('integration loop of step',S+'physics_system.rs')],observe=['velocities after step'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
