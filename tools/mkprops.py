"""Writes properties.jsonl (the table below is the source of truth)."""
import json, pathlib
V = "src/coordinax/_src/vectors/"
O = "src/coordinax/_src/operators/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})
I, PR, CF, H = ["inputs"], ["inputs", "programs"], ["inputs", "configurations"], ["inputs", "histories"]

p("C01", "Conversions between position types of one dimension keep the point",
  "Converting a position to any other position type of the same dimension yields a position that denotes the same point of space: expanded into Cartesian coordinates by the mathematical definition of each system, source and result agree, azimuths modulo a full turn. Converting to the own type changes nothing, and the units and kind of length-like or angle-like quantity supplied never change which point is denoted.",
  I, "every pair of position types of equal dimension, every component value in the valid range of the source, every unit, every accepted representation of a radius (length, parallax, distance modulus)",
  "Tests check a handful of numeric points per pair, mostly in one octant and in fixed units; branches on sign, units or radius representation and untested pairs are never evaluated.",
  [V+"transform/d1.py", V+"transform/d2.py", V+"transform/d3.py", V+"d3/transform.py", V+"d2/transform.py", V+"d1/transform.py", V+"dn/transform.py"],
  [("represent_as overloads for positions of one dimension", V+"transform/d3.py"), ("generic route through Cartesian", V+"d3/transform.py")],
  ["components of the vector returned by represent_as"])
p("C02", "Conversions between dimensions project or complete the point correctly",
  "Converting a position to a type of lower dimension yields the projection of the same point on the retained axes (or its distance from the origin, for one-dimensional radial types); converting to a type of higher dimension completes it with the coordinates the caller supplied, zero by default, and keeps the coordinates it had.",
  I, "every supported pair of position types of different dimension, all component values in range, all units, with and without the completing coordinates",
  "Tests use one vector per pair with default completions; most pairs are compared with copied outputs in a single octant.",
  [V+"transform/dn.py", V+"d1/transform.py", V+"d2/transform.py", V+"d3/transform.py"],
  [("represent_as overloads across dimensions", V+"d3/transform.py")], ["components of the vector returned by represent_as"])
p("C03", "Lossy dimension changes always warn and lossless ones never do",
  "Every position conversion that discards information (to a lower dimension) emits the irreversible-dimension-change warning on every path that returns a value, and no conversion between types of the same dimension, or to a higher one, emits it.",
  PR, "every pair of position types for which a conversion resolves, every path through its implementation",
  "The existing tests assert the warning for some pairs at one input each; a path or pair without the warning is invisible to them.",
  [V+"exceptions.py", V+"d1/transform.py", V+"d2/transform.py", V+"d3/transform.py", V+"transform/dn.py"],
  [("warnings.warn(IrreversibleDimensionChange)", V+"d3/transform.py")], ["warnings emitted by represent_as"])
p("C04", "Velocity conversions push the velocity forward by the coordinate Jacobian",
  "Converting a velocity at a position to another velocity type gives components equal to the exact derivative of the position conversion at that position applied to the velocity, with every component in the matching unit. The result depends on the position as a point only: passing the position in any representation, or as a plain quantity, changes nothing; each element of a batch is converted at its own batch index, batch shapes broadcast, and shapes that do not broadcast are refused.",
  I, "every ordered pair of velocity types of equal dimension, every position in range, every velocity, every unit, and every admissible way to pass the position",
  "Tests check few numeric triples, mainly with default units and the position already in the source type.",
  [V+"transform/velocities.py", V+"transform/d3.py", V+"base/base_vel.py"],
  [("Jacobian of represent_as contracted with the velocity", V+"transform/velocities.py")], ["components of the vector returned by represent_as"])
p("C05", "Acceleration conversions obey the second-order chain rule",
  "Converting an acceleration at a position and velocity to another acceleration type gives the second time derivative of the converted trajectory: the Jacobian of the position conversion applied to the acceleration plus the time derivative of that Jacobian applied to the velocity, in the matching units.",
  I, "every ordered pair of acceleration types of equal dimension, every position, velocity and acceleration, all units",
  "Tests compare single points, many with the velocity term vanishing.",
  [V+"transform/accelerations.py", V+"base/base_acc.py"],
  [("Jacobian of represent_as contracted with the acceleration", V+"transform/accelerations.py")], ["components of the vector returned by represent_as"])
p("C06", "Vector arithmetic equals arithmetic of the Cartesian components",
  "Adding, subtracting, negating, scaling by and dividing by scalars of positions gives the position whose Cartesian coordinates are the same operation on the operands' Cartesian coordinates, returned in the type of the vector operand (the left one for sums). Positions scaled from either side agree. The operations offered for velocities and accelerations act component by component and keep the type. A result that the type cannot represent (a negative radial position) is an error, never another position.",
  I, "every vector type, every operand type the operation accepts, all component values and units, sums of different types included",
  "Tests sample a few vectors per class and often Cartesian ones only; sums of differing types, negative scalars and non-Cartesian types are barely covered.",
  [V+"base/register_primitives.py", V+"base/base_pos.py", V+"base/base_vel.py", V+"base/base_acc.py", V+"d3/cartesian.py", V+"d3/cylindrical.py", V+"d3/base_spherical.py", V+"d3/spherical.py", V+"d3/lonlatspherical.py", V+"d3/mathspherical.py", V+"d2/cartesian.py", V+"d2/polar.py", V+"d1/cartesian.py", V+"d1/radial.py", V+"dn/cartesian.py", V+"d4/spacetime.py"],
  [("quax registrations for add, sub, neg, mul, div", V+"d3/cartesian.py")], ["result of + - * / and unary -"])
p("C07", "The norm of a vector is its Euclidean length and never depends on the type",
  "The norm of a position equals its distance from the origin, and so is invariant under conversion of the position to another type; the norm of a Cartesian velocity or acceleration is the root of the summed squares of its components, carries the same unit and is never negative.",
  I, "every vector type and every component value in range",
  "Tests check one or two points per class.",
  [V+"base/base_pos.py", V+"base/base_vel.py", V+"base/base_acc.py", V+"d3/cylindrical.py", V+"d3/base_spherical.py", V+"d3/lonlatspherical.py", V+"d2/polar.py", V+"d2/cartesian.py", V+"d3/cartesian.py", V+"dn/cartesian.py", V+"dn/poincare.py", V+"d4/spacetime.py"],
  [("norm methods", V+"base/base_pos.py")], ["value of norm() and abs()"])
p("C08", "Constructed vectors are in range or construction fails",
  "A vector can only be built with radii that are not negative, polar angles between 0 and 180 degrees, latitudes between -90 and 90 degrees and the constraints of spheroidal coordinates; each violation is rejected. Azimuths and longitudes are stored wrapped to one turn without changing the direction they denote, and each component must have the dimension its field declares.",
  I, "every vector type, every component, every value and unit passed to the constructor, scalar or batched",
  "Tests try one bad value per check; boundary values, units other than degrees and components without a test are not covered.",
  [V+"checks.py", V+"converters.py", V+"d1/radial.py", V+"d2/polar.py", V+"d2/spherical.py", V+"d3/spherical.py", V+"d3/mathspherical.py", V+"d3/lonlatspherical.py", V+"d3/cylindrical.py", V+"d3/spheroidal.py"],
  [("__check_init__ and field converters", V+"d3/spherical.py"), ("check_* helpers", V+"checks.py")], ["errors raised by, and fields stored by, the constructor"])
p("C09", "Normalising constructors keep the point and reach the canonical range",
  "Building a spherical-type position from out-of-range components (a negative radius, a polar angle or latitude beyond its range) yields the same point of space with all components moved into their canonical ranges, whichever radius kind is passed.",
  I, "every real radius, polar angle, latitude and azimuth, all units",
  "Tests check isolated examples of each wrap; combinations of several out-of-range components are not covered.",
  [V+"d3/spherical.py", V+"d3/mathspherical.py", V+"d3/lonlatspherical.py"],
  [("from_ constructors that use select/where", V+"d3/spherical.py")], ["fields of the constructed vector"])
p("C10", "Vectors times or over time map every component to its integral or derivative",
  "Multiplying a velocity by a time gives the matching position type, an acceleration by a time the matching velocity type and an acceleration by a squared time the matching position type. Every component of the product equals the corresponding component times the time and never another component, azimuths up to a full turn; products outside the range of the position type are rejected. Where time may be either operand the order does not matter. A velocity whose components are not the derivatives of position components, or whose position needs further attributes, is refused.",
  I, "every velocity and acceleration type, every component, all times and units",
  "Tests cover a few classes with one number; equal-dimension components swapped with each other can stay unseen when the values coincide.",
  [V+"base/base_vel.py", V+"base/base_acc.py", V+"d3/cartesian.py", V+"base/register_primitives.py"],
  [("mul_p registrations for time quantities", V+"base/base_vel.py")], ["components of the product"])
p("C11", "Unit conversion changes units only",
  "Converting a vector to other units, by unit system, by mapping from dimension to unit, or by the consistent-units option, leaves every component's physical value and the vector type unchanged and gives each component exactly the unit asked for it (a component whose unit cannot be converted to it is refused).",
  CF, "every vector type, every unit system or mapping, every component value",
  "Tests convert two or three classes to one unit system.",
  [V+"base/compat.py", V+"base/base.py", V+"d4/spacetime.py", V+"space/compat.py", V+"dn/base.py"],
  [("uconvert overloads for vectors", V+"base/compat.py")], ["result of uconvert"])
p("C12", "Array operations act on all components alike and keep type and attributes",
  "Indexing, reshaping, flattening, raveling, transposing, device moves and, for the classes with an array interface, broadcasting and dtype changes return a vector of the same type in which each component is that operation applied to the same component of the input, and attributes that are not components are carried over unchanged. Shape, dimension count, size and length describe the broadcast of the components' shapes; operations that shape does not admit are refused.",
  PR, "every vector type (space-time, N-dimensional, spaces and those with attributes included), every operation, every batch shape",
  "Tests exercise a few classes with small shapes; a component left out or attribute dropped only shows for the class and operation tried.",
  [V+"base/base.py", V+"base/register_primitives.py", V+"dn/base.py", V+"d4/spacetime.py", V+"space/core.py", V+"utils.py"],
  [("per-component rebuild through dataclass replace", V+"base/base.py")], ["result and attributes of array methods"])
p("C13", "Vectors, operators and frames are immutable and operations have no side effects",
  "No public operation changes its operands: components of vectors, spaces, operators and reference frames cannot be assigned or replaced in place after construction, item assignment is refused, and every operation returns new objects.",
  PR, "every class that represents coordinates, operators, frames; every operation and every path in it",
  "Tests assert refusal for an item assignment or two; aliasing or mutation inside an operation is observable only for particular histories.",
  [V+"base/base.py", V+"space/core.py", O+"base.py", "src/coordinax/_src/frames/base.py"],
  [("frozen equinox modules", V+"base/base.py"), ("__setitem__ refusal", V+"base/base.py")], ["state of operands after any call"])
p("C14", "Vectors and quantity arrays convert back and forth without permuting components",
  "Converting a vector to a quantity array stacks its Cartesian components in the declared order on the last axis, and building a Cartesian vector from such an array reads them in the same order, so each direction inverts the other for all values; for space-time vectors the first entry is the speed of light times the time, and an array without one entry per component is not read as a vector.",
  I, "every vector type that converts to or from a quantity array, all component values, all units, all batch shapes",
  "Tests use small arrays such as [1, 2, 3] for some classes; others are not tried in both directions.",
  [V+"compat.py", V+"base/compat.py", V+"base/base.py", V+"d1/cartesian.py", V+"d2/cartesian.py", V+"d3/cartesian.py", V+"d4/spacetime.py", V+"dn/cartesian.py", V+"dn/poincare.py", V+"d3/constructor.py"],
  [("conversion methods to quantities and from_ constructors", V+"base/compat.py")], ["result of convert and from_"])
p("C15", "Applying an operator and then its inverse is the identity",
  "For every operator, applying the operator and then its inverse (or the inverse and then the operator) returns the original time and position for all inputs, and the inverse of the inverse acts like the operator.",
  I, "every operator type, all parameters, all positions and times",
  "Tests check an operator with one parameter set on one point, rotations about one axis.",
  [O+"base.py", O+"identity.py", O+"boost.py", O+"pipe.py", O+"galilean/boost.py", O+"galilean/rotation.py", O+"galilean/spatial_translation.py", O+"galilean/translation.py", O+"galilean/composite.py"],
  [("inverse properties", O+"galilean/translation.py")], ["result of op.inverse(op(x))"])
p("C16", "An operator acts the same through every call signature and input type",
  "An operator gives the same physical result whether the position is passed as a vector of any type, as a quantity array, as separate time and position, or as a space-time vector; the time it returns is the input time changed exactly as that operator defines, and operators not depending on time agree with and without it.",
  I, "every operator type, every supported signature, all parameters, times, positions",
  "Each signature is tested with its own example; agreement among them for all inputs is not tested.",
  [O+"base.py", O+"compat.py", O+"identity.py", O+"galilean/boost.py", O+"galilean/rotation.py", O+"galilean/spatial_translation.py", O+"galilean/translation.py"],
  [("__call__ overloads", O+"base.py"), ("space-time vector overload", O+"compat.py")], ["returned time and position"])
p("C17", "Composition applies operators in order and inverts in reverse order",
  "A pipeline, however built, applies its operators left to right; joining operators and pipelines keeps the order of all of them; its inverse applies the inverses in the opposite order. A Galilean operator equals the sequence rotation, translation, boost that it exposes as its operators.",
  PR, "all operator sequences and parameters, all inputs",
  "Tests compose two or three commuting operators, where order does not show.",
  [O+"pipe.py", O+"base.py", O+"composite.py", O+"galilean/composite.py"],
  [("sequential application loop", O+"composite.py"), ("inverse of a pipe", O+"pipe.py")], ["result of calling the composite"])
p("C18", "Simplifying an operator never changes what it does",
  "The simplified form of any operator or pipeline gives the same time and position as the original for every input; a simplification to the identity only happens if the operator acts as the identity up to the stated tolerance.",
  PR, "all operators, pipelines and parameter values, all inputs",
  "Tests simplify some operators and compare types, rarely actions, and mostly commuting operands.",
  [O+"register_simplify.py", O+"base.py", O+"pipe.py", O+"boost.py"],
  [("pairwise and unary simplification rules", O+"register_simplify.py")], ["action of simplify_op(op) compared with op"])
p("C19", "Frame transformations are mutually inverse, consistent and refuse the null frame",
  "The transformation between two reference frames is the inverse of the one in the opposite direction and from a frame to itself is the identity; a transformation from or to the absent frame is always an error. The transformation to Galactocentric coordinates places the Sun and Galactic centre according to the frame's own parameters, and a parameter that is not given has its documented value.",
  CF, "all pairs of registered frames, all frame parameters, all positions and velocities",
  "Tests use the default frame parameters and compare a few positions numerically.",
  ["src/coordinax/_coordinax_space_frames/frame_transforms.py", "src/coordinax/_src/frames/base.py", "src/coordinax/_src/frames/xfm.py", "src/coordinax/_coordinax_space_frames/galactocentric.py"],
  [("frame_transform_op overloads", "src/coordinax/_coordinax_space_frames/frame_transforms.py")], ["operator returned by the frame transformation"])
p("C20", "Distance, parallax and distance modulus denote one distance consistently",
  "Converting among distance, parallax and distance modulus follows the astronomical definitions (one astronomical unit over the tangent of the parallax; five times the log of the distance in parsec minus five), and the conversions in opposite directions are mutually inverse for all values and units, batched ones included. A constructor of one kind that accepts a value of another kind, or a plain quantity of its dimension, converts it by the same definitions; conversions to and from plain quantities keep value and unit.",
  I, "all positive values, all units, every conversion direction and constructor",
  "Tests check a few values.",
  ["src/coordinax/_src/distances/core.py", "src/coordinax/_src/distances/compat.py", "src/coordinax/_src/distances/register_primitives.py"],
  [("from_ constructors and properties", "src/coordinax/_src/distances/core.py")], ["values returned by the conversions"])
p("C21", "Angles and distances check dimension and sign and compute correct results",
  "An angle can only be built with angular units, a distance with length units, a parallax with angular units and a distance modulus with magnitudes; a parallax with a negative value, anywhere in the array, is rejected unless its check is turned off, and nothing else is. Powers, roots, dot products and trigonometric functions registered for these classes, and sums, differences, products and ratios with plain quantities, give the mathematically correct value and dimension, and keep the class only when the result still is such a quantity.",
  I, "all values, units and operations registered for the classes",
  "Each operation is tested at one value; the class of the result for other units or operands is not.",
  ["src/coordinax/_src/angles/core.py", "src/coordinax/_src/angles/base.py", "src/coordinax/_src/angles/register_primitives.py", "src/coordinax/_src/angles/compat.py", "src/coordinax/_src/distances/core.py", "src/coordinax/_src/distances/base.py", "src/coordinax/_src/distances/register_primitives.py", "src/coordinax/_src/distances/compat.py"],
  [("__check_init__ and quax registrations", "src/coordinax/_src/distances/core.py")], ["constructor errors; type and value of results"])
p("C22", "Conversion to and from astropy keeps every component and round-trips",
  "Converting a vector to its astropy counterpart and back gives the same vector type with the same component values, each component going to the astropy component with the same meaning, a radius held as a parallax or distance modulus to the distance it denotes; this holds for every registered pair in either direction, and for quantities, distances and reference frames. A position class built from any astropy representation is the same point.",
  I, "every registered pair of types, all component values",
  "Each conversion is tested with one vector; confusions between components of one dimension can remain unseen.",
  ["src/coordinax/_interop/coordinax_interop_astropy/converters.py", "src/coordinax/_interop/coordinax_interop_astropy/constructors.py", "src/coordinax/_interop/coordinax_interop_astropy/distance.py", "src/coordinax/_coordinax_space_frames/_interop/interop_astropy/frames.py"],
  [("conversion methods and from_ constructors", "src/coordinax/_interop/coordinax_interop_astropy/converters.py")], ["fields of the converted object"])
p("C23", "Every documented conversion and operation resolves to exactly one implementation",
  "For every pair of public position types of one dimension, every pair of velocity types and of acceleration types, and every public vector type with its supported operations, dispatch finds exactly one most specific implementation, never none and never an ambiguous set, and that implementation terminates without dispatching to itself. A two-sphere and a plane, which have no conversion, are refused with NotImplementedError. No dispatched function, primitive or constructor has two implementations that both apply to the same argument types with neither more specific.",
  PR, "all argument-type combinations of the public classes",
  "Tests call the combinations they list; an ambiguity or infinite re-dispatch for another combination is raised only when a user calls it.",
  [V+"transform/d3.py", V+"d3/transform.py", V+"d2/transform.py", V+"d1/transform.py", V+"transform/dn.py", V+"transform/velocities.py", V+"transform/accelerations.py", O+"base.py"],
  [("multiple-dispatch registrations", V+"d3/transform.py")], ["errors raised by dispatch"])
p("C24", "Position, velocity and acceleration classes are linked one to one",
  "For every concrete type, the derivative type of its integral type, and the integral type of its derivative type, is the type itself; linked types have the same dimension and the same number of components in corresponding order, each component's dimension being that of its integral divided by time; Cartesian counterparts of linked types are linked too.",
  ["programs", "configurations"], "all concrete position, velocity and acceleration types",
  "Tests check the links for listed classes individually, not dimensions and order of components.",
  [V+"base/base_pos.py", V+"base/base_vel.py", V+"base/base_acc.py", V+"d3/spherical.py", V+"d3/spheroidal.py", V+"d2/polar.py", V+"d1/radial.py"],
  [("class-level link properties", V+"base/base_vel.py")], ["class attributes"])
p("C25", "A space converts and transforms its members consistently",
  "Converting a space of position, velocity and acceleration to another type converts each member at the position (and velocity) held in the space to that type's own derivative type; dictionary views, indexing, negation, shape operations and unit conversion apply to every member and keep the keys; a position and velocity are converted to a Poincare polar vector of the same motion; members whose batch shapes do not broadcast, and two members for one dimension, are rejected.",
  PR, "all spaces of compatible members, all target types",
  "Tests hold one space.",
  [V+"space/core.py", V+"space/compat.py", V+"transform/space.py"],
  [("represent_as for spaces", V+"transform/space.py"), ("space class", V+"space/core.py")], ["members of the returned space"])
p("C26", "Space-time vectors have the Minkowski norm and act component-wise",
  "The squared norm of a space-time vector is the square of the speed of light times time minus the squared spatial norm, whatever units or spatial type are used; sums, differences and negation act on time and position separately and keep the speed of light.",
  I, "all times, positions of any type, speeds of light in any unit",
  "Tests check one vector.",
  [V+"d4/spacetime.py", V+"d4/base.py"],
  [("norm2, norm and primitives", V+"d4/spacetime.py")], ["norm2(), norm() and arithmetic"])
p("C27", "Equality of vectors compares every component and the type",
  "Comparing two vectors of one type is true exactly where all their components and attributes are equal, whatever units they are stored in and per vector of a batch; velocities and accelerations of different types never compare equal, nor does a vector equal one of another kind; a position compared with one of another type of its dimension is compared after converting that one to its type. Comparison drops no component.",
  I, "all vector types and all component values, units included",
  "Tests compare a vector with itself or a scalar change in one component.",
  [V+"base/base.py", V+"base/base_pos.py", V+"base/base_vel.py", V+"d3/cartesian.py"],
  [("__eq__ and the eq primitive", V+"base/base.py"), ("__eq__ of positions", V+"base/base_pos.py")], ["value of =="])
p("C30", "An operator is built with exactly the parameters it is given",
  "Constructing an operator, directly or by from_, from a vector, a quantity array, an array with a unit, a mapping, a rotation, Euler angles or other operators gives an operator of that class holding exactly that parameter, in its units and order; a parameter not given is that of the identity; from_ of an operator of the same class returns it and of another class is refused.",
  I, "every operator class, every supported input form, all parameter values and units",
  "Each form of input is tested with one value, often one symmetric in its components.",
  [O+"base.py", O+"pipe.py", O+"boost.py", O+"galilean/boost.py", O+"galilean/rotation.py", O+"galilean/spatial_translation.py", O+"galilean/translation.py", O+"galilean/composite.py"],
  [("from_ constructors", O+"base.py"), ("field converters", O+"galilean/composite.py")], ["parameters and action of the constructed operator"])
p("C31", "No operation needs the concrete value of a component while traced",
  "Building, converting, comparing, combining, indexing and transforming vectors, and building, applying, inverting and joining operators, never branch in Python on, or turn into a Python or host number, the value of a component, parameter, time or delta-time: every such call can be traced with those values abstract, as under jit, vmap and grad. (simplify_op and the construction of a transformation between frames, which read values by design, are exempt.)",
  ["inputs", "programs"], "all vector types, operators and frames, all component values and batch shapes, under any nesting of transformations",
  "Tests call most operations eagerly, where a Python branch on a value goes unnoticed.",
  [V+"base/base.py", V+"base/base_pos.py", V+"checks.py", V+"transform/velocities.py", O+"boost.py", O+"galilean/boost.py", "src/coordinax/_src/distances/core.py"],
  [("domain checks", V+"checks.py"), ("operator application", O+"galilean/boost.py"), ("distance constructors", "src/coordinax/_src/distances/core.py")], ["whether a traced call completes"])
p("C32", "A vector describes its own components truthfully",
  "For every vector, components names exactly its component fields in order; units, dtypes, devices, shapes and sizes give each component its own unit, dtype, device, shape and size (for the spatial part of a space-time vector and for the members of a space, those of their components in turn); asdict gives every field with its unchanged value in order, in the mapping type asked for; the printed form names the class and lists the components in order with their own units and their values in those units. A space's dataclass view (fields, keys, values, items, replace) shows and replaces exactly its members.",
  I, "all vector classes, all component values, units and batch shapes", "Tests print or list a few vectors whose components share one unit and dtype.",
  [V+"base/base.py", V+"base/compat.py", V+"space/core.py", V+"space/compat.py", V+"d4/spacetime.py"],
  [("attributes", V+"base/base.py"), ("space attributes", V+"space/core.py"), ("dataclass view", V+"space/compat.py"), ("space-time attributes", V+"d4/spacetime.py")], ["mappings and strings returned"])
p("C28", "Results are accurate to working precision for extreme inputs",
  "For inputs close to the poles, the origin, or of very large or small magnitude, conversions stay accurate to a small multiple of the working precision and never return a spurious NaN.",
  I, "all floating-point inputs", "Tests use well-scaled inputs.",
  [V+"transform/d3.py", V+"transform/d2.py"], [("conversion formulas", V+"transform/d3.py")])
p("C29", "Compiled, vectorised and differentiated calls agree with eager ones",
  "Calling any function of the package inside compilation, vectorisation or automatic differentiation gives what the eager call gives, and errors that the eager call raises are also raised there.",
  ["inputs", "programs"], "all public functions, all transformations and their nestings", "Tests wrap a few functions in jit or vmap.",
  [V+"transform/velocities.py", O+"boost.py"], [("filter_jit wrappers", V+"transform/velocities.py")])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
import os
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    for f in x["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
print(len(P))
