prop("V01", "Velocity numbers and lattice vectors are in one-to-one correspondence",
  "In each dimension the numbering maps the non-negative integers one-to-one onto the integer lattice vectors, shell by shell of the maximum norm, following the published tables. A velocity built from its number and one built from its components are the same velocity, and its point-symmetric and axis-symmetric images carry the mirrored components and the number of the mirrored vector.",
  ["inputs"], "all velocity numbers / vectors of dimensions 1, 2, 3 up to a shell bound, all symmetry axes",
  "test_velocity.py draws 100 random numbers below 1000 and only checks that a double symmetry is the identity, which any consistent but wrong numbering satisfies; the components, the vector-to-number direction and the shells are fixed only for the first D2Q9/D3Q27-like velocities of a few stencils.",
  ["pylbm/stencil.py"], [("number from components / components from number", "Velocity._set_num, Velocity._set_coord"), ("symmetric velocity", "Velocity.get_symmetric"), ("permutation enumeration", "permute_in_place")],
  technique="explicit enumeration of all velocity numbers and vectors up to a shell bound against an independent spiral model",
  level_note="Exhaustive up to the stated shells (1D |v|<=4000, 2D |v|<=24, 3D |v|<=3 in quick; larger in thorough); trusts the reference spiral written from the documentation.")

prop("V02", "All views of a multi-scheme stencil describe the same velocities",
  "For any list of elementary velocity sets, the per-scheme velocities, components and numbers, the unique velocity set, the offsets, the number-to-index maps, the extreme velocities and the global velocity array all describe exactly the velocities the user listed, in the user's order. The symmetric map sends each velocity to the position, within its own elementary scheme, of the mirrored velocity (about the origin or an axis), and the symmetry test says whether every velocity of every scheme has its opposite there.",
  ["configurations"], "all tuples of elementary velocity lists (ordered, up to 3 schemes) over a bounded alphabet in dimensions 1-3, all axes",
  "test_stencil.py uses a handful of stencils with consecutive numbers; unordered lists, several schemes sharing part of their velocities and asymmetric sets are not explored.",
  ["pylbm/stencil.py"], [("unique velocities and offsets", "Stencil.__init__"), ("symmetric index map", "Stencil.get_symmetric"), ("halo width source", "Stencil.vmax"), ("symmetry test", "Stencil.is_symmetric")],
  technique="exhaustive enumeration of stencil configurations against a list-based reference model",
  level_note="All ordered velocity lists within the alphabets reported in the evidence; per-scheme lists contain no duplicates.")

prop("V03", "Drawings and printed descriptions show what the objects hold",
  "Whatever the options, what is drawn is the object: every velocity of the stencils asked for at its place with its own number; for every element the region or the faces it occupies, each face with its own label and colour; for a domain, exactly the fluid cells, the solid cells, the links cut by the walls, their ends and the normal vectors there, for the velocities and the labels asked for. Moving a slider of a figure of stability gives the eigenvalues and the verdict of the parameters and of the state displayed, and updating a curve, an image or a cloud of points shows the new values. The printed descriptions of stencils, elements, geometries, domains, schemes, simulations and equivalent equations state the numbers, bounds, labels, matrices and formulas of these objects, in the order of the user.",
  ["configurations", "histories"], "objects x options of their drawing x all moves of two sliders; reports parsed",
  "The tests compare a few pictures of simple cases; labels, reports and figures with sliders are never checked.",
  ["pylbm/stencil.py", "pylbm/domain.py", "pylbm/geometry.py", "pylbm/viewer/matplotlib_viewer.py", "pylbm/analysis/stability.py", "pylbm/templates/scheme.tpl", "pylbm/elements/cylinder.py"],
  [("drawing of the velocities", "Stencil.visualize"), ("drawing of a domain", "Domain.visualize"), ("drawing of a geometry", "Geometry.visualize, Element.visualize"), ("figure of stability", "Stability.visualize"), ("reports", "__str__ methods and templates")],
  technique="exhaustive enumeration of objects, options and histories of updates, the drawing primitives being recorded, against the description",
  level_note="Positions, texts, titles and which face has which colour; not the look. Complete for the listed objects and options.")

prop("E01", "Geometric elements: membership, bounding box and ray crossings agree",
  "For every element shape and orientation, the points reported inside are exactly those of the mathematical shape, and the bounding box contains the shape. The distance returned for a point and a direction is positive and equal to the smallest multiple of the direction at which the ray meets the element's surface (up to the requested maximum), the label is that of the face that was hit, the normal is unit, orthogonal to that face and directed against the ray; rays that do not meet the surface return a negative distance.",
  ["inputs", "configurations"], "all elements of an alphabet of shapes, centres, axes and label lists; all points and directions of a lattice",
  "test_elements.py only compares the bounds of a few elements; membership and distances are only seen through a few saved pictures.",
  ["pylbm/elements/base.py", "pylbm/elements/utils.py", "pylbm/elements/circle.py", "pylbm/elements/ellipse.py", "pylbm/elements/ellipsoid.py", "pylbm/elements/sphere.py", "pylbm/elements/parallelogram.py", "pylbm/elements/triangle.py", "pylbm/elements/cylinder.py"],
  [("closed-form intersections", "distance_lines, distance_ellipse, distance_ellipsoid"), ("membership", "point_inside methods"), ("bounds", "get_bounds methods")],
  technique="exhaustive enumeration of shapes x lattice points x directions against an independent ray/half-space oracle",
  level_note="Exhaustive over the stated alphabet; grazing rays and points within rounding distance of the surface are excluded by an explicit tolerance band; STL elements are not covered (trimesh-like tessellation files are out of the alphabet).")

prop("E02", "A surface read from an STL file is the solid it bounds",
  "For every closed surface described by a file, binary or ASCII, whatever the order of its triangles, of their vertices and the diagonals chosen: the points reported inside are exactly those enclosed by the surface (cavities, holes and separate components included), also when they are aligned with its edges; the bounds are those of the surface; the distance along a direction is the smallest positive multiple at which the ray meets the surface, negative when it does not (up to the requested maximum), never lost between two triangles; the label is the one given, the normal is unit, orthogonal to the face and directed against the ray.",
  ["inputs", "configurations"], "all unions of voxels of a small block and special solids x frames x triangulations x formats; all points of two lattices and all directions",
  "No test reads an STL file.",
  ["pylbm/elements/stl_element.py"], [("membership", "STLElement.point_inside"), ("crossings", "intersection, STLElement.distance")],
  technique="exhaustive enumeration of solids, triangulations, points and directions against a model by occupied voxels",
  level_note="Solids made of affine images of voxels; points and rays within 1e-5 of an edge of the solid are not judged.")

prop("G01", "Fluid/solid map and boundary links match the described geometry",
  "A cell is fluid exactly when the sequence of elements painted over the box, in order, leaves its centre fluid, and cells outside the box are never fluid. For every fluid cell and velocity whose target is not fluid, the recorded distance is the fraction of the velocity at which the first surface (box edge or element) is crossed, lies in (0,1], and the recorded label and outward unit normal are those of that surface; links between fluid cells record nothing.",
  ["configurations", "histories"], "all boxes, label assignments and element lists (ordered, fluid or solid) of bounded alphabets in dimensions 1-3 with stencils up to velocity 2",
  "The domain tests compare about fifteen configurations with saved arrays; overlapping elements, painting order, long velocities near edges and 3D elements are not covered.",
  ["pylbm/domain.py", "pylbm/geometry.py"], [("box edges", "Domain.__add_init"), ("element painting", "Domain.__add_elem"), ("clean-up", "Domain.clean"), ("grid", "Domain.create_coords")],
  technique="exhaustive enumeration of geometries against a brute-force cell and link oracle",
  level_note="Exhaustive within the alphabet of boxes, elements, label lists and stencils reported in the evidence. Links whose segment leaves and re-enters the fluid, or hits within 1e-9 of a corner or edge of a surface, are only checked for membership, not for the distance.")

prop("S01", "The solution does not depend on how moments are listed",
  "Listing the polynomials (with their equilibria and relaxation parameters) or the conserved moments of a scheme in another order describes the same scheme: every conserved moment evolves identically under its own name. The moment matrix and its inverse are exact inverses, and reading a conserved moment by name gives the sum of the distributions weighted by that moment's polynomial.",
  ["configurations"], "all permutations of the moments and of the conserved moment lists of small 1D/2D schemes, single and vectorial, by equilibrium of moments or of distributions",
  "Every demo lists conserved moments first and in increasing order, which is the only order the tests execute.",
  ["pylbm/scheme.py", "pylbm/storage.py"], [("conserved moments first", "Scheme._permute_consm_in_front"), ("name to index", "Scheme._get_conserved_moments"), ("moment matrices", "Scheme._create_moments_matrices")],
  technique="exhaustive enumeration of moment orderings, differential against the canonical order and a reference interpreter",
  level_note="All permutations for the listed schemes (up to 6 moments, 3 conserved); values compared to 1e-10.")

prop("S02", "A time step is stream, relax toward equilibrium, and stream again",
  "On a periodic box one time step moves every distribution along its velocity by exactly that many cells, transforms to moments, relaxes each moment toward its equilibrium by its own relaxation rate, and transforms back, in every cell. Time and step counters advance by one step each time, and n steps give the n-fold composition of this map.",
  ["configurations", "histories"], "a family of schemes (1D-3D, scalar and vectorial, long velocities, any relaxation rates including 0, 1, 2) x all basis or small-alphabet initial states x histories of steps",
  "The demo tests compare eight runs per dimension with stored references produced by the same code, at 1e-7 after hundreds of steps, always with the same few schemes.",
  ["pylbm/simulation.py", "pylbm/algorithm/base.py", "pylbm/algorithm/pull.py", "pylbm/storage.py", "pylbm/scheme.py", "pylbm/generator/codegen.py", "pylbm/generator/ast.py", "pylbm/generator/printing/pycode.py"],
  [("one step", "Simulation.one_time_step, PullAlgorithm.one_time_step_local"), ("halo exchange", "Array.update"), ("moment maps", "BaseAlgorithm.f2m_local / m2f_local / relaxation_local")],
  technique="explicit-state exploration: complete basis of initial states per scheme, every step compared with a reference interpreter",
  level_note="Linear schemes are decided for every real initial state of the grid (a linear map agrees on a basis); nonlinear schemes for all states of a small value alphabet. Tolerance 1e-9.")

prop("S03", "Conserved moments are conserved",
  "With non-relaxed conserved moments, the total of every conserved moment over the fluid cells is unchanged by any number of steps on a periodic box, whatever the equilibria and the other relaxation rates. In a box closed by bounce-back walls and solid obstacles the total mass is unchanged too, and shifting the initial data on a periodic box shifts the solution.",
  ["configurations", "histories"], "schemes x wall/obstacle configurations x complete basis of initial distributions x steps",
  "No test looks at totals; stored references would follow a drift introduced together with them.",
  ["pylbm/simulation.py", "pylbm/algorithm/pull.py", "pylbm/boundary.py", "pylbm/storage.py", "pylbm/domain.py"],
  [("collision", "BaseAlgorithm.relaxation_local"), ("bounce back", "BounceBack"), ("periodicity", "Array.update")],
  technique="explicit enumeration of a basis of states per configuration; invariant on every step",
  level_note="The mass map is linear, so a basis of initial distributions decides it for all states with linear equilibria; nonlinear equilibria on a finite alphabet of states.")

prop("S04", "Relative velocity changes nothing when it must not",
  "A scheme with a constant relative velocity (including zero) whose relaxation rates are all equal gives the same solution as the scheme without it, since relaxation with one rate commutes with the change of frame. With distinct rates, each shifted moment (the polynomials taken at the relative velocity) relaxes toward the shifted equilibrium with its own rate, whether the relative velocity is constant or depends on the conserved moments.",
  ["configurations", "inputs"], "schemes x relative velocities (constant and moment-dependent) x relaxation vectors x basis/alphabet states",
  "Two demos use one relative velocity each and are compared with stored runs only.",
  ["pylbm/scheme.py", "pylbm/algorithm/base.py", "pylbm/algorithm/pull.py"], [("translation matrices", "Scheme._create_moments_matrices"), ("relative velocity steps", "BaseAlgorithm.f2m_local, relative_velocity, restore_conserved_moments")],
  technique="exhaustive enumeration of relative velocity configurations against a reference interpreter",
  level_note="Bounded to the listed schemes, velocities and rates; tolerance 1e-9.")

prop("S05", "Source terms act as two half steps around the relaxation",
  "A source term attached to a conserved moment adds half a time step of its value, taken from the current moments, before the relaxation and again after it, in every cell, with the user's parameters and the current time where they appear.",
  ["configurations", "inputs"], "schemes x source expressions of a grammar (constants, products, parameters, several moments) x orders x algorithm settings x states",
  "One 1D demo and two 2D demos have a source term, compared with stored runs only.",
  ["pylbm/algorithm/base.py", "pylbm/algorithm/ode.py", "pylbm/algorithm/transform.py", "pylbm/scheme.py"], [("source term kernel", "BaseAlgorithm.source_term_local"), ("half step", "euler"), ("name resolution", "parse_expr")],
  technique="exhaustive enumeration of source configurations against a reference interpreter",
  level_note="Bounded grammar of sources; tolerance 1e-9.")

prop("S06", "Backend, storage order and algorithm settings do not change results",
  "The same description gives the same moments and distributions after any number of steps with the NumPy and the Cython code generators, with every storage order of velocities and space directions, with local or stored moments, with split or fused loops, and with the stream-then-collide or the pull algorithm. Solid cells may differ only when asked to be skipped.",
  ["configurations", "histories"], "all storage orders x generators x algorithm settings x schemes with and without boundaries, sources and relative velocity",
  "The demo tests run two generators and three storage orders against a stored run; the settings, the other storage orders and their combinations are never run.",
  ["pylbm/container.py", "pylbm/storage.py", "pylbm/generator/autowrap.py", "pylbm/generator/codegen.py", "pylbm/generator/ast.py", "pylbm/generator/printing/cython.py", "pylbm/generator/printing/pycode.py", "pylbm/algorithm/base.py", "pylbm/boundary.py"],
  [("storage order", "Array, symbolic.set_order / indexed"), ("generators", "CythonCodeGen, NumPyCodeGen"), ("settings", "BaseAlgorithm.one_time_step")],
  technique="exhaustive enumeration of execution configurations, differential against one reference interpreter",
  level_note="All storage orders of dims 1-3 for NumPy; Cython configurations are bounded by compile time (listed in the evidence). The GPU backend is not installed here and is not covered. Tolerance 1e-9.")

prop("S07", "Moments and distributions seen by the user are never stale",
  "After any sequence of steps, reads, explicit transformations and writes of whole fields, reading a moment returns the value given by the current distributions or the last value written to it, and writing one moment never changes the value read for another moment. Reading never changes the state: the rest of the history behaves as if the read had not happened.",
  ["histories"], "all operation sequences up to a depth over {step, read, write moment, write distribution, m2f, f2m, equilibrium}, on both generators",
  "Tests only alternate steps and one final read.",
  ["pylbm/simulation.py", "pylbm/storage.py", "pylbm/container.py"], [("lazy update flag", "Simulation.m / m_halo / F_halo accessors, _update_m"), ("array swap", "Simulation.one_time_step")],
  technique="explicit-state model checking: every operation sequence up to a depth bound on the real object against a two-field reference model",
  level_note="All sequences up to the depth stated in the evidence on a 1D scheme with both generators; writes are whole-field item assignments as documented (in-place edits of returned views are outside the model).")

prop("B01", "Boundary conditions apply their formula on every boundary link",
  "At each step every distribution entering a fluid cell through a labelled surface takes the value given by the method chosen for that label and scheme (bounce-back, anti bounce-back, their interpolated versions at the actual wall distance, or the Neumann copies), computed from the distributions before the boundary update. The result does not depend on the order of labels or cells, and distributions not crossing a labelled surface come from the neighbouring cell or its periodic image.",
  ["configurations", "inputs"], "all methods x label assignments x geometries (edges, obstacles at all distances) x stencils in 1D-3D x basis states",
  "Demos use few methods with axis-aligned walls at distance one half; the interpolated formulas on curved obstacles are compared with stored runs only.",
  ["pylbm/boundary.py", "pylbm/domain.py", "pylbm/storage.py"], [("link lists", "BoundaryVelocity, Boundary.__init__"), ("formulas", "BounceBack, AntiBounceBack, BouzidiBounceBack, BouzidiAntiBounceBack, Neumann*")],
  technique="exhaustive enumeration of boundary configurations x complete basis of states against a per-link reference",
  level_note="The boundary maps are affine in the distributions: a basis of states plus the zero state decides them for all states in each configuration. Tolerance 1e-9.")

prop("B02", "Prescribed boundary values are imposed at the right place and time",
  "A value function attached to a label is evaluated at the points where the links cross the surface and, when declared time dependent, at the current time of each step, with the user's extra arguments. The equilibrium of the prescribed moments then enters the chosen boundary formula only on links of that label.",
  ["configurations", "inputs", "histories"], "label assignments x value functions of space and time x methods x geometries x steps",
  "Two demos prescribe a constant or a profile on one straight edge; nothing checks where and when the function is evaluated.",
  ["pylbm/boundary.py"], [("boundary values", "BoundaryMethod.prepare_rhs, update_feq, set_rhs"), ("crossing coordinates", "prepare_rhs coords")],
  technique="exhaustive enumeration of value functions/labels/methods with recorded evaluations against a per-link reference",
  level_note="Bounded to the listed geometries and functions; tolerance 1e-9.")

prop("I01", "Initial data are placed at the cell centres they describe",
  "Initial functions are evaluated at the centres of the cells, halo included, in the order of the space directions, with the user's extra arguments; constants fill the domain. Initialising by moments yields the equilibrium of these moments and initialising by distributions keeps them as given; the values read before the first step are exactly these, whatever the generator, the storage order or the deferral of the initialisation.",
  ["configurations", "inputs"], "dimensions x boxes x kinds of initial values (constant, function, function with arguments, both initialisation types) x storage orders",
  "Tests only look at the state after hundreds of steps.",
  ["pylbm/simulation.py", "pylbm/domain.py", "pylbm/container.py"], [("initialisation", "Simulation.initialization, _initialize"), ("grid", "Domain.create_coords")],
  technique="exhaustive enumeration of initialisation configurations against a reference grid",
  level_note="Bounded alphabets; tolerance 1e-11.")

prop("P01", "Results do not depend on the number or layout of processes",
  "For every process grid the sub-domains tile the global box without gap or overlap, and the solution of any simulation (periodic or with walls and obstacles) assembled from the processes equals the single-process solution. The halo exchange neither deadlocks nor mixes messages, whatever the grid, including process counts that do not divide the size and processes that are their own neighbours.",
  ["configurations", "schedules"], "all process grids up to 8 processes x domain sizes x geometries x storage orders",
  "All tests run in one process.",
  ["pylbm/mpi_topology.py", "pylbm/storage.py", "pylbm/domain.py", "pylbm/boundary.py"], [("partition", "MpiTopology.get_region*"), ("halo exchange", "Array._set_subarray, Array.update"), ("interface labels", "Domain.__init__")],
  technique="exhaustive enumeration of process grids under real MPI, differential against the single-process execution",
  level_note="All grids with at most 8 ranks for the listed simulations; MPI message timing is whatever the runtime does (matching is determined by source and tag, so it does not affect the result of a correct exchange).")

prop("C01", "Generated code computes the expression the user wrote",
  "For every symbolic expression accepted as equilibrium, relaxation rate, polynomial or parameter, the numerical code executed by each generator returns the mathematical value of the expression at every cell. This includes integer, rational and negative powers, signs and nested products, elementary functions and comparisons, whatever the names and values of the parameters.",
  ["programs", "inputs"], "all expression trees up to a depth over a grammar of operators and leaves, on a value alphabet, per generator",
  "Demos contain a few dozen expressions; operator/precedence/integer-division combinations outside them are never printed.",
  ["pylbm/generator/ast.py", "pylbm/generator/codegen.py", "pylbm/generator/printing/pycode.py", "pylbm/generator/printing/cython.py", "pylbm/symbolic.py"], [("printers", "NumPyPrinter, CythonCodePrinter"), ("substitution", "recursive_sub, alltogether")],
  technique="exhaustive enumeration of expression trees, generated code compared with direct evaluation",
  level_note="Complete up to the tree depth and alphabets reported; tolerance 1e-9 relative.")

prop("N01", "A parameter has the value in force, whichever way it is given",
  "A scheme whose velocity, relaxation rates, equilibria, polynomials, source terms or relative velocity contain symbols behaves exactly as the scheme in which the values are written, whether the values are given in the parameters of the description, there through other parameters, after the construction through extra_parameters, or as keyword arguments of a step or of a phase. A value given at run time is the one used by the following steps: replacing it between two steps is continuing with the scheme of the new value. The name of the parameter is irrelevant.",
  ["configurations", "histories"], "descriptions x all assignments of ways to parameters x all sequences of values over the steps x names",
  "No test gives a parameter after the construction.",
  ["pylbm/simulation.py", "pylbm/algorithm/base.py", "pylbm/symbolic.py", "pylbm/scheme.py"],
  [("arguments of the generated functions", "BaseAlgorithm._get_args, call_function"), ("time step", "Simulation.dt"), ("substitution of the parameters", "BaseAlgorithm.__init__, recursive_sub")],
  technique="exhaustive enumeration of the ways of giving every parameter and of the sequences of values over the steps, against the reference interpreter",
  level_note="Complete for the listed descriptions (2 or 3 parameters besides the scheme velocity; quick ties the way of the velocity to the others when there are 3); names which are arguments of the generated functions are not parameters.")

prop("R01", "Simulations are deterministic and do not interfere with each other",
  "Any number of simulations living in one process evolve exactly as if each were alone, for every interleaving of their construction, steps and reads, on every generator. Building objects never modifies the dictionary supplied by the user, so that the same dictionary can be used again and gives the same results.",
  ["histories", "schedules"], "all interleavings of construction, step and read operations of two or three simulations up to a depth, both generators",
  "Each test builds its simulations one after the other and runs each to its end.",
  ["pylbm/generator/autowrap.py", "pylbm/simulation.py", "pylbm/generator/generator.py", "pylbm/geometry.py", "pylbm/domain.py"], [("generated module identity", "autowrap.CodeWrapper"), ("dictionary handling", "Simulation.__init__, Domain.__init__, Geometry.__init__")],
  technique="explicit exploration of all interleavings of two/three simulations on the real code",
  level_note="All interleavings up to the stated depth; results compared bit for bit with isolated runs.")

prop("R02", "A run can be split, deferred and resumed without changing it",
  "Copying the distributions (halo included) into a fresh simulation of the same description and continuing gives the same fields, as does deferring the initialisation to the first step, reusing previously generated code, or performing each step by its documented sequence of elementary phases. Counters restart from zero in the fresh simulation and do not affect autonomous schemes; when the data depend on time, setting the clock of the fresh simulation to the time of the copy continues the run.",
  ["histories"], "all split points of bounded histories x ways of resuming x descriptions",
  "No test resumes, defers or replays by phases.",
  ["pylbm/simulation.py", "pylbm/generator/autowrap.py", "pylbm/algorithm/base.py"], [("deferred initialisation", "Simulation.one_time_step / _initialize"), ("elementary phases", "Simulation.transport, f2m, relaxation, m2f"), ("code reuse", "autowrap directory option")],
  technique="exhaustive enumeration of split points and resume modes, differential against the uninterrupted run",
  level_note="Bounded to histories of a few steps on the listed descriptions; tolerance 1e-12.")

prop("O01", "HDF5 output reproduces the fields and the grid",
  "A file written at any step contains every field registered, with the values held by the simulation at that moment at every cell in the documented index order, for any dimension and any process grid, and its grid and description file refer to data sets of matching shape. Files of successive steps do not overwrite each other.",
  ["configurations", "histories"], "dimensions x shapes x scalar/vector fields x numbers of processes x save sequences",
  "Not covered by any test.",
  ["pylbm/hdf5.py"], [("grid", "H5File.set_grid"), ("fields", "H5File.add_scalar / add_vector"), ("description", "H5File.save")],
  technique="exhaustive enumeration of output configurations; file read back and compared cell by cell",
  level_note="Bounded shapes and 1-4 processes; XDMF text is checked for shape consistency only.")

prop("A01", "Stability analysis gives the true amplification eigenvalues and verdicts",
  "For a linearised scheme the eigenvalues reported for a wave vector are those of the actual one-step map on that Fourier mode, and the verdicts on stability agree with the spectral radius of these maps. The polynomial root-location tests answer exactly whether all roots lie in the unit disk.",
  ["inputs", "configurations"], "schemes x relaxation and equilibrium parameters x all wave vectors of a periodic grid; all polynomials of bounded degree and coefficients",
  "One demo displays a stability picture; nothing compares it with the scheme's behaviour.",
  ["pylbm/analysis/stability.py"], [("amplification matrix", "Stability.eigenvalues"), ("root location", "is_S / is_svN / is_vN style tests")],
  technique="exhaustive enumeration of polynomials over a coefficient alphabet and of wave vectors on periodic grids against the executed scheme",
  level_note="Complete within the coefficient alphabet and grids reported; verdicts with a root within 1e-6 of the circle are excluded.")

prop("A02", "The equivalent equation is consistent with the scheme's Taylor expansion",
  "The first- and second-order coefficients reported for the equivalent partial differential equations equal the flux and viscosity of the formal expansion of the scheme in the time step at fixed scheme velocity. For scalar linear schemes they therefore agree with the expansion of the amplification factor of slow Fourier modes.",
  ["configurations", "inputs"], "small schemes x relaxation rates x equilibrium coefficients",
  "Not covered by any test beyond construction in notebooks.",
  ["pylbm/analysis/equivalent_equation.py"], [("coefficients", "EquivalentEquation.coeff_order1 / coeff_order2")],
  technique="exhaustive enumeration of schemes/parameters against numerical expansion of the amplification factor",
  level_note="Bounded family; agreement to 1e-6.")

prop("L01", "Command line, messages, progress bars and colours are what a program asked for",
  "Whatever the order and the repetition of the options of pylbm and of those of the program on the command line, each option of pylbm has the last value given, the arguments of the program are left untouched, and the results do not change. Messages are shown if and only if their level is at least the one asked for, with the number of the process; the report of the monitoring is printed if and only if it was asked for. A progress bar shows the fraction of the iterations done, and a colour given by hue, saturation and lightness is the right one.",
  ["inputs", "configurations"], "command lines of bounded length; levels x monitoring x places of the options; lengths and iterations of bars; grid of colours",
  "No test passes options to a program.",
  ["pylbm/options.py", "pylbm/__init__.py", "pylbm/utils.py"], [("options", "options.options"), ("level of the messages", "pylbm/__init__.py"), ("progress bar", "utils.print_progress, utils.pylbm_progress_bar"), ("colours", "utils.hsl_to_rgb")],
  technique="exhaustive enumeration of the command lines, programs and bars of the bounds on the real code against models written from the documentation",
  level_note="Bounded lengths; abbreviations of options are not enumerated.")

prop("Y01", "Description checking accepts exactly well-formed dictionaries",
  "A well-formed description is accepted by the class it is given to, and one in which a required entry is missing, an unknown entry is present, or an entry has a wrong type or shape is refused before anything is computed. The verdict does not depend on the order of entries and checking leaves the description unchanged.",
  ["inputs"], "all single and double mutations of a set of valid descriptions, for each class that validates",
  "Tests only pass valid dictionaries.",
  ["pylbm/validator.py"], [("validation", "validate and the prototypes")],
  technique="exhaustive enumeration of mutations of valid descriptions against a grammar model",
  level_note="All single (quick) and double (thorough) mutations from the stated mutation alphabet.")

prop("M01", "Monitoring accounts every call once and survives errors",
  "When monitoring is on, the report counts each call of each monitored operation exactly once under the operation that called it, for every nesting and repetition, including calls that raise. Monitoring never changes results, and when it is off nothing is recorded.",
  ["histories"], "all call trees (with exceptions) up to a size, all sequences of simulation operations up to a depth",
  "Not covered by any test.",
  ["pylbm/monitoring.py"], [("call tree", "Monitor, Node, monitor decorator")],
  technique="exhaustive enumeration of call trees with exceptions against a reference call-tree model",
  level_note="All trees up to the reported number of calls; times are only checked for non-negativity and nesting.")
