"""the properties and the claims made for them; tools/mkmanifest.py turns this into properties.jsonl and MANIFEST.json"""
SETUP = "mkdir -p evidence out && python3-vt -c 'import z3'"
NOTES = "Contract-based deductive verification of the real C++ of /repo: own VC generator over clang's IR of the sources, see DESIGN.md."
TECH = 'contracts on the real code, VCs generated from its clang IR function by function, discharged by identity testing over GF(2^61-1) and z3'
ENUM = 'Real arithmetic. Template parameters (dimension, row size, equation set) are enumerated; every other input is quantified without bound.'
SZ = 'row sizes 2-3 in the quick check, up to 8 (fewer in 3D) in the thorough one'
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, note=ENUM, tech=TECH, level='proof', na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), technique=tech, level=level, level_note=note))
    if na:
        PROPS[-1]['na'] = na


prop('P01', 'Interface fluxes are conservative',
     "For every pair of elements sharing a face, in every orientation two right-handed elements can legally meet, and for every equation set, the numerical flux the solver hands to one element equals, point by matching point, the negative of what it hands to the other, so nothing is created or lost at an interface. The same holds for the reconciled viscous flux, and both elements receive the same shared interface state for their gradient computation. Nothing but the interface data is modified.",
     ['inputs', 'configurations'], "all face states with positive density and energy, all face normals, all legal orientations, Cartesian and deformed faces, Euler / Navier-Stokes / advection / smoothing / admissibility equation sets, 1-3 dimensions; " + SZ,
     "The tests sample a few orientations and one state per kernel; conservation must hold for all real-valued states, normals and all 3D orientations.",
     ["include/Spatial.hpp", "include/pde.hpp", "include/connection.hpp", "include/Face_permutation.hpp", "include/Kernel_connection.hpp"],
     [("Neighbor kernel", "include/Spatial.hpp Spatial::Neighbor"), ("Neighbor_reconcile kernel", "include/Spatial.hpp Spatial::Neighbor_reconcile"), ("face permutation", "include/Spatial.hpp Spatial::Face_permutation")])
prop('P02', 'Interface fluxes are the consistent upwinded physical flux',
     "At every point of every interface the numerical flux is the average of the two physical fluxes through the face's area vector plus half the larger of the two signal speeds times the area times the jump of the state, for compressible gas and for the advection equation alike, so that equal states give exactly the physical flux. The interface state given to the gradient computation is the average of the two sides.",
     ['inputs', 'configurations'], "all admissible face states, normals, legal orientations and equation sets, 1-3 dimensions; " + SZ,
     "Tests compare a handful of states; a wrong dissipation term or a wrong wave speed still converges for them.",
     ["include/pde.hpp", "include/Spatial.hpp"], [("equation fluxes", "include/pde.hpp Navier_stokes, Advection"), ("numerical flux", "include/Spatial.hpp Spatial::Neighbor")])
prop('P03', 'The inviscid element update is the stated scheme',
     "For every element, state, interface flux and set of operators, the inviscid update of each conserved variable at each point is the time step (scaled by the local time step and divided by the Jacobian determinant) times minus the discrete divergence of the flux, face corrections included, in both stages of the two-stage scheme, with the optional filter applied to the whole of it in every coordinate direction. In residual mode the state is left alone and the time rate is returned instead. The faces receive the extrapolated updated state, and nothing else of the element changes.",
     ['inputs', 'configurations'], "all states with positive density and energy, operators, Jacobians, face fluxes, time steps and stage flags, Cartesian and deformed elements, 1-3 dimensions; " + SZ,
     "A test compares one analytic state with a tolerance set by discretisation error; the identity must hold for all data and on each of the flags' combinations.",
     ["include/Spatial.hpp", "include/pde.hpp", "include/Derivative.hpp"], [("Local kernel", "include/Spatial.hpp Spatial::Local"), ("flux divergence", "include/Derivative.hpp")])
prop('P04', 'The element update conserves mass, momentum and energy',
     "With operators that integrate constants and polynomials by parts exactly, the quadrature-weighted total of every conserved variable in an element changes by exactly the net flux through its faces, for the inviscid and the viscous update, for the cached rate used by the second stage and for the flux correction applied afterwards.",
     ['inputs', 'configurations'], "all states, interface fluxes, time steps, Cartesian and deformed elements, all basis operators satisfying the two identities (whatever their nodes), 1-3 dimensions, row sizes 2-3 (2 in 3D) quick, more in thorough",
     "Global conservation tests only see one mesh and state and cannot tell a small systematic loss from discretisation error.",
     ["include/Spatial.hpp", "include/Derivative.hpp"], [("Local kernel", "include/Spatial.hpp Spatial::Local"), ("Reconcile_ldg_flux kernel", "include/Spatial.hpp Spatial::Reconcile_ldg_flux")])
prop('P05', 'Uniform flow is preserved exactly',
     "A uniform flow with matching interface data is a steady state of the scheme on every Cartesian or affinely deformed element: the update leaves it unchanged, the residual is zero, the viscous fluxes vanish and the faces receive the same uniform state, whatever the velocity, the operators and the filter flag.",
     ['inputs', 'configurations'], "all uniform states with positive density and energy, all affine element shapes, all consistent operators, 1-3 dimensions, row sizes 2-3 (2 in 3D) quick, more in thorough",
     "Tests try one uniform state to a tolerance; free-stream preservation is an algebraic identity in the metric and the state.",
     ["include/Spatial.hpp", "include/pde.hpp"], [("Local kernel", "include/Spatial.hpp Spatial::Local")])
prop('P06', 'The viscous update and its flux correction are the stated scheme',
     "For every element and state the viscous update adds the divergence of the Newtonian stress, heat conduction and artificial viscosity fluxes built from the corrected gradient, with Sutherland or constant viscosity and conductivity, to the same convective terms as the inviscid update; the viscous face fluxes handed on are those of the same gradient extrapolated to the faces. The later correction changes the state by exactly the lifted difference between the shared and the element's own face flux. No other data changes.",
     ['inputs', 'configurations'], "all admissible states, gradients, transport coefficients, Jacobians, face data, Cartesian and deformed elements, 1-3 dimensions; " + SZ,
     "Tests use convergence against one manufactured state; sign or cross-term errors in the stress tensor are small for it.",
     ["include/Spatial.hpp", "include/pde.hpp", "include/Transport_model.hpp"], [("viscous Local kernel", "include/Spatial.hpp Spatial::Local"), ("viscous flux", "include/pde.hpp Navier_stokes::Pde::flux_visc"), ("Reconcile_ldg_flux", "include/Spatial.hpp")])
prop('P07', 'Auxiliary equations are advanced as stated',
     "The advection equation used for artificial viscosity, the smoothing equation that diffuses it and the equation that restores thermodynamic admissibility are each advanced by the stated discrete divergence, source and relaxation terms, with every advected variable filtered alike when the filter is on. Each touches only its own variables and its faces.",
     ['inputs', 'configurations'], "all states, forcing, time steps, operators, Jacobians, Cartesian and deformed elements, 1-3 dimensions; " + SZ,
     "Tests run one step on one state; the coupling of flags (filter, stage) and number of advected variables against the dimension is not sampled.",
     ["include/Spatial.hpp", "include/pde.hpp"], [("Local kernel", "include/Spatial.hpp"), ("equation sets", "include/pde.hpp Advection, Smooth_art_visc, Fix_therm_admis")])
prop('P08', 'Face values are the exact extrapolation of the element state',
     "Before the first step every face of every element receives, at each face point and for each variable, the value of the interior polynomial at that point, with faces, variables and points ordered as the interface exchange expects, and the element state is left untouched.",
     ['inputs', 'configurations'], "all element states and boundary operators, 1-3 dimensions; row sizes 2-3 in the quick check, 2-8 (2-4 in 3D) thorough",
     "The tests check a few faces of a few polynomials; the ordering must match on all faces for all data.",
     ["include/Spatial.hpp", "src/kernels_convective.cpp"], [("Write_face kernel", "include/Spatial.hpp Spatial::Write_face")])
prop('P09', 'The time step obeys the stated stability limit everywhere',
     "The allowed time step at every point is the safety-scaled harmonic combination of the convective limit (characteristic speed over local spacing) and the diffusive limit (diffusivity over spacing squared), where spacing accounts for the distortion of the element; local time stepping stores it point by point relative to the requested safety factors, and global time stepping returns the minimum over all points of all elements and stores equal values.",
     ['inputs', 'configurations', 'histories'], "all admissible states, element shapes and sizes, safety factors, all five equation sets, any number of elements, 1-3 dimensions; " + SZ,
     "Tests compare a single value; the minimum over an unbounded number of elements and the point-wise formula cannot be sampled.",
     ["include/Spatial.hpp", "include/pde.hpp"], [("Max_dt kernel", "include/Spatial.hpp Spatial::Max_dt"), ("characteristic speed and diffusivity", "include/pde.hpp")])
prop('P10', 'Data exchange across hanging faces is exact and conservative',
     "Where one coarse face meets several refined faces, for every pattern of which directions are stretched, each fine face receives the coarse polynomial evaluated on its part of the face, and the coarse face receives the adjoint transfer of the fine fluxes, so that with dual operators the quadrature total of flux received by the coarse side equals the total over the fine sides, each counted with its share of the area. Only the receiving side's data changes, with the requested scaling and offset.",
     ['inputs', 'configurations'], "all face data, all prolongation and restriction operators, all stretch patterns, state and gradient offset modes, 1-3 dimensions, row sizes 2-3 quick, 2-8 (2-5 in 3D) thorough",
     "Tests check one polynomial per stretch pattern; flux conservation over hanging faces must hold for all data.",
     ["include/Spatial.hpp", "include/Refined_face.hpp"], [("Prolong_refined", "include/Spatial.hpp"), ("Restrict_refined", "include/Spatial.hpp")])
prop('P11', 'Every quadrature basis supplies consistent operators',
     "For every supported row size and each kind of basis, the nodes, quadrature weights, differentiation, boundary, prolongation, restriction and interpolation operators, the orthonormal polynomials and the modal filter agree with their mathematical definitions to round-off, the quadrature is exact to its stated degree, and the stability eigenvalues and step sizes derived from them are those of the actual operators. Requests a basis cannot serve (unsupported row size or operator) are refused with an exception rather than answered wrongly.",
     ['inputs', 'configurations'], "Gauss-Legendre, Gauss-Lobatto and equidistant bases for every row size from 2 to 8, every accessor and index; interpolation for arbitrary nodes and sample points (row sizes 2-4 quick, 2-8 thorough)",
     "Tests check a few polynomials per basis with tolerances; the tables are generated code whose entries and row sizes must all be right.",
     ["include/Basis.hpp", "src/Basis.cpp", "src/Equidistant.cpp", "script/auto_generate.py", "include/Gauss_legendre.hpp", "include/Gauss_lobatto.hpp"],
     [("basis interface", "include/Basis.hpp"), ("table generator", "script/auto_generate.py"), ("interpolation", "src/Basis.cpp Basis::interpolate")],
     note='Tables: every entry, exhaustively (the input space is finite) by symbolic execution of the real accessors, against exact rational references; eigenvalues against an independently assembled periodic operator (numpy, 1e-5). Interpolation: all real inputs.')
prop('P13', 'Boundary conditions produce the stated ghost data',
     "For every boundary condition (freestream, characteristic, pressure outflow, user function, cached user function, slip wall, no-slip wall with each thermal option, copy, supersonic outflow) the ghost state and ghost flux at every face point are those its documentation states: for the characteristic condition outgoing waves come from inside and incoming waves from the freestream, limited to admissible values; walls reverse the normal or the whole momentum and cancel the mass flux and all but the prescribed heat flux. In the advection, smoothing and admissibility phases the ghost data make the advected quantities, the smoothed quantity and its flux satisfy the stated wall or inflow condition for all variables. Inside data and geometry are not touched.",
     ['inputs', 'configurations'], "all inside states with positive density and energy (and pressure for the characteristic condition), normals, positions, parameters, both face signs, all face axes, 1-3 dimensions; row sizes 2-3 and one larger per dimension in the quick check, 2-8 thorough",
     "Tests feed one or two states per condition; wave selection, limiting, signs and the variable counts of large row sizes are not covered.",
     ["src/Boundary_condition.cpp", "include/Boundary_condition.hpp", "include/pde.hpp"],
     [("boundary conditions", "src/Boundary_condition.cpp"), ("characteristic decomposition", "include/pde.hpp Navier_stokes::Pde::Characteristics")],
     note=ENUM + ' Eigen 3x3 QR solve is an assumed contract (exact solution).')
prop('P12', 'Every step runs the whole scheme in the right order',
     "For every equation set one call of the step routine does, to every connection, hanging face and element of the mesh, exactly the documented sequence: interface exchange, collection onto coarse faces, element update, for viscous steps the hand-over of viscous fluxes through hanging faces, boundary conditions (applied exactly once), reconciliation and correction, and finally distribution to the fine faces; Cartesian and deformed parts alike and with the caller's time step, stage, mode and physical parameters. The stable time step is the smaller one of the Cartesian and deformed parts, and the auxiliary entry points (extrapolation, distribution, collection, face reordering) do just what they are named after. For any requested dimension and row size the matching instance of a kernel is used with the given arguments, or the request is refused if it is not supported.",
     ['inputs', 'configurations'], "all mesh data, operators, parameters, flags and stages on a mesh with Cartesian and deformed elements, regular, hanging and boundary faces, in 1-3 dimensions with row size 2 (and 3 in 1D and 2D thorough); all 32-bit dimensions and row sizes for the kernel lookup",
     "Whole-solver tests run smooth cases where a missing or repeated exchange, a wrong flag or a swapped order only changes the error level.",
     ["src/kernels_convective.cpp", "src/kernels_diffusive.cpp", "src/kernels_max_dt.cpp", "include/kernels.hpp", "include/kernel_factory.hpp"],
     [("convective step", "src/kernels_convective.cpp COMPUTE_CONVECTION"), ("diffusive step", "src/kernels_diffusive.cpp COMPUTE_DIFFUSION"), ("time step", "src/kernels_max_dt.cpp"), ("kernel lookup", "include/kernel_factory.hpp")],
     note='Relational contract: the routine against the kernels (themselves under P01-P10) invoked in the documented order, on the same data. Topology of the mesh is one fixed small mesh per dimension; the configured maximum row size is 3 in this check (8 for the lookup).')
prop('P14', 'Element geometry matches its vertices and face shape',
     "For every vertex placement, surface adjustment, size, refinement level and position in the mesh, the points of an element lie where multilinear interpolation of its vertices plus the surface adjustments puts them (a regular grid for Cartesian elements), and the Jacobian matrix, its determinant, the area vectors inside and on the faces and the spacing used for time steps are those of the discrete derivative of these positions. In two dimensions the discrete divergence of the area vectors vanishes exactly.",
     ['inputs', 'configurations'], "all vertex positions, adjustments, integer positions, mesh sizes and origins, all basis operators (nodes, derivative and boundary matrices arbitrary), refinement levels 0 and 3, 1-3 dimensions; row sizes 2, 3 and 5 (2-3 in 3D) quick, up to 8 (4 in 3D) thorough",
     "The tests look at a few hand-made elements; a wrong index in a 3D normal or adjustment shows only for skewed elements in some orientation.",
     ["src/Element.cpp", "src/Deformed_element.cpp", "src/math.cpp"], [("Jacobian and normals", "src/Deformed_element.cpp Deformed_element::set_jacobian"), ("positions", "src/Deformed_element.cpp Deformed_element::position"), ("Cartesian element", "src/Element.cpp")])
prop('P15', 'Connected elements fit together and share their data correctly',
     "Connecting two elements in any legal orientation, or a coarse element to its finer neighbours in any order and stretching, makes them share exactly the vertices that coincide, placed at the mean position, so that afterwards both sides place every point of their common face identically and their area vectors are opposite; hanging vertices lie on the coarse face. Each element face reads and writes exactly the storage the connection hands to the interface exchange, with room for every equation set and no overlap, and is detached when the connection ends.",
     ['inputs', 'configurations', 'histories'], "all vertex positions before connecting, all legal orientations, both orders and all stretchings of hanging-node connections, Cartesian and deformed elements, boundary connections, all symmetric nodes with linearly exact operators, 1-3 dimensions; row sizes 2-3 (hanging faces in 3D: 2) quick, up to 8 (5 in 3D) thorough",
     "The tests connect a few orientations of unit cubes; an index slip in one of the 30 orientations times the stretchings shows as a gap or crossed data only there.",
     ["include/connection.hpp", "src/connection.cpp", "src/Hanging_vertex_matcher.cpp", "src/Vertex.cpp", "include/Kernel_connection.hpp", "include/math.hpp"],
     [("vertex matching", "src/connection.cpp vertex_inds"), ("connections", "include/connection.hpp Element_face_connection, Refined_connection, Typed_bound_connection"), ("hanging vertices", "src/Hanging_vertex_matcher.cpp Hanging_vertex_matcher::match"), ("shared vertices", "src/Vertex.cpp Vertex::eat")])
prop('P16', 'A time step advances the flow exactly once with the promised step size',
     "One call of the time stepping computes the maximum step of the current state with the user's safety factors, takes the smaller of it and the user's limit, and for every stage applies the boundary conditions to the state, runs the update for the whole mesh (flux boundary conditions in between when there is diffusion) and counts flow time and iterations by what was really stepped. The residual evaluation does the same once without advancing anything.",
     ['inputs', 'configurations'], "all parameter values and kernel results on real two-element meshes (Cartesian, deformed, mixed) in 1-3 dimensions; enumerated combinations of local stepping, viscosity, conduction, artificial viscosity, filter, numbers of iterations and substeps; all Chebyshev sequences of up to 8 steps",
     "The tests look at convergence of whole simulations; a boundary condition applied to the wrong stage, a safety factor lost in one configuration or a flow time that drifts changes no test result visibly.",
     ["src/Solver.cpp", "include/Solver.hpp", "src/math.cpp", "src/Iteration_status.cpp"],
     [("time step", "src/Solver.cpp Solver::update, Solver::max_dt"), ("residual", "src/Solver.cpp Solver::compute_residual"), ("boundary conditions", "src/Solver.cpp Solver::apply_state_bcs, apply_flux_bcs"), ("substeps", "src/math.cpp chebyshev_step")])
prop('P17', 'Artificial viscosity is rebuilt from the flow without disturbing it',
     "Updating the smoothness-based artificial viscosity advects and smears its indicator for the requested numbers of iterations with the documented velocity, forcing, scaling and bound, reports the true change, and gives the flow state back exactly as it was. The elementwise variants give every element the documented indicator and make the coefficient continuous across conformal and hanging faces by taking the largest value at each vertex.",
     ['inputs', 'configurations'], "all states, parameters and kernel results on real meshes (conformal, hanging in every legal orientation and stretching, chains of elements) in 1-3 dimensions, row sizes 2-3, numbers of iterations up to 2",
     "The tests check a few flow fields for plausible viscosity; a wrong power in the scaling, an unrestored momentum for some state, or a discontinuity at a rotated hanging face passes them.",
     ["src/Solver.cpp", "src/Element.cpp", "src/Vertex.cpp", "src/Hanging_vertex_matcher.cpp"],
     [("smoothness", "src/Solver.cpp Solver::update_art_visc_smoothness, diffuse_art_visc"), ("elementwise", "src/Solver.cpp Solver::update_art_visc_elwise, set_art_visc_admis"), ("sharing", "src/Solver.cpp Solver::share_vertex_data")])
prop('P18', 'Neighbouring elements agree on their common area vectors and spacing',
     "After the geometry of a mesh is computed, the two elements of every deformed connection hold the same area vector up to orientation, the mean of their own; fine elements at a hanging face hold the one transferred from the coarse face, with the right sign in every orientation and order; boundary faces hold their element's vector and positions; and all elements meeting at a vertex agree on the smallest mesh spacing there. A mesh with a missing or doubled connection is rejected.",
     ['inputs', 'configurations'], "all vertex positions; real meshes with every legal orientation of conformal and hanging connections and every stretching, Cartesian and deformed, 1-3 dimensions, row sizes 2-3",
     "Conservation on curved meshes rests on this agreement in each of the 30 orientations; the tests build a handful.",
     ["src/Solver.cpp", "src/Deformed_element.cpp", "src/Accessible_mesh.cpp", "src/Hanging_vertex_matcher.cpp"],
     [("common area vectors", "src/Solver.cpp Solver::calc_jacobian"), ("vertex spacing", "src/Solver.cpp Solver::share_vertex_data"), ("rejection", "src/Accessible_mesh.cpp Accessible_mesh::valid")])
prop('P19', 'Initial state, integrals and element settings are those the user asked for',
     "Initialization sets every state variable at every point to the given function of that point's position and the current time and nothing else, and prepares faces and boundary conditions; too few variables are refused. Integrals over the field and over a surface are the quadrature sums with the true Jacobian and area element over exactly the elements or the faces of that boundary. Setting an elementwise or constant value touches that value only.",
     ['inputs', 'configurations'], "all positions, states, integrands and normals on real conformal and hanging meshes, Cartesian and deformed, 1-3 dimensions, row sizes 2-3",
     "The tests integrate a few polynomials on uniform meshes; weights or sizes that are wrong only at refinement level boundaries or in 3D, or a function evaluated at the wrong point, go unseen.",
     ["src/Solver.cpp"],
     [("initial state", "src/Solver.cpp Solver::initialize"), ("integrals", "src/Solver.cpp Solver::integral_field, integral_surface"), ("settings", "src/Solver.cpp Solver::set_uncertainty, set_art_visc_constant")])
prop('P20', 'Inadmissible states are always detected and repaired until admissible',
     "The solver reports the flow as admissible exactly if density and energy are positive at every interior, face and hanging-face point, and marks exactly the elements that are not. The repair does nothing to an admissible flow or when switched off; otherwise it diffuses the marked elements and their neighbours with a continuous coefficient through closed boundaries in two stages of the documented sizes, goes on as long as the state is inadmissible and as many applications again, counts its iterations and leaves the artificial viscosity as it was.",
     ['inputs', 'histories'], "all states with one arbitrary element, face or hanging face at a time; repair of chains of four elements for all states and kernel results that become admissible after one application; 1-3 dimensions, row sizes 2-3",
     "Inadmissible states appear at one point of one face of one element in a violent flow; the tests have a few fixed cases.",
     ["src/Solver.cpp", "src/thermo.cpp"],
     [("detection", "src/Solver.cpp Solver::is_admissible; src/thermo.cpp admissible"), ("repair", "src/Solver.cpp Solver::fix_admissibility, apply_fta_flux_bcs")])
prop('P21', 'The mesh octree locates every cell, neighbour and region exactly',
     "Refining a cell of the mesh tree creates children that tile it exactly, with positions, sizes, coordinates and family links that stay consistent at every level, and only an unrefined cell can be refined. A search by integer coordinates (with either side preferred) or by position returns a leaf that contains the point, and none exactly if the point is outside; the neighbours of a cell in a face, edge or corner direction are exactly the leaves that border on it there. Flood fill marks exactly the unmarked leaves connected through faces to the start cell (for a refined cell, its first leaf), and never leaks through cells already marked.",
     ['inputs', 'configurations', 'histories'], "all integer coordinates of the top cell and of the query, all positions, sizes and origins, all flood-fill markings (up to 64 joint patterns per tree in 3D); trees of up to three levels in 1-3 dimensions, every shape in 1D and 2D",
     "The tests use one quadtree and a dozen queries; off-by-one errors in one direction, dimension or level difference and leaks past a wall need the right shape and query.",
     ["src/Tree.cpp", "include/Tree.hpp"],
     [("refinement", "src/Tree.cpp Tree::refine, nominal_position, nominal_size"), ("search", "src/Tree.cpp Tree::find_leaf"), ("neighbours", "src/Tree.cpp Tree::find_neighbor, find_neighbors, add_extremal_leves"), ("flood fill", "src/Tree.cpp Tree::flood_fill")],
     note='Integers are 32-bit bit-vectors (coordinates below 2^12). The depth of the trees is bounded to three levels; the recursive functions treat every level alike.')
prop('P22', 'Reported quantities are the documented functions of the solution',
     "Every quantity offered for output, integration and expressions is exactly the documented function of the solution: pressure, stagnation pressure, Mach number, velocity, mass, Jacobian, time step, residual, viscosities, element averages, norms and nonsmoothness, skewness, analytic comparison fields, surface normals, pressure and viscous stresses and heat flux into the surface, and combinations of these, with the announced number of components, on every element and boundary face. The variables that user expressions see of an element, a point, a state and a surface point are all there and have the documented values.",
     ['inputs', 'configurations'], "all states, positions, geometries, fluxes, parameters and quadrature data with an arbitrary basis, Cartesian and deformed elements, boundary faces of every direction; 1-3 dimensions, row sizes 2-3",
     "The tests evaluate a few functions at one state; a wrong sign on one face, a missing normalisation or a wrong stride in 3D is invisible there and silently falsifies the reported forces.",
     ["src/Qpoint_func.cpp", "src/Element_func.cpp", "src/Domain_func.cpp", "src/Boundary_func.cpp", "src/Surface_func.cpp", "src/Spacetime_func.cpp", "src/hil_properties.cpp", "include/Output_data.hpp"],
     [("point functions", "src/Domain_func.cpp, src/Surface_func.cpp, src/Spacetime_func.cpp"), ("element functions", "src/Element_func.cpp, src/Qpoint_func.cpp"), ("surface functions", "src/Boundary_func.cpp"), ("expression variables", "src/hil_properties.cpp")],
     note=ENUM + ' Transcendental functions are uninterpreted; the skewness of deformed elements of two and three dimensions is not covered.')
prop('P23', 'Visualisation samples interpolate the solution exactly',
     "The samples of edges, faces, the interior and arbitrary points of an element that are handed to visualisation are the values there of the unique polynomial through the solution at the element's points, in the documented order and number, for every variable.",
     ['inputs', 'configurations'], "all nodal values, node positions, boundary operators and sample positions, 2-4 samples per direction, 1-3 dimensions, row sizes 2-3",
     "Visualisation is tested by looking at pictures; swapped axes and edges are unnoticed for symmetric fields.",
     ["src/Vis_data.cpp", "src/math.cpp", "src/Basis.cpp"],
     [("sampling", "src/Vis_data.cpp Vis_data::edges, interior, face, sample"), ("tensor products", "src/math.cpp hypercube_matvec, dimension_matvec"), ("interpolation", "src/Basis.cpp Basis::interpolate")])
prop('P24', 'Saved meshes and solutions are restored exactly',
     "A mesh that is saved and loaded again is the same mesh: every element with its size, position, vertices, node adjustments and deformation, every conformal, hanging and boundary connection with its direction, orientation and order, the sharing of vertices and the tree with its marks, and it is adapted by later requests exactly as the original one would be. A saved solution that is loaded onto the mesh has every value, the time step scale and the time information as saved. Saving changes neither the mesh nor the solution.",
     ['inputs', 'configurations', 'histories'], "all sizes, positions, node adjustments and solution values; Cartesian, deformed, mixed, hanging and stretched pairs in every direction and orientation, trees after enumerated adaptation histories with and without surfaces; 1-3 dimensions, row sizes 2-3",
     "The tests save one small mesh; a permuted connection or a lost flag appears for particular orientations only, and surfaces as a wrong solution after a restart.",
     ["src/Accessible_mesh.cpp", "src/Solver.cpp", "src/State_variables.cpp", "include/connection.hpp", "include/HDF5.hpp"],
     [("saving and loading meshes", "src/Accessible_mesh.cpp Accessible_mesh::write, read_file, Accessible_mesh(file...)"), ("saving and loading solutions", "src/Solver.cpp Solver::write_state, read_state")],
     note=ENUM + ' Meshes are enumerated by kind, direction and adaptation history; numbers are arbitrary. HDF5 is replaced by an in-memory store with its interface.')
prop('P25', 'Adapting the mesh honours requests and keeps it valid',
     "Adaptation refines exactly the elements that ask for it, coarsens exactly the complete families that agree and whose neighbours allow it, refines what is needed so that neighbours differ by one level at most, and reports whether anything changed. The outcome is a complete mesh: one element per cell of the tree, every face connected once and to what lies on its other side, vertices shared exactly where corners coincide, hanging vertices on the coarse face. With a surface, the elements fill exactly the part of the domain on the chosen side, boundary vertices lie on the surface or the domain boundary, and no element crosses the surface after refinement or coarsening.",
     ['inputs', 'histories'], "enumerated histories of refinement and coarsening requests (up to four rounds) in 1-3 dimensions; all root sizes and origins without surfaces; unit root and surfaces of one to three planes at fixed positions otherwise",
     "The tests adapt a few meshes and check counts; a neighbour missed in one direction or a stale mark after coarsening needs a particular sequence of requests.",
     ["src/Accessible_mesh.cpp", "src/Tree.cpp", "src/Element.cpp", "src/Vertex.cpp", "include/connection.hpp"],
     [("adaptation", "src/Accessible_mesh.cpp Accessible_mesh::update"), ("connections", "src/Accessible_mesh.cpp connect_new, connect_rest, purge"), ("surfaces", "src/Accessible_mesh.cpp set_surface, extrude, deform, snap_vertices")],
     note='The histories and the surfaces are enumerated, so the check is bounded in them; the real code is executed on each without a bound on the iterations.', level='bounded')
prop('P26', 'Material models, limiters, monitors and solvers compute what they document',
     "The transport models give zero, the constant, or Sutherland's law through the reference value; the standard atmosphere gives density and pressure in hydrostatic balance with the tabulated temperature profile and offset, and rejects altitudes beyond its range. The modal limiter leaves every mode within its bound alone and scales each other one exactly to the bound; the history monitor reports the exact bounds of the recorded samples inside its window; wall layers have the requested thickness, then double, and fill a height of one. Vector operations of linear equations are exact even when arguments coincide, and after n iterations BiCGStab solves any regular system of n unknowns, rejecting insufficient storage.",
     ['inputs', 'configurations'], "all parameters, temperatures, altitudes, nodal data, bases, sample values, spacings, matrices and vectors; enumerated numbers of layers, sample sequences and systems of 1-2 (3 in the thorough check) unknowns",
     "The tests compare one or two values with loose tolerances; the errors of a wrong branch, an aliased vector or an off-by-one window are below them or need other inputs.",
     ["include/Transport_model.hpp", "src/standard_atmosphere.cpp", "src/filter_limit.cpp", "src/History_monitor.cpp", "src/Layer_sequence.cpp", "src/iterative.cpp", "src/Linear_equation.cpp"],
     [("transport", "include/Transport_model.hpp"), ("atmosphere", "src/standard_atmosphere.cpp"), ("limiter", "src/filter_limit.cpp"), ("monitor", "src/History_monitor.cpp"), ("layers", "src/Layer_sequence.cpp"), ("linear solvers", "src/iterative.cpp, src/Linear_equation.cpp")],
     note='Real arithmetic, exp, pow and log uninterpreted. Sample sequences of the monitor and numbers of layers, unknowns and iterations are enumerated; GMRES is not covered.')


prop('P27', 'Surface geometry queries find the nearest point and all intersections',
     "The nearest point reported by a surface made of line segments or triangles, a sphere, or a combination of surfaces lies on that surface, no point of it is nearer, and nothing is reported exactly when nothing lies within the given distance, whatever distance is guessed. The reported intersections of a line are exactly those with the surface, up to the documented tolerance at the edges of the simplices. Neither the search tree nor the bounding balls lose a simplex.",
     ['inputs', 'configurations'], "all points, end points, triangles, centres, radii, largest distances and answers of component surfaces; for whole geometries of simplices, all largest distances and all lines of given directions through a line of points, for enumerated geometries, points and directions",
     "Tests probe a few points of small shapes; a pruning test that is slightly too tight or a wrong fallback only shows for simplices of certain sizes and query points.",
     ["include/Simplex_geom.hpp", "src/Simplex_geom.cpp", "src/Surface_geom.cpp", "include/Nearest_point.hpp", "include/math.hpp"],
     [("nearest point", "include/Simplex_geom.hpp, src/Simplex_geom.cpp, include/Nearest_point.hpp"), ("intersections", "include/Simplex_geom.hpp"), ("sphere and compound", "src/Surface_geom.cpp"), ("projections and balls", "include/math.hpp")],
     note='Real arithmetic; Eigen PartialPivLU by contract. Whole geometries of simplices, query points and directions of lines are enumerated. CAD geometries (OpenCASCADE) are not covered. That a boundary point is nearest if the projection lies outside a triangle is elementary geometry and not proved here.')
