"""Writes properties.jsonl (run by hand when a property's wording changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None)))
S='angler/simulation.py'; L='angler/linalg.py'; D='angler/derivatives.py'; PM='angler/pml.py'
G='angler/gradients.py'; A='angler/adjoint.py'; O='angler/optimization.py'; OB='angler/objective.py'
F='angler/filter.py'; N='angler/nonlinear_solvers.py'; NL='angler/nonlinearity.py'; M='angler/source/mode.py'
ST='angler/structures.py'; U='angler/utils.py'; PL='angler/plot.py'; C='angler/constants.py'; DS='data/device_saver.py'

p('C01','Solved fields satisfy the discrete Maxwell equations',
  'For every grid, permittivity, frequency, grid spacing, length unit and source, and for both polarizations, the three field components of a linear solve satisfy curl E = -i w mu H (minus the source for Hz) and curl H = i w eps E (plus the source for Ez) on the staggered periodic grid, with SI constants scaled by the length unit. The components returned by the solve are the components the simulation stores. A new simulation starts with a zero source of the shape of the grid that can hold complex amplitudes, and the optional averaging of the permittivity is consistent between matrix and field recovery.',
  ['inputs','configurations'],'all permittivities, sources, frequencies, spacings, grids, polarizations',
  'the tests compare a few field values on one grid with loose tolerances and never check the E/H relations; a wrong sign, scale or operator on one component stays invisible',
  [S,L,D,C],[('system matrix',L+':construct_A'),('field recovery',S+':solve_fields')],['Simulation.solve_fields','Simulation.fields'])
p('C02','Difference operators: periodic, adjoint pairs, right axis',
  'The forward and backward difference operators a simulation works with are first differences along the named axis divided by the grid spacing of that axis, wrap periodically, and the backward operator is minus the transpose of the forward one (without absorbing layers). They use row-major cell order, act on one axis only, and vanish along an axis with a single cell, also for 1D grids.',
  ['inputs','configurations'],'all grid sizes >= 1 in each axis, all spacings',
  'no test looks at the operators; the unit tests use grids on which a swapped axis, a wrong wrap or a wrong spacing mostly changes nothing they assert',
  [D,L],[('difference matrices',D+':createDws'),('grid spacing',L+':dL')],['Simulation.derivs'])
p('C03','Absorbing layers: extent, symmetry, staggering, direction',
  'With NPML=[px,py] the coordinate stretching equals one everywhere except in the px (py) cells at each end of x (y), is mirror symmetric about the domain centre, and is purely attenuating (real part one, absorbing sign) inside. The stretching of the forward operators is the same profile evaluated half a cell away from that of the backward operators, each axis depends only on its own coordinate and layer count, and NPML=0 means no stretching on that axis. The attenuation integrated over the depth of a layer is the designed one (the default target round-trip reflection), the same for every thickness, frequency, grid spacing and length unit.',
  ['inputs','configurations'],'all grid sizes, layer thicknesses, frequencies, spacings',
  'test_NPML only constructs simulations with different NPML values; an off-by-one layer or a swapped axis passes',
  [PM,L],[('profile',PM+':create_sfactor'),('assembly',PM+':S_create')],['Simulation.derivs','Simulation.A'])
p('C04','Assigning a permittivity rebuilds everything derived from it',
  'After any assignment to the permittivity of a simulation, the system matrix and difference operators are those of the new permittivity, frequency and length unit, and no previously solved linear or nonlinear field is left stored. Any other library operation that changes the permittivity leaves the same consistent state.',
  ['histories','inputs'],'all sequences of permittivity assignments and solves',
  'tests construct a simulation once and solve once; stale operators or stale fields only show after a second assignment',
  [S,O],[('setter',S+':eps_r'),('design updates',O+':_update_rho, _set_design_region')],['Simulation.eps_r','Simulation.A','Simulation.fields','Simulation.fields_nl'])
p('C05','Arrays passed in by the caller are never modified',
  'No library operation changes the contents of an array or list the caller passed in: permittivity, design region, density vector, starting field, nonlinear region, layer counts, centre lists and plotting data keep their values.',
  ['inputs','histories'],'every public operation, every argument',
  'tests build fresh arrays for every call and never compare them afterwards',
  [S,O,F,M,N,ST,PL],[('copies before masked writes',S+':init_design_region, '+O+':_set_design_region')],['arguments of the public operations'])
p('C06','Design region initialisation styles',
  'Initialising the design region leaves the permittivity outside it untouched and sets it inside to the material value (full), to one (empty), to the midpoint (halfway) or to values within [1, material] (random; random_sym additionally mirror symmetric in y); any other style leaves it as it was. Afterwards the stored density maps back to exactly the new permittivity.',
  ['inputs','configurations'],'all permittivities, regions, material values, styles',
  'tests use one style with one region and never look outside it',
  [S,F],[('styles',S+':init_design_region')],['Simulation.eps_r','Simulation.rho'])
p('C07','Flux probe measures conserved Poynting power',
  'The flux probe returns the time-averaged Poynting power (half the real part of E x H*) through the requested line: exactly the cells of the requested width, positive along the positive axis, scaled with the grid spacing, from the linear or the nonlinear fields as asked. On the discrete grid the net flux out of any source-free lossless cell is exactly zero and otherwise equals the work of the source, for both polarizations and directions.',
  ['inputs','configurations'],'all fields, centres, widths, both directions, both polarizations, linear and nonlinear',
  'no test checks a flux value; a wrong averaging edge, sign, field store or missing conjugate changes only the number',
  [S,L],[('edge average',L+':grid_average'),('probe',S+':flux_probe')],['Simulation.flux_probe'])
p('C08','Modal sources: right operator, place, scale, orientation',
  'A mode source writes only the cells of its own line; the values are the scaled, real-signed profile of the requested mode of the one-dimensional guided-mode operator of the permittivity on that line, and a line along x and one along y over the same permittivity give the same values. The recorded input power is that of this mode alone in a straight guide of the same cross-section, on a copy that leaves the simulation itself untouched.',
  ['inputs','configurations','histories'],'all permittivities, lines, scales, orders, polarizations, any number of modes',
  'no test asserts on a mode profile or input power, and none uses two modes or a y-directed source',
  [M,L],[('mode operator and placement',M+':insert_mode'),('normalisation',M+':compute_normalization')],['Simulation.src','Simulation.W_in'])
p('C09','Linear and nonlinear solutions never mix',
  'A linear solve uses the linear system only and writes only the linear field store; a nonlinear solve leaves the linear store as the last linear solve left it and writes exactly its own results to the nonlinear store. Each named nonlinear solver runs the method of that name with the caller-supplied starting field, tolerance and iteration limit (hybrid: at most 20 fixed-point iterations first and Newton, from their result and again at most 20, only if the requested tolerance was not met).',
  ['histories','configurations'],'all sequences of linear and nonlinear solves, all solver choices',
  'tests run one solver per simulation and compare results loosely; which store or which parameter was used is not visible',
  [S,N],[('stores',S+':solve_fields, solve_fields_nl'),('solvers',N)],['Simulation.fields','Simulation.fields_nl','return values'])
p('C10','Nonlinear solvers iterate the right equations',
  'For the out-of-plane electric polarization, the fixed-point solver iterates fields -> solution of the system whose permittivity includes the nonlinear shift at the previous fields, and the Newton solver uses the exact residual of that same system and its exact (Wirtinger) Jacobian. Both report the relative change of the last two iterates, stop when it falls below the tolerance, and return components that belong to one and the same final system.',
  ['inputs','histories'],'all fields, nonlinearities, tolerances, iteration counts',
  'the only test checks that two solvers agree on one weakly nonlinear case; a wrong Jacobian term still converges there',
  [N,S],[('residual and Jacobian',N+':nl_eq_and_jac'),('iteration',N+':born_solve, newton_solve')],['solve_fields_nl'])
p('C11','Kerr model and its derivatives',
  'The permittivity shift of a Kerr medium is 3 chi |E|^2 inside its region and zero outside, scaled by (eps-1)/(eps_max-1) when scaling is requested, with chi converted by the square of the length unit. Contributions of several media add, the stored derivative terms are exactly the derivatives of the shift with respect to the field and to the permittivity, and the nonlinear operator is w^2 eps0 times the shift.',
  ['inputs','configurations'],'all fields, regions, chi values, numbers of media, both scaling modes',
  'tests exercise one medium at one power; a factor in a derivative only changes convergence and gradients slightly',
  [NL,S],[('model',NL),('assembly',S+':compute_nl, add_nl')],['Simulation.eps_nl','Simulation.dnl_de','Simulation.dnl_deps','Simulation.Anl'])
p('C12','Linear solver back-ends solve the same system',
  'For every matrix and right-hand side each available back-end returns the solution of that system, with the matrix kind it is told matching the matrix, in the order the back-end requires; a zero source gives a zero field without solving. The complex-conjugate-coupled solver returns x with A11 x + A12 conj(x) = b.',
  ['inputs','configurations'],'all matrices, right-hand sides and back-ends',
  'the tests run the installed default back-end only and never call the coupled solver directly',
  [L],[('direct solve',L+':solver_direct'),('coupled solve',L+':solver_complex2real')],['return values'])
p('C13','Results do not depend on the choice of length unit',
  'Describing the same physical problem in another length unit (grid spacing divided and length unit multiplied by a factor a, the current per area multiplied by a squared, a starting field by a) gives the same physical fields and powers, that is fields and powers a times as large per length unit: operators, absorbing layers, mode sources and nonlinear terms are all consistent in the unit.',
  ['configurations','inputs'],'all length units and problems',
  'every test uses the default unit, in which any misplaced power of the unit is just a constant factor',
  [S,L,PM,N,A,G,M],[('scaled constants',L+':construct_A'),('stretching',PM+':S')],['Simulation.A','Simulation.fields'])
p('C14','Adjoint gradient is exact: linear Ez-polarized objectives',
  'For every real objective of the linear Ez, Hx and Hy fields, the gradient equals the exact derivative of the objective with respect to every density value, through the field equations, projection and filter, for every permittivity, absorbing layers, filter, projection and design region; it is zero outside the design region when no filter is used.',
  ['inputs','configurations'],'all objectives, structures, layers, filters, projections',
  'the gradient tests do not run at this commit, and sampled finite differences on symmetric filters and interior designs cannot separate W from its transpose or A from its transpose',
  [G,A,F,O],[('gradients',G+':grad_linear_Ez, grad_linear_Hx, grad_linear_Hy'),('adjoint',A+':adjoint_linear_Ez')],['Optimization.compute_dJ'])
p('C15','Adjoint gradient is exact: linear Hz-polarized objectives',
  'For every real objective of the linear Hz, Ex and Ey fields, the gradient equals the exact derivative of the objective with respect to every density value, including the direct dependence of the electric field on the permittivity, for every permittivity, absorbing layers, filter, projection and design region.',
  ['inputs','configurations'],'all objectives, structures, layers, filters, projections',
  'the gradient tests do not run at this commit and no test has ever differentiated an Hz-polarized objective',
  [G,A,F,O],[('gradients',G+':grad_linear_Hz, grad_linear_Ex, grad_linear_Ey'),('adjoint',A+':adjoint_linear_Hz')],['Optimization.compute_dJ'])
p('C16','Adjoint gradient is exact: Kerr-nonlinear objectives',
  'For every real objective of the nonlinear Ez, Hx and Hy fields, the gradient equals the exact derivative of the objective at a converged nonlinear solution, including the coupling of a field and its conjugate and the dependence of the nonlinearity on the permittivity. It depends only on the nonlinear solution, not on which nonlinear terms happened to be evaluated last.',
  ['inputs','histories','configurations'],'all objectives, nonlinear solutions, media, filters',
  'the nonlinear gradient test does not run at this commit; weak nonlinearity hides missing coupling terms',
  [G,A,NL,S],[('gradients',G+':grad_kerr_Ez, grad_kerr_Hx, grad_kerr_Hy'),('adjoint',A+':adjoint_kerr_Ez')],['Optimization.compute_dJ'])
p('C17','Objectives: argument order, gradient routing, rejection',
  'An objective receives the fields its argument list names, in that order and from the linear or nonlinear store as flagged; its gradient is the sum over arguments of the contribution of that argument, each using its own partial derivative and the method for its component and linearity. A mismatch between objective and argument list, an unknown component, and a component the polarization does not provide are all rejected.',
  ['inputs','programs','configurations'],'all objective functions and argument lists',
  'tests build one objective of each kind and check that attributes exist, not that argument k is paired with derivative k',
  [OB,O],[('routing table',OB+':GRADIENT_MAP'),('summation',O+':compute_dJ')],['Objective','obj_arg','Optimization.compute_J','Optimization.compute_dJ'])
p('C18','Objective and gradient always use fields of the current design',
  'Whatever was called before (scans, derivative checks, optimization steps, index-shift limiting, design updates), computing the objective or gradient of the simulation afterwards uses fields solved for its present permittivity and source, never fields of an earlier design, of another source amplitude or of a scanned copy.',
  ['histories'],'all sequences of optimizer operations followed by an evaluation',
  'needs a multi-step history; tests evaluate once per optimization object',
  [O],[('cache flag',O+':_solve_objfn_arg_fields')],['Optimization.compute_J','Optimization.compute_dJ'],[('fields_current','whether the cached argument fields may be reused',O)])
p('C19','Density to permittivity map: endpoints, range, derivative',
  'For every projection strength and threshold the map from filtered density to permittivity takes density 0 to permittivity 1 and density 1 to the material value, is monotone in between, and its stated derivative is its exact derivative; permittivity to density and back is the identity without projection. The convenience copies in the utilities obey the same map.',
  ['inputs'],'all densities, strengths, thresholds, material values',
  'tests check none of these maps',
  [F,U],[('maps',F+':rhot2rhob, rhob2eps, eps2rho, rho2eps'),('derivative',F+':drhob_drhot')],['filter functions','utils functions'])
p('C20','Spatial filter: averaging, radius, periodic wrap, design mask',
  'Each filtered density of a design cell away from the absorbing layers is a weighted average (non-negative weights that sum to one) of the densities within the filter radius, with weights that decrease linearly with distance and depend on the displacement only, wrapping around axes without absorbing layers and never around others. Cells outside the design region are passed through unchanged, and cell numbering is row-major.',
  ['inputs','configurations'],'all grid sizes, radii, regions, layer settings',
  'no test builds a filter',
  [F],[('filter matrix',F+':get_W')],['filter.get_W','filter.rho2rhot'])
p('C21','Gradient-descent and Adam steps: direction, box, bookkeeping',
  'Each gradient or Adam step moves the density in the ascent direction of the objective inside the design region only, clips it to [0,1], rebuilds the permittivity from the new density with the configured filter and projection, and the Adam direction is the bias-corrected first moment over the root of the bias-corrected second moment. One objective value is recorded per iteration, before the step.',
  ['inputs','histories'],'all gradients, step sizes, decay rates, iteration counts',
  'no stable test runs an optimizer',
  [O],[('step',O+':_update_rho'),('Adam',O+':_step_adam')],['Optimization.run','Simulation.rho','Optimization.objfn_list'])
p('C22','L-BFGS sees a consistent function and gradient',
  'The optimizer is given minus the objective and minus the design-region part of its gradient at the same density vector, in the same cell order in which the vector is written back, within bounds [0,1], starting from the current density, for the requested number of iterations. At the end the simulation holds the density the optimizer returned, and its permittivity is that of this density. A vector that differs from the current density by more than rounding is used as it is, never skipped as unchanged.',
  ['inputs','histories'],'all densities, regions and iteration counts',
  'no stable test runs the default optimizer',
  [O],[('wiring',O+':_run_LBFGS'),('insertion and extraction',O+':_set_design_region, _get_design_region')],['Optimization.run'])
p('C23','Derivative check compares like with like',
  'The derivative check perturbs one density value inside the design region at a time, re-evaluates the objective through the same filter, projection and solver, divides by the perturbation, and pairs it with the gradient entry of that same cell. It leaves the density of the simulation as it was and returns the requested number of pairs.',
  ['inputs','histories'],'all designs, numbers of points and perturbations',
  'the tests that call it do not run at this commit, and it is the oracle they would use',
  [O],[('check',O+':check_deriv')],['Optimization.check_deriv'])
p('C24','Scans run on copies and line up with their axes',
  'Frequency and power scans leave the simulation (permittivity, source, frequency, density, stored fields) as it was, evaluate every point on a fresh system rebuilt for that frequency or source amplitude, and return values in the order of the scanned axis, one per point; the returned frequencies (in Hz) are evenly spaced about the present one. Power transmissions are probe power over input power at the same amplitude, and the half-maximum width counts the contiguous points above half maximum around the centre times the frequency step.',
  ['inputs','histories'],'all scan lengths, ranges and probes',
  'no test runs a scan',
  [O],[('scans',O+':scan_frequency, scan_power')],['Optimization.scan_frequency','Optimization.scan_power'])
p('C25','Index-shift limiting and source bookkeeping',
  'The refractive index shift is |sqrt(Re(eps+shift)) - sqrt(Re(eps))| from freshly solved linear and nonlinear fields. With a maximum index shift set, the source amplitude is multiplied by the square root of allowed over actual shift (less a margin); without it the source is never changed; and one source amplitude is recorded per optimization iteration.',
  ['inputs','histories'],'all shifts, sources, iteration counts',
  'no test sets a maximum index shift',
  [O,S],[('limiter',O+':_set_source_amplitude'),('shift',S+':compute_index_shift')],['Simulation.compute_index_shift','Simulation.src'])
p('C26','Structure builders: grids, regions, masks',
  'Every structure builder returns a permittivity and a design region on the same grid, whose size is the geometry plus both absorbing layers; the permittivity takes only the background and the material value, the design region only zero and one and exactly its defining box, on evenly spaced cell coordinates centred on the grid. Regions are composed by union in terms of the true cell coordinates, each region keeping its own parameters.',
  ['inputs'],'all geometric parameters',
  'tests use fixed geometries through saved arrays only',
  [ST],[('grid',ST+':get_grid'),('regions',ST+':apply_regions')],['structures builders'])
p('C27','Every operation is well formed on every path',
  'No reachable operation of the package refers to a name that is never bound on that path, calls a library function of the package with arguments it does not accept, reads an attribute no object of that kind ever gets, or compares values by identity where equality is meant. Every polarization, field component, design-region style and plot normalisation the operations name is accepted.',
  ['programs','configurations'],'all functions and all paths through them',
  'Python finds these only when the path runs; most error, plotting and back-end paths are never run by the tests',
  ['angler','data'],[('whole package','angler/*.py')],['all public operations'])
p('C28','Plotting only observes',
  'Plotting fields, permittivity, objective history, transmissions or animations changes no permittivity, field, source, density or optimizer state, shows the requested quantity (linear or nonlinear, real part or magnitude) transposed to image orientation with limits that cover it, and refuses to plot fields that were never solved.',
  ['histories','inputs'],'all simulations and plot options',
  'no test plots',
  [S,PL,O],[('plot helpers',PL)],['plt_* methods','plot functions'])
p('C29','Binarization wrappers',
  'A binarized objective is the original objective of the same arguments times a factor that depends only on the third argument inside the design region, equals one for every fully binary design and falls with the gray level of the region, the mean of 4 rho (1 - rho) over its cells (one minus it, or its exponential decay). The three wrappers leave the wrapped objective and the region unchanged.',
  ['inputs'],'all objectives, permittivities and regions',
  'the only binarization test does not run at this commit',
  [U],[('wrappers',U+':Binarizer')],['Binarizer'])
p('C30','Saved devices: geometry tables, observation points',
  'The saved-device helper unpacks the geometry of each structure type in exactly the parameter order of the builder of that name, knows the same set of structure types wherever it distinguishes them, and works on copies, so that generating data leaves the simulation and optimization it was given unchanged. The recorded transmissions, power scan and spectra of a device observe the same output ports, from the linear fields at low and the nonlinear fields at high power, relative to the input power.',
  ['configurations','histories'],'all structure types and devices',
  'no test imports it',
  [DS,ST],[('geometry table',DS+':set_geometry')],['Device'])
p('C31','Invalid choices are rejected before anything changes',
  'A polarization other than Ez/Hz, a non-positive frequency or length unit, a negative or wrongly sized layer list, an unknown solver, direction, nonlinearity type, optimization method, component or structure parity raises an error instead of being silently treated as a valid choice, and a rejected request leaves stored fields and permittivity as they were.',
  ['inputs','configurations'],'all invalid values of every discrete choice',
  'tests try one or two invalid polarizations only',
  [S,L,NL,O,OB,M,ST],[('input checks',S+':_check_inputs')],['exceptions'])
p('C32','Fixed-point and Newton reach the same solution at high power',
  'Whenever both nonlinear solvers converge from the same start they converge to the same field.',
  ['inputs'],'all powers','tests try one power',[N],[('solvers',N)])
p('C33','Absorbing layers suppress reflections to the designed level',
  'With the default profile, outgoing waves at all angles are reflected by no more than the designed amount.',
  ['inputs'],'all waves','tests do not measure reflection',[PM],[('profile',PM)])
p('C34','Optimization improves the objective',
  'Running an optimization never ends with a worse objective than it started with.',
  ['inputs','histories'],'all problems and step sizes','no stable test runs an optimizer',[O],[('drivers',O)])
p('C35','The requested guided mode is the one found',
  'The eigenvector used for a mode source of order n near the given effective index is the n-th guided mode of the line.',
  ['inputs'],'all cross-sections','no test asserts a mode',[M],[('eigen solve',L+':solver_eigs')])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P), max(len(x['title']) for x in P))
