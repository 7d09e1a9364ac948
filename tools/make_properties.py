#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=['pygfunction/' + f for f in files],
                               mechanism=[dict(name=n, where='pygfunction/' + w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where='pygfunction/' + w) for n, m, w in (state or [])],
                               observe_at=observe, hook_needed=hook)))
HT, BH, BF, GF = 'heat_transfer.py', 'boreholes.py', 'borefield.py', 'gfunction.py'
BS, DE, SI, EQ = 'solvers/_base_solver.py', 'solvers/detailed.py', 'solvers/similarities.py', 'solvers/equivalent.py'
PI, NW, LA, UT, ME = 'pipes.py', 'networks.py', 'load_aggregation.py', 'utilities.py', 'media.py'
I, C, H, S = 'inputs', 'configurations', 'histories', 'schedules'

p('C01', 'Finite line source response is the exact heat-conduction solution',
  'For any two vertical boreholes (or one borehole and itself, at its radius) and any time, finite or infinite, the finite line source thermal response factor equals the average over the receiving borehole of the temperature field of a uniform continuous line source with an image sink mirrored at the ground surface. Selecting only the real or only the image part gives exactly that part (the image part being negative), and every way of asking for the same pair and time (scalar, array of times, lists or bore field objects, vectorized forms, one distance or many, weighted distances for groups of boreholes) gives that same number.',
  [I, C], 'all lengths, buried depths, radii, positions, diffusivities, times in (0, inf], call forms',
  'The tests compare a few tens of stored numbers for three boreholes; nothing checks the physical definition over the range of aspect ratios, overlaps, depths, times and call shapes.',
  [HT, UT], [('finite_line_source and vectorized forms', HT + ':10,653,781'), ('steady state limit', HT + ':1333'), ('error function integral', UT + ':25')],
  ['return values of the finite line source functions against direct quadrature of erfc(r/sqrt(4at))/r point sources'])

p('C02', 'Line source responses obey reciprocity, superposition, monotonicity and limits',
  'For vertical and inclined boreholes alike: the heat exchanged is reciprocal (receiver length times response is symmetric in the pair), the response of the whole is the sum of the real and image parts, and the response of a borehole split in any way is the length-consistent sum of the responses of its parts. Responses for the full solution are non-negative, never decrease with time and tend to the infinite-time value, and are never larger at larger distance or larger than the own-wall response of equal boreholes.',
  [I, C], 'all pairs of boreholes (vertical and inclined), all splits, all increasing time sequences',
  'Tests check individual stored values; reciprocity, additivity over arbitrary splits and ordering in time are never asserted.',
  [HT, BH], [('finite_line_source', HT + ':10'), ('inclined integrand', HT + ':1148'), ('time accumulation of the integral', HT + ':653')],
  ['return values over pairs, splits and time sequences'])

p('C03', 'Approximate line source solutions stay within their accuracy of the exact one',
  'The approximate finite line source solutions, vertical and inclined, stay close to the exact solution for any geometry and time (well within one percent of the own-wall response with the default number of terms), are the same in every call form, keep the real/image split, and do not get worse overall when more terms are requested. The integral of the error function and the exponential integral they are built on keep their accuracy for every argument.',
  [I, C], 'geometries, times and numbers of terms 1..25',
  'Tests pin stored values for two geometries at one number of terms; the accuracy contract over the parameter space is not checked.',
  [HT, UT], [('finite_line_source_approximation', HT + ':349'), ('finite_line_source_inclined_approximation', HT + ':458'), ('approximation coefficients', UT + ':483')],
  ['approximation=True results against approximation=False results and against direct quadrature'])

p('C04', 'Inclined line sources are geometric: right value, rigid-motion invariant',
  'The response between inclined boreholes equals the double average of the point source solution over the two tilted axes with the mirrored image source, whatever the tilts and orientations. It is unchanged when both boreholes are translated horizontally, rotated about a vertical axis or mirrored together, and tends to the vertical solution as tilt vanishes, with orientation then irrelevant.',
  [I, C], 'tilts, orientations, positions, lengths, depths and times, including parallel, diverging, converging and crossing-in-plan pairs',
  'Tests store values for one pair of inclined boreholes, so sign or angle errors that cancel for that pair are invisible.',
  [HT, BH], [('finite_line_source_inclined_vectorized', HT + ':891'), ('inclined integrand and steady state', HT + ':1148,1409')],
  ['return values of the line source functions for tilted boreholes'])

p('C05', 'Splitting a borehole into segments partitions it exactly',
  'For any borehole, number of segments and segment length ratios, the segments tile the borehole: lengths add to the borehole length, each segment starts exactly where the previous one ends along the (possibly inclined) axis, and radius, tilt and orientation are preserved, with edges and midpoints consistent with the segments. The same holds for a group of boreholes represented together.',
  [I], 'all boreholes (tilt and orientation), segment counts and ratios',
  'Tests check a handful of ratios on two boreholes.',
  [BH], [('Borehole.segments', BH + ':184'), ('_EquivalentBorehole.segments', BH + ':448')],
  ['Borehole.segments() output and the line source superposition over segments'])

p('C06', 'Heat-extraction and wall-temperature g-functions solve the stated problem',
  'For any field, segmentation and times, the uniform-heat-extraction g-function is the length-weighted mean wall temperature caused by unit heat extraction along all boreholes. With a uniform wall temperature, at every time all segments share one wall temperature equal to the g-function value, the length-weighted mean heat extraction is exactly one, and the temperature is what the spatial and temporal superposition of the heat extraction history over the line source responses gives.',
  [I, C, H], 'fields (vertical, inclined, mixed dimensions), segment numbers and ratios, solver methods, time grids',
  'Tests compare stored g-function values at three times for a few fixed fields; conservation and superposition are not checked and other geometries/time grids are not reached.',
  [BS, DE, SI, GF], [('system assembly and solution', BS + ':207'), ('temporal superposition', BS + ':500'), ('load history reconstruction', BS + ':532')],
  ['gFunction.gFunc and the stored heat extraction rate and temperature histories (profiles option)'],
  [('Q_b, T_b', 'segment heat extraction rates and wall temperatures over time', BS + ':450')])

p('C07', 'The similarities method gives the same g-function as the detailed method',
  'Exploiting geometric similarities is only a shortcut: for any bore field (vertical, inclined or mixed, regular or random, equal or unequal dimensions, any segment numbers and ratios) and boundary condition, the similarities method returns the g-function and the segment-level heat extraction rates and temperatures of the detailed method, to within the tolerance used to identify similar pairs.',
  [I, C], 'bore fields with coincident, near-coincident and merely similar-looking pairs; all boundary conditions; both line source variants',
  'Tests compare each method with stored values on symmetric small fields; a wrong similarity criterion only shows on asymmetric or mixed fields.',
  [SI, DE], [('pair comparison', SI + ':549-823'), ('grouping of pairs', SI + ':823'), ('segment pair mapping', SI + ':1002-1283')],
  ['gFunc, Q_b, T_b of both solvers on the same field'])

p('C08', 'The equivalent-borehole method represents the field it was given',
  'The equivalent borehole method groups only boreholes of equal dimensions, keeps every borehole in exactly one group (total drilled length is conserved) and gives a g-function close to the detailed one for any field of vertical boreholes, whatever the order in which boreholes are listed and whether dimensions are interleaved. It converges to the detailed result as more groups are used, and is exact when each borehole is its own group.',
  [I, C], 'fields of vertical boreholes with any mix and order of dimensions, cluster increments, boundary conditions',
  'Tests only use fields whose boreholes are all equal or sorted, and compare to stored values of the same method.',
  [EQ, BH, NW], [('find_groups', EQ + ':313'), ('equivalent response factors', EQ + ':203'), ('_EquivalentBorehole', BH + ':298'), ('_EquivalentNetwork', NW + ':1407')],
  ['gFunc with method equivalent against detailed; order permutations'])

p('C09', 'g-functions do not depend on borehole order, position, rotation or scale',
  'Re-listing the boreholes in another order (with their own segmentation and connections), translating, rotating or mirroring the whole field leaves the g-function unchanged for every boundary condition. Scaling all lengths by a factor and all times by its square leaves it unchanged as well, as does trading diffusivity against time.',
  [I, C], 'permutations, rigid motions, similarity transforms of arbitrary fields, all methods',
  'No test transforms a field; order-dependent shortcuts are exactly where the solvers optimise.',
  [SI, DE, EQ, GF, BS], [('find_similarities', SI + ':521'), ('find_groups', EQ + ':313'), ('solve', BS + ':207')],
  ['gFunc before and after the transformation'])

p('C10', 'g-functions have the right shape: start, growth, ordering, causality',
  'A g-function is zero at time zero, proportional to time below the linearization threshold and never decreases with time (with mixed inlet temperatures, unless thermal short-circuiting reverses heat flows); for a given field the uniform-temperature condition never exceeds the uniform-heat-extraction one, and isolated boreholes approach the single borehole curve. Values do not depend on later requested times (with uniform extraction, on any other requested time), and evaluating one object again at other times gives what a new object gives.',
  [I, C, H], 'fields, time grids dense and sparse around the threshold, boundary conditions and methods',
  'Tests use three times far above the threshold; the linearized part and interpolation are not exercised.',
  [GF, BS], [('linearization under threshold', BS + ':290,340,446'), ('evaluate_g_function', GF + ':454')],
  ['gFunc and evaluate_g_function outputs'])

p('C11', 'Mixed-inlet g-functions balance heat in ground, boreholes and network',
  'With the mixed inlet temperature condition, for any network (parallel, series, mixed connections, unequal flows, any pipe type), the segment heat extraction rates are those the network produces with the computed wall temperatures and one common field inlet temperature, their length-weighted mean is one, and the wall temperatures are those the ground gives for these rates. The g-function is the effective wall temperature defined from the field mean fluid temperature and the field thermal resistance. In vertical fields, reversing all flows leaves the g-function at the first time step unchanged.',
  [I, C], 'bore fields, connectivity, pipe types, mass flow rates, fluids and segmentation',
  'Tests store values for two networks; the coupled balance is never checked independently.',
  [BS, NW, GF], [('MIFT system', BS + ':350'), ('network coefficients', NW + ':862'), ('network_thermal_resistance', NW + ':1659')],
  ['gFunc, Q_b, T_b with boundary_condition MIFT and the network functions evaluated on fresh objects'])

p('C12', 'Variable-flow g-functions agree with constant-flow ones entry by entry',
  'When several mass flow rates are given, the diagonal entry for each flow rate equals the g-function computed for that flow rate alone, at every time including times below the linearization threshold, and each off-diagonal entry is the effective wall temperature under one flow rate for the wall temperatures left by the other. Entries start at zero, are proportional to time below the threshold, and permuting the flow rates permutes the entries.',
  [I, C], 'numbers of flow rates, signs, network or per-borehole flow rates, time grids crossing the threshold',
  'Tests use two flow rates and three late times only.',
  [BS, GF], [('flow rate loops', BS + ':350-445'), ('linearization of the matrix', BS + ':446')],
  ['gFunc[i, j, :] against single-flow runs'])

p('C13', 'Reported temperatures and heat extraction rates are the computed ones',
  'The curves and profiles the library reports for a computed g-function (average heat extraction rates and wall temperatures per borehole over time, and profiles along boreholes at a given time) are the solution: borehole averages are length-weighted means of segment values, profiles give the segment values at the positions of the segments along each borehole (head to toe when uniform), at the requested time, for the requested boreholes, every boundary condition and every flow rate.',
  [C, I], 'boundary conditions, methods, segment ratios, time selection, borehole selection, numbers of flow rates',
  'There is no test of any of the reporting functions.',
  [GF], [('_heat_extraction_rates', GF + ':1138'), ('_heat_extraction_rate_profiles', GF + ':1181'), ('_temperatures', GF + ':1262'), ('_temperature_profiles', GF + ':1305')],
  ['line data of the figures returned by the visualize functions against the solution history'])

p('C14', 'Load aggregation computes the temporal superposition its scheme defines',
  'At every time step, the temperature given by each load aggregation method equals the superposition, over its aggregation cells, of the mean historical load in each cell with the increments of the supplied response, for any number of sources and any load history. With a constant load it equals the exact temporal superposition, without aggregation (recent history only) it is exact, and otherwise stays close to the exact convolution.',
  [H, I, C], 'load histories (constant, random, periodic, impulses, sign changes), durations, cell parameters, number of sources, cross responses',
  'The repository has no test of load aggregation at all.',
  [LA], [('ClaessonJaved', LA + ':46'), ('MLAA', LA + ':229'), ('Liu', LA + ':473')],
  ['next_time_step/set_current_load/temporal_superposition traces against a shadow load log and exact convolution'],
  [('aggregated loads', 'mean load of each aggregation cell', LA + ':107,293,545')])

p('C15', 'Load aggregation is linear, causal, conserves energy and allows load retries',
  'The aggregated temperature depends linearly on the load history and on each source, a zero history gives zero, a pulse keeps its full energy in the aggregated history as it ages within the simulated period, and loads set later never change earlier results. Setting the load of the current step again replaces the earlier value and querying has no effect on the state, so any sequence of retries or queries ends in the same result as setting the final load once.',
  [H], 'sequences of advance, set-load (repeated), query and initialize operations',
  'The repository has no test of load aggregation; interleavings of retries and queries occur in users\' iterative solvers.',
  [LA], [('set_current_load', LA + ':156,371,619'), ('next_time_step', LA + ':107,293,545'), ('temporal_superposition', LA + ':169,385,632')],
  ['results of twin objects driven with equivalent operation sequences'])

p('C16', 'Time grids and discretizations are well-formed and as specified',
  'Every time grid generator returns strictly increasing positive times that start at the requested step, reach the requested end and expand in the documented pattern; load aggregation cells cover the simulated period with the documented number of cells per level. Segment ratios are positive, sum to one, are symmetric, have the requested end length and grow monotonically towards the middle, for every admissible request.',
  [I], 'all steps, durations, cells per level, numbers of values, numbers of segments and end ratios',
  'utilities.py and load_aggregation.py have no tests.',
  [UT, LA], [('segment_ratios', UT + ':76'), ('time_ClaessonJaved', UT + ':218'), ('time_MarcottePasquier', UT + ':270'), ('time_geometric', UT + ':322'), ('_build_cells', LA + ':198,430,674')],
  ['return values of the generators and get_times_for_simulation'])

p('C17', 'Fluid in a borehole obeys the heat balance, locally and overall',
  'For any pipe arrangement, segmentation, wall temperatures, flow rate and inlet temperature, the fluid temperatures satisfy at every depth the advection balance with the delta-circuit of thermal resistances, start at the inlet temperature, close at the bottom and are continuous. The total heat extracted by the fluid equals mass flow times heat capacity times temperature change, equals the sum over segments of borehole heat extraction, and segment heat extraction equals the wall-to-fluid heat flow integrated over that segment.',
  [I, C], 'pipe types (single, double series/parallel, independent, coaxial annular or inner inlet), geometry, flows, unequal segments and wall temperature profiles',
  'Tests store coefficient values for a few pipes at one flow rate and one or four segments.',
  [PI], [('coefficients_temperature', PI + ':438,1169'), ('coefficients_outlet_temperature', PI + ':347,1094'), ('coefficients_borehole_heat_extraction_rate', PI + ':531'), ('general solution', PI + ':960,1458,2013')],
  ['get_temperature along depth, get_outlet_temperature, heat extraction rate queries'])

p('C18', 'Borehole temperature relations are consistent, invertible and bounded',
  'All borehole-level queries describe one linear steady-state system: solving for the outlet and then for the inlet from the resulting heat extraction returns the original inlet, temperature profiles agree with inlet and outlet values, shifting or scaling all temperatures shifts or scales the results, and equal wall and inlet temperatures give no heat transfer. Outlet temperatures lie between inlet and wall temperature extremes when all internal resistances are positive, splitting the wall into finer segments with the same temperatures changes nothing, and the effective borehole resistance is never below the local one and follows from the outlet temperature.',
  [I, C], 'pipe types, flows, segmentations, temperatures',
  'Tests check each query separately against stored numbers.',
  [PI], [('get_inlet_temperature', PI + ':99'), ('effective_borehole_thermal_resistance', PI + ':669'), ('local_borehole_thermal_resistance', PI + ':710')],
  ['values of all pipe queries for one state'])

p('C19', 'Flow reversal is consistent everywhere',
  'Reversing the sign of a mass flow rate describes the same borehole or network with flow in the opposite direction: symmetric boreholes give the same outlet temperature and segment heat extraction rates with up and down legs exchanged, asymmetric boreholes give those of the same borehole with its legs exchanged, and series networks traverse boreholes in the opposite order. Where a borehole is declared not reversible, the sign of its flow has no effect on any of its temperatures or heat extraction rates.',
  [I, C], 'pipe types, asymmetric pipe positions, networks with reversible and non-reversible pipes, single or per-borehole flow signs',
  'Tests store a few reversed-flow values, mostly for symmetric geometry.',
  [PI, NW], [('_flow_direction', PI + ':1397,1952,2332'), ('_format_inputs', PI + ':1608,2177,2472'), ('_format_inputs', NW + ':1226'), ('_find_inlets_outlets', NW + ':1298')],
  ['pipe and network queries for m and -m on mirrored objects'])

p('C20', 'Borehole thermal resistances solve the multipole heat-conduction problem',
  'Internal thermal resistances form a symmetric, positive definite network that does not change under rotation or relabelling of pipes (other than by relabelling) and whose delta-circuit form carries the same heat flows. They follow from a temperature field that is harmonic in grout and ground, matches flux across the borehole wall and the pipe outer resistance condition, is linear in heat flows and boundary temperature, converges with the number of multipoles and agrees with the line-source (zero order) formula at order zero.',
  [I, C], 'numbers, positions and sizes of pipes, conductivities, fluid resistances, multipole orders',
  'Tests store resistance values for a few symmetric configurations.',
  [PI], [('thermal_resistances', PI + ':2845'), ('multipole', PI + ':3338'), ('_F_mk', PI + ':3501')],
  ['thermal_resistances and multipole outputs; temperature field sampled in grout and ground'])

p('C21', 'Friction, convection and pipe resistances follow their correlations',
  'Friction factors, film coefficients and pipe resistances follow their documented correlations over all flow regimes: laminar values are exact, turbulent friction factors satisfy the Colebrook-White equation, Nusselt numbers follow the documented turbulent formula and are continuous and monotonic through the transition, annulus values respect their inner and outer wall limits, and conductive resistances follow the logarithmic law. Only the magnitude of the flow rate matters, and results do not depend on the order or number of evaluations.',
  [I], 'flow rates of either sign and many magnitudes, radii, roughness, fluid properties, aspect ratios, around regime boundaries',
  'Tests compare a few stored values per regime, none around the boundaries.',
  [PI], [('fluid_friction_factor_circular_pipe', PI + ':3039'), ('convective_heat_transfer_coefficient_circular_pipe', PI + ':3097'), ('convective_heat_transfer_coefficient_concentric_annulus', PI + ':3190'), ('conduction_thermal_resistance_circular_pipe', PI + ':3311'), ('fluid_to_pipe_thermal_resistance', PI + ':3621'), ('fluid_to_fluid_thermal_resistance', PI + ':3744')],
  ['return values and residuals of the correlations'])

p('C22', 'Fluid properties are those of the requested mixture at its temperature',
  'A fluid object reports the density, viscosity, heat capacity and conductivity of the requested mixture, concentration and temperature, with derived properties (kinematic viscosity, volumetric heat capacity, Prandtl number) consistent with them, the same through attribute or accessor. Every admissible name (in any case) selects its own fluid, unknown fluids are refused, and requests outside the range of the correlations are never replaced silently.',
  [I], 'all fluid names, concentrations and temperatures in range',
  'Tests check a few points per fluid.',
  [ME], [('Fluid.__init__', ME + ':63'), ('property accessors', ME + ':113-185')],
  ['Fluid attributes against the property source evaluated directly'])

p('C23', 'A network is exactly its boreholes connected together',
  'For any valid network, fluid entering each borehole is the outlet of the borehole it is connected to or the common field inlet, each borehole behaves as it does alone with its flow, and the field outlet is the flow-weighted mix of the circuit outlets. Field heat extraction equals total flow times heat capacity times temperature change and the sum of the borehole rates, and inlet, outlet, heat extraction and field thermal resistance queries are mutually consistent for any flow split and segmentation.',
  [C, I], 'trees of series and parallel connections, pipe types, per-circuit flow rates and heat capacities, segment numbers and ratios, wall temperatures',
  'Tests cover two fixed networks with stored values.',
  [NW], [('coefficients_inlet_temperature', NW + ':571'), ('coefficients_network_*', NW + ':731,797,1020'), ('_coefficients_mixing', NW + ':1086'), ('network_thermal_resistance', NW + ':1659')],
  ['network queries against a direct walk of the connections with individual pipe objects'])

p('C24', 'Invalid configurations are refused and valid ones accepted',
  'Physically impossible inputs are refused with an error before any result is produced: pipes overlapping each other or extending outside the borehole, non-positive pipe and grout properties or radii out of order, cyclic or out-of-range borehole connections, mismatched numbers of boreholes, pipes, flow rates, segments or ratios, and for g-functions ratios that are not positive or do not add up to one, duplicate boreholes, unknown methods or boundary conditions, and decreasing times. Inputs that satisfy these conditions are accepted, however close to the limit.',
  [I, C], 'valid and invalid geometry, connectivity and option values just on either side of each limit',
  'Tests contain almost no negative tests.',
  [PI, NW, GF, BS, EQ, SI], [('_check_geometry', PI + ':882,2717'), ('_verify_bore_connectivity', NW + ':1371'), ('_check_inputs', GF + ':1463'), ('_check_inputs', BS + ':575')],
  ['exception or acceptance of constructors and solvers'])

p('C25', 'Results never depend on what was computed before',
  'Every query on a borehole, network, g-function or thermal-resistance function returns what a freshly built object would return, whatever queries with other flow rates, heat capacities, segmentations, flow signs or call forms were made before, in whatever order, and whatever resistances were updated in between. Values returned or passed earlier and later modified by the caller do not alter subsequent thermal resistance calculations.',
  [H], 'sequences of queries and updates on the same pipes, networks and shared tables',
  'Tests build a new object per query, so remembered coefficients are almost never reused.',
  [PI, NW], [('stored coefficients', PI + ':810-882'), ('stored coefficients', NW + ':1146-1226'), ('resistance table', PI + ':2787-2845')],
  ['results of a long-lived object compared with a fresh one after every operation'],
  [('stored coefficients', 'remembered coefficients keyed by flow, capacity, segmentation', PI + ':810'), ('mixing coefficients', 'remembered network mixing', NW + ':1196')])

p('C26', 'Bore fields contain exactly the boreholes described',
  'Field generators return the boreholes of the documented layout: right count, no duplicates, documented spacing, dimensions, tilt and orientation outward. Building, indexing, slicing, concatenating, comparing, converting to and from borehole lists, and saving to and loading from file keep the boreholes, their order and values.',
  [I, C, H], 'layout parameters, index expressions, concatenation orders, arbitrary float values through files',
  'Tests cover a few sizes per layout and no adversarial values through files.',
  [BF, BH], [('Borefield', BF + ':12'), ('layout generators', BF + ':550-1136'), ('file input and output', BF + ':448,505'), ('concatenation', BH + ':59')],
  ['sequences of boreholes returned'])

p('C27', 'Duplicate boreholes are found exactly and removed without loss',
  'Two boreholes are reported duplicates exactly when their horizontal positions are closer than the largest borehole radius, for any field and order. Removing duplicates leaves a field without duplicates in which every original borehole is either present unchanged and in order or a duplicate of a removed or kept one, and a field without duplicates is returned unchanged.',
  [I], 'fields with no, pairwise, multiple and chained coincidences at distances around the radius',
  'Tests use a field repeated exactly; near-coincident and chained cases are not reached.',
  [BH], [('find_duplicates', BH + ':617'), ('remove_duplicates', BH + ':660')],
  ['returned pairs and fields against a brute force comparison'])

p('C28', 'Calculations leave their inputs alone and are repeatable, also across threads',
  'Calling any solver, query or generator does not modify the boreholes, fields, networks, arrays or lists given to it, and repeating a calculation with the same inputs in one process gives the same numbers. Calculations on separate objects running at the same time in several threads return what they return one after another.',
  [H, S, I], 'all public calculations, repeated, interleaved and run concurrently with injected delays',
  'Tests never compare inputs before and after nor run calculations concurrently.',
  [GF, BS, EQ, NW, PI, BF], [('solver set-up', BS + ':114'), ('network modification in equivalent solver', EQ + ':835'), ('shared resistance table', PI + ':2787-2973')],
  ['deep snapshots of arguments around calls; results of concurrent against sequential runs'])

p('C29', 'Shortcut and deprecated entry points give the same results as the main ones',
  'Creating networks and g-functions directly from scalar and array design parameters gives the same results as building boreholes, pipes and networks explicitly with the same fluid at the same temperature, for every pipe type. Evaluating from a bore field object and the deprecated field and g-function functions returns what the current interface returns for the same input.',
  [I, C], 'pipe types, fluids, concentrations and temperatures, boundary conditions, layouts',
  'Tests use one default fluid temperature and compare stored values.',
  [GF, NW, BF, BH], [('gFunction.from_static_params', GF + ':289'), ('Network.from_static_params', NW + ':107'), ('Borefield.evaluate_g_function', BF + ':146'), ('deprecated functions', GF + ':1508-1937'), ('deprecated layouts', BH + ':697-1356')],
  ['results of both entry points'])
p('C30', 'Solver options change a g-function only as documented',
  'Options left out equal their documented defaults; a number of segments equals the list repeating it; uniform, array, list and callable length ratios of one discretization, lists, bore field objects and single boreholes, a single time and an array of one, with or without progress messages and stored profiles, all give the same g-function. Single precision, the line source approximation and the order of the quadrature change it only within their accuracy, and the interpolation kind not at all on evenly spaced times. Refining the segments never raises the uniform-temperature g-function of a single time step, and a given linearization threshold makes the g-function proportional to time below it and leaves it unaffected above.',
  [I], 'random fields and networks, three methods, three boundary conditions, options and discretizations',
  'Tests use a handful of option combinations with stored values.',
  [GF], [('gFunction.__init__ and evaluate_g_function', GF + ':247'), ('_BaseSolver.__init__ and solve', 'pygfunction/solvers/_base_solver.py:114')],
  ['g-functions computed in several ways from the same field'])
p('C31', 'Whole numbers and floats of the same value give the same results',
  'Wherever a dimension, position, time, load, temperature, flow rate, conductivity or concentration is accepted, giving it as a Python or numpy integer, alone or in an array, or mixing integers and floats, gives the result of the same value as a float (single network flow rates of g-functions are documented as floats). This holds for line sources, g-functions, boreholes, bore fields, pipes, networks, load aggregation and utilities.',
  [I], 'random whole-numbered inputs in Python and numpy number types',
  'Tests give one type per input; truncation in an integer array shows only for particular types and values.',
  [HT, BH, BF, GF, LA, UT, PI, NW], [('finite_line_source', HT + ':10'), ('Borefield.__init__', BF + ':1'), ('next_time_step', LA + ':1')],
  ['results of the same calculation in several number types'])

p('C32', 'Drawings and printed forms show the actual geometry',
  'Circles, lines, points and labels of the drawings of pipes and bore fields lie at the positions, radii, depths and tilts of the boreholes and pipes drawn, whatever their number, type and options, and drawing changes nothing in them. The method and the function of a drawing give the same one. Printed forms of boreholes and fluids read back to the values of the object, and stored fluids keep all their properties.',
  [I, C], 'boreholes, fields and pipes of every type and number, drawing options and styles',
  'No test looks at what is drawn or printed; the tests only build figures for a few cases.',
  [BH, BF, PI, ME], [('visualize_field', BH + ':1356'), ('visualize_pipes', PI + ':700'), ('Borehole.__repr__', BH + ':40'), ('Fluid.__repr__', ME + ':58')],
  ['artists of the figures returned, strings returned'])
p('C33', 'From loads to fluid temperatures the chained calculations are one simulation',
  'Building the g-function at the times of a load aggregation scheme, aggregating the loads and computing fluid temperatures from the wall temperature gives the temperatures of the coupled simulation of the same field, segment by segment and step by step, for any load history, scheme, boundary condition, solver and connections. Fluid temperatures balance the load at each time step, in total and in each borehole; reversing the loads reverses temperature changes; an idle field exchanges no heat.',
  [I, C, H], 'fields, networks, schemes and load histories',
  'Tests cover each calculation apart against stored values; what they give together is never compared with a simulation of the field.',
  [GF, LA, NW, BS], [('gFunction', GF + ':247'), ('load aggregation schemes', LA + ':8'), ('Network queries', NW + ':210'), ('_BaseSolver.solve', BS + ':114')],
  ['wall and fluid temperatures at every time step'])
p('C34', 'Results are finite and within physical bounds over all physical inputs',
  'For boreholes, spacings, buried depths, diffusivities, times, conductivities and flow rates anywhere in their physical range, very different ones together included, every calculation of responses, g-functions, thermal resistances and convection coefficients finishes in reasonable time. Results are finite and within physical bounds: responses between zero and steady state, g-functions not decreasing with time, resistances positive. Scalar, array, list and vectorized forms agree at the extremes too.',
  [I, C], 'dimensions, properties, times and flow rates over decades',
  'Tests use boreholes of usual dimensions at usual times; failed quadratures and overflows lie at the extremes.',
  [HT, GF, PI, UT], [('finite line source functions', HT + ':10'), ('_integrate', HT + ':1088'), ('gFunction.evaluate_g_function', GF + ':247'), ('thermal_resistances', PI + ':2787'), ('convective_heat_transfer_coefficient_circular_pipe', PI + ':2976')],
  ['results, their bounds and the time they take'])

for q in P:
    assert len(q['title']) <= 80, (q['id'], len(q['title']))
    import re
    assert len(re.findall(r'[.!?](?:\s|$)', q['statement'])) <= 3, q['id']
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for q in P:
        f.write(json.dumps(q) + '\n')
print(len(P))
