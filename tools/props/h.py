PROPS=[
dict(id='H01', title='Discretising a construction keeps its mass, resistance and layers',
 statement='For every construction of solid and gas layers, the discretised elements carry the thermal mass, resistance, gaps and order of its layers, and the nodes are split completely into those with and without mass. The elements and substeps chosen keep the march stable for the requested timestep, divide it exactly, and no layer loses its mass when a reasonable timestep suits it.',
 over=['inputs'], quant='all stacks of layers, thicknesses and timesteps',
 why='Which scheme a layer gets depends on its material, thickness and the timestep together.',
 files=['heat/src/discretization.rs','heat/src/gas.rs','heat/src/cavity.rs'], mech=[('scheme','Discretization::new, discretize_construction'),('segments','build, UValue, tstep_subdivision')], observe='public API of the heat crate',
 technique='exhaustive enumeration of all stacks of up to three layers of a material alphabet x thicknesses x timesteps on the real code against sums over the layers', note=''),
dict(id='H02', title='Glazing absorbs, reflects and transmits all of the light, where it does',
 statement='For every stack of panes, transmitted, reflected and absorbed fractions are between 0 and 1, add up to one for light coming from either side and equal those of the multiple-reflection balance of the stack, with the absorption of each pane in its own place. Radiation on either side of an opaque wall is absorbed by the outer layer of that side with its own absorptance.',
 over=['inputs'], quant='all stacks of panes with different faces, both sides',
 why='Wrong indices and swapped faces cancel for the symmetric one- and two-pane cases tests use.',
 files=['heat/src/glazing.rs','heat/src/discretization.rs','heat/src/surface.rs'], mech=[('optics','Glazing::combined_layers, alphas'),('placement','ThermalSurfaceData::new front/back alphas')], observe='public API of the heat crate',
 technique='exhaustive enumeration of all pane stacks up to five panes on the real code against a linear solution of the multiple-reflection balance', note='mixtures of translucent and opaque layers without a gas are not supported by the library and are not judged'),
dict(id='H03', title='Walls march by the heat balance and settle at its solution',
 statement='For every wall or window, pair of boundaries and environment, one step changes the heat stored in the wall by exactly what crosses its two faces plus absorbed radiation, and no node leaves the range of temperatures around it without radiation. A wall reversed together with its surroundings behaves the same, the result is never NaN, and under constant conditions it settles at the steady solution of the heat balance.',
 over=['inputs','histories'], quant='all walls, boundaries, environments and initial temperatures; histories of days',
 why='Instability, sign and mirror errors show for particular layers, boundaries and sides only.',
 files=['heat/src/surface.rs','heat/src/discretization.rs','heat/src/heat_model.rs'], mech=[('march','ThermalSurfaceData::march, march_mass, march_nomass, rk4'),('matrices','Discretization::get_k_q')], observe='public API of the heat crate on models built for each case',
 technique='exhaustive enumeration of walls x boundaries x orientations x environments x initial states on the real march against an independent heat balance, mirror images and steady solutions', note='thin metal bonded to massive layers is a known finding'),
dict(id='H04', title='Every face meets the conditions of its own side',
 statement='The air temperature, radiation, wind and convection that each face of each surface uses are those of the side it faces (space, outdoors, ground, fixed temperature or adiabatic), with convection turned over when the face or the heat flow is. Convection in surfaces and gas cavities is finite, positive, and is that of the correlation for its tilt, direction of heat flow and gas at every Rayleigh number, wind and terrain.',
 over=['inputs'], quant='all tilts, boundary pairs, temperatures, winds, terrains, gases and thicknesses',
 why='Exact Rayleigh limits, upside-down faces and unusual boundary pairs are single points nobody samples.',
 files=['heat/src/surface.rs','heat/src/convection.rs','heat/src/cavity.rs','heat/src/gas.rs'], mech=[('border conditions','calc_border_conditions'),('convection','ConvectionParams, Cavity::u_value, Gas::nusselt'),('wind','is_windward, wind_speed_modifier')], observe='public API of the heat crate',
 technique='exhaustive enumeration of tilts x boundaries x temperatures x winds x terrains x gases x every representable thickness around correlation limits on the real code against independently written correlations', note=''),
dict(id='H05', title='Spaces obey their heat balance',
 statement='For every building of spaces, surfaces, windows, heaters, lights, infiltration and ventilation, one step takes the air of each space to the analytic solution of its heat balance, counting each adjacent face once per side and each gain in its own space. With everything at one temperature and no gains nothing changes, and an isolated space only changes through its own gains.',
 over=['inputs','histories'], quant='all placements of walls among spaces, gains, air flows, temperatures and weathers',
 why='A contribution given to the wrong side or space needs asymmetric topologies to be seen.',
 files=['heat/src/heat_model.rs','heat/src/zone.rs','heat/src/heating_cooling.rs','heat/src/luminaire.rs'], mech=[('balance','calculate_zones_abc'),('solution','estimate_zones_future_temperatures'),('step','ThermalModel::march')], observe='public API of the heat crate on models built for each case',
 technique='exhaustive enumeration of all placements of two walls in three spaces x gains x air flows x temperatures x weathers on the real step against an independent balance', note=''),
]
