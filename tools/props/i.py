PROPS=[
dict(id='I01', title='Infiltration follows the models it is set to, for every building and weather',
 statement='For every kind of infiltration, building, terrain and weather, each space gets the volume of outdoor air that its documented model (constant, Blast, DOE-2, design flow, effective leakage area) gives for its own indoor temperature and the wind that its site sees, at the outdoor temperature. Spaces without infiltration are left untouched, and missing data is refused instead of assumed.',
 over=['inputs'], quant='all combinations of kinds in up to three spaces, terrains, storeys, shelter classes, coefficients and weathers',
 why='Coefficients and spaces that are mixed up give plausible numbers in models of one space.',
 files=['air/src/air_model.rs','air/src/eplus.rs','air/src/resolvers.rs'] , mech=[('rates','blast_design_flow_rate, doe2_design_flow_rate, effective_leakage_area'),('dispatch','AirFlowModel::new, march, the resolvers'),('coefficients','resolve_stack_coefficient, resolve_wind_coefficient')], observe='public API of the air crate',
 technique='exhaustive enumeration of kinds, spaces, sites, buildings and weathers through the real AirFlowModel against independent formulas', note=''),
]
