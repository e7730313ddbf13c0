PROPS=[
dict(id='L01', title='Infrared radiation of every side is that of what it sees',
 statement='For every orientation, obstacle, boundary and weather, the infrared irradiance of each side of a wall or window is that of its view factors to sky, ground and objects times their radiance, with the view factors that its geometry gives and adding up to one. Indoor, ambient and buried sides see surroundings at the temperature of their boundary, and each wall writes its own state only.',
 over=['inputs'], quant='all tilts and azimuths on a grid, obstacles by size, distance and direction, pairs of boundaries, temperatures and sky states',
 why='Swapped sides, and rays sent the wrong way, cancel in the symmetric scenes of tests.',
 files=['light/src/solar_surface.rs','light/src/solar_model.rs'], mech=[('view factors','SolarSurface::calc_view_factors'),('irradiance','update_ir_radiation, SolarModel::march')], observe='public API of the light crate, and the state',
 technique='exhaustive enumeration of orientations, obstacles, boundaries and weathers through the real SolarModel against analytic view factors; tolerances cover 7 sigma of the Monte Carlo error', note='the library samples rays at random, which widens tolerances; it is not a source of alarms'),
dict(id='L02', title='Solar radiation reaches the sides that face the sun and sky, when they do',
 statement='For every place, date, hour, sky, orientation and sky subdivision, the solar irradiance of each outdoor side agrees with integrating the sky and sun in front of it, is zero at night and behind or within opaque obstacles, and enters rooms through windows only. Every step stores the mean of the new value and the old one, for every sequence of steps.',
 over=['inputs','histories'], quant='all directions, places, dates, hours and skies on a grid; all sequences of four steps',
 why='Mistaken signs of azimuth, latitude and time only show in some quadrants, hours and hemispheres.',
 files=['light/src/solar_model.rs','light/src/solar_surface.rs','light/src/optical_info.rs'], mech=[('optics','OpticalInfo'),('irradiance','SolarModel::march, update_solar_radiation')], observe='public API of the light crate, and the state',
 technique='exhaustive enumeration of orientations, places, times, skies and sequences of steps through the real SolarModel against an own sun position and integration of the sky', note='the library samples rays at random, which widens tolerances; the Perez model itself is decided by W05'),
dict(id='L03', title='Optical data is reused only when whole and of the model at hand',
 statement='A model that reads its optical data from a file, whoever wrote it, gives the same results as the one that calculated it. For every cut of that file, and every missing byte, the file is refused or understood as data of the right shape; and data of another model, with other surfaces, is refused rather than used or crashed by.',
 over=['crash_points','inputs'], quant='all numbers of walls and windows, sky subdivisions, cuts and missing bytes of the file, pairs of models',
 why='Truncations that still parse, and pairs of models that nearly match, are few among very many.',
 files=['light/src/solar_model.rs','light/src/optical_info.rs'], mech=[('cache','SolarModel::new with optical_data_path'),('data','OpticalInfo')], observe='public API of the light crate, and the file',
 technique='exhaustive enumeration of models, of all torn states of the real file and of pairs of models on the real code', note='an edit of the file that is still complete data of the right shape cannot be told from data of another run'),
]
