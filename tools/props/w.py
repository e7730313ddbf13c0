PROPS=[
dict(id='W01', title='The sun stands where solar geometry puts it',
 statement='For every place on the map (east positive longitudes, time zone) and every clock time of the year, the sun direction is the one given by declination, latitude and hour angle (east-north-up), and there is no sun exactly when it is below the horizon, including polar days and nights and around the new year. Clock and solar time convert into each other consistently, and sunrise and sunset are symmetric about solar noon.',
 over=['inputs'], quant='all places, time zones, days and hours',
 why='Sign and wrap-around mistakes only show in some hemisphere, season or hour.',
 files=['weather/src/solar/mod.rs','weather/src/location.rs','calendar/src/date.rs'], mech=[('position','Solar::sun_position, sunrise_sunset, hour_angle'),('time','unwrap_solar_time, unwrap_standard_time'),('place','Location::get_solar')], observe='public API of the weather crate',
 technique='exhaustive enumeration of latitudes x longitudes x time zones x days x hours on the real code against an independent vector formula', note='directions within 0.8 degrees of the vertical may be reported vertical; the poles are not judged'),
dict(id='W02', title='The sky patches tile the dome',
 statement='For every subdivision of the sky, each direction belongs to exactly the patch whose altitude band and azimuth range contain it, the centre of a patch belongs to that patch, and each patch has its true solid angle, adding up to the hemisphere with the ground as the other one. Patch numbers past the end are refused.',
 over=['inputs'], quant='all subdivisions, patches and directions',
 why='Rounding at band limits and at north moves single directions into the wrong patch.',
 files=['weather/src/solar/reinhart_sky.rs'], mech=[('direction to patch','dir_to_bin'),('patch to direction','bin_dir'),('size','bin_solid_angle')], observe='public API of the weather crate',
 technique='exhaustive enumeration of all patches of all subdivisions up to 12 and a grid of directions in each on the real code against an independent layout', note=''),
dict(id='W03', title='Weather files are read field by field or refused, and interpolated all year',
 statement='Every field of every record of an EPW file reaches its own quantity in the right unit, and a file that is malformed (bad numbers, missing or extra fields, impossible dates, unsupported headers, cut short anywhere) is refused or read up to whole records, never misread and never a crash. Weather asked at any instant of the year is the record of that instant or the linear interpolation between the records before and after, around the new year too, with the wind turning the short way round.',
 over=['inputs','crash_points'], quant='all files, malformations, truncation points, record sets and instants',
 why='Misplaced fields and year-end instants need particular files and dates.',
 files=['weather/src/epw/scanner.rs','weather/src/epw/weather_line.rs','weather/src/epw/weather.rs','weather/src/lib.rs','weather/src/current_weather.rs'], mech=[('scanner','EPWScanner'),('conversion','From<&EPWWeatherLine> for CurrentWeather'),('lookup','Weather::find_weather_line, CurrentWeather::interpolate')], observe='public API of the weather crate, files in a scratch directory',
 technique='exhaustive enumeration of field mutations, all truncation points, all short token sequences, all subsets of record times on the real code against an independent reader and circular interpolation', note='a cut inside the last number of a record is not told from a complete one'),
dict(id='W04', title='The sky model returns the radiation it was given',
 statement='For every sun position and pair of diffuse and direct radiation, the sky vector is non-negative, gives back the diffuse radiation on the horizontal plane and the direct radiation facing the sun, places the sun in the patches around it and the reflected light in the ground, is the sum of its parts and dark at night. Updating a vector does not depend on what it held, and the continuous sky is that of the all-weather model of Perez, non-negative, symmetric about the solar meridian and continuous at the sun.',
 over=['inputs','histories'], quant='all instants, radiation pairs, subdivisions, options and previous contents',
 why='Degenerate skies and exact alignments with the sun occur for isolated inputs only.',
 files=['weather/src/solar/perez.rs','weather/src/solar/mod.rs'], mech=[('vector','PerezSky::gen_sky_vec, update_sky_vec'),('function','get_sky_func_standard_time'),('coefficients','calc_params, clearness_category, air_mass')], observe='public API of the weather crate',
 technique='exhaustive enumeration of instants x radiation x options on the real code against conservation laws', note='for subdivisions above one the diffuse total is judged within 20 percent and with the sun above 9 degrees, since the code normalises on the coarse sky'),
dict(id='W05', title='Radiation estimated from clouds is consistent and depends on clouds alone',
 statement='Filling a weather record series from its cloud cover gives finite values, not negative, none at night, the global radiation equal to the diffuse plus the horizontal part of the direct and the direct below the extraterrestrial. The direct part is that of the published decomposition (the coefficient of the bins of clearness, zenith, water and variability among the neighbouring hours, on top of DISC). The result does not depend on radiation held before, so filling twice changes nothing.',
 over=['inputs','histories'], quant='all places, days, cover patterns, weather and previous contents',
 why='Only particular neighbouring records and sun heights reach each coefficient bin.',
 files=['weather/src/lib.rs','weather/src/solar/mod.rs'], mech=[('series','Weather::fill_solar_radiation_data'),('model','direct_diffuse_from_cloud_generic, perez_direct_normal_radiation, disc_direct_solar')], observe='public API of the weather crate',
 technique='exhaustive enumeration of places x days x cover, humidity, wind, temperature and pressure patterns x previous contents, and of clearness, neighbours, dew points and pressures, on the real code against a table of coefficients', note='whether the first constant of the clear-sky limit of DISC is 0.866 or 0.886 is not judged, nor the ends of a series'),
dict(id='P01', title='Polynomials, schedules and synthetic weather are what they describe',
 statement='A polynomial holds the coefficients that it was given, in order and up to twelve, and its value anywhere is that of its coefficients; a thirteenth is refused. Weather made of any set of schedules reports for every date what each schedule says for it, and the documented default for the absent ones.',
 over=['inputs','histories'], quant='all sequences of coefficients, sets of schedules and dates',
 why='Only one combination of fields reveals that two of them are exchanged, or a default used for the wrong one.',
 files=['polynomial/src/lib.rs','schedule/src/constant.rs','schedule/src/empty_schedule.rs','weather/src/synthetic_weather.rs'], mech=[('polynomials','Polynomial::push, eval, poly!'),('weather','SyntheticWeather::get_weather_data')], observe='public API of the polynomial, schedule and weather crates',
 technique='exhaustive enumeration of coefficient sequences and of all subsets of schedules on the real code against Horner evaluation and the schedules themselves', note=''),
]
