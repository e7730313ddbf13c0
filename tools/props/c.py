PROPS = [
dict(id='C01', title='Date arithmetic is exact modular arithmetic on the 365-day year',
 statement='Every date (month, day, hour) corresponds to one instant of a 365-day year: converting to a day-of-year number and back, comparing, subtracting, interpolating, printing, serialising and converting to and from a calendar date-time of a given year all agree with that instant. Adding any non-negative number of days, hours, minutes or seconds moves the instant forward by exactly that amount modulo the year, and always produces a valid month, day and hour.',
 over=['inputs'], quant='every day of the year, every time of day, every non-negative amount added (including amounts longer than a month, 255 days or a year), every pair of dates',
 why='The tests add a handful of amounts to a handful of dates; carries depend on the start day, month length and size of the amount, so only the full product of days and amounts settles it.',
 files=['calendar/src/date.rs'], mech=[('carry over months and years','Date::add_days, Date::add_hours'),('day number tables','Date::day_of_year, Date::from_day_of_year'),('order','Ord for Date'),('conversion','into_naive_datetime, From<NaiveDateTime>')],
 observe='public API of the calendar crate',
 technique='explicit enumeration of (date, operation, amount) states of the real code against an integer model of the 365-day year',
 note='exhaustive over all 365 days x stated grids of hours, amounts 0..800 days (4000 thorough); times of day are a grid, not all floats'),
dict(id='C02', title='A period enumerates exactly its steps, also across new year, and ends',
 statement='Iterating a period from a start to an end date with a positive step shorter than a year yields, in order, every instant start plus k steps (k = 1, 2, ...) that does not lie after the end and then ends for good, also when the period runs through new year. A date is reported as contained in a period exactly when it lies between the start and the end, going through new year when the end precedes the start.',
 over=['histories','inputs'], quant='every start, end and step; every prefix of the iteration',
 why='The tests iterate four periods; termination depends on how the last step falls relative to new year and to the end.',
 files=['calendar/src/period.rs','calendar/src/date.rs'], mech=[('iteration and stop rule','Iterator for Period'),('membership','Period::contains')],
 observe='public API of the calendar crate',
 technique='explicit-state exploration: every iteration history of the real iterator over all pairs of boundary instants and steps is replayed against an exact integer model',
 note='all ordered pairs of 75 instants (quick; ~230 thorough) x 13 steps up to 363 days, complete histories'),
]
