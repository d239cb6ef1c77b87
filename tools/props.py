#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json.  Run after editing; not run by checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "crates/qlab-time/src/"
M = "crates/qlab-math/src/"
C = "third-parties/calendar/src/"
P = []

def prop(id, title, statement, over, quant, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe))

COMMON = (" Trusted: the reference model in /verif/harness/src (written independently of the code), rustc, and the "
          "enumerated bound printed in the evidence file; nothing is sampled.")

prop("C01", "Dates follow the proleptic Gregorian calendar",
 "A year, month and day yield a date exactly when they name a real day of the proleptic Gregorian calendar inside the supported range (1 January of year -262143 to 31 December of year 262142), and the date then reports that same year, month and day, the correct leap-year answer, a serial number that is 1 on 1 January of year 1 and grows by one every day, and, for years 0 to 9999, the text YYYY-MM-DD. The next and the previous day of a date are its neighbours in the calendar and are absent only at the two ends of the range. Dates are ordered, equal and hashed chronologically.",
 ["inputs"], "every date of the supported range (191 million), every month/day combination including invalid ones, extreme numeric arguments",
 "the tests look at about ten dates; leap centuries, negative years, month ends and the ends of the range are not visited",
 [T + "date.rs"],
 [("construction and accessors", T + "date.rs Date::from_ymd, year, month, day, leap_year, serial_date"), ("neighbours", T + "date.rs succ_opt, pred_opt")],
 "exhaustive state-space walk of the real date type along its successor relation, against a reference civil calendar",
 "Every reachable state of the succ/pred machine in the stated year range is visited (thorough: the whole supported range)." + COMMON)

prop("C02", "Day arithmetic is exact and total",
 "Adding n days to a date gives the date n days later and subtracting n gives the date n days earlier, for every non-negative n, and the result is absent exactly when that day lies outside the supported range. The difference of two dates is the signed number of days between them, so it is antisymmetric, additive and undone by adding it back. No amount, however large, makes these operations fail in any other way.",
 ["inputs"], "all dates of two centuries x all day counts up to several years, all pairs of dates in windows, and the numeric extremes at both ends of the range",
 "two test cases exist, both a two-day move over the end of one February",
 [T + "date.rs", T + "period/days.rs"],
 [("day shifts", T + "date.rs checked_add_days, checked_sub_days"), ("difference", T + "date.rs impl Sub"), ("period dispatch", T + "period/days.rs")],
 "exhaustive enumeration of (date, shift) transitions on the real code against a reference civil calendar",
 "Exhaustive over the dates x shifts stated in the evidence, plus every boundary shift that just reaches or just leaves the range." + COMMON)

prop("C03", "Month and year shifts keep the day or clamp to the month's end",
 "Moving a date by n months forward or backward, or by n years of either sign, lands in the month that lies n months (12 n months) away, on the same day of the month, or on the last day of that month when it is shorter. The result is absent exactly when that month lies outside the supported range. No value of n makes the operation panic or wrap around.",
 ["inputs"], "every date of a full 400-year cycle x month counts over decades, all dates near the ends of the range, and extreme counts of either sign",
 "four cases are tested; century leap years, backward clamping, negative years and the numeric limits are not",
 [T + "date.rs", T + "period/months.rs", T + "period/years.rs"],
 [("month shift", T + "date.rs checked_add_months, checked_sub_months"), ("year shift", T + "date.rs checked_add_years"), ("period dispatch", T + "period/months.rs, period/years.rs")],
 "exhaustive enumeration of (date, shift) transitions on the real code against a reference civil calendar",
 "Exhaustive over a complete 400-year Gregorian cycle, so every (leap state, month, day) combination is reached for every shift in the bound." + COMMON)

prop("C04", "Weekend payment dates move to the following Monday",
 "Rolling a date off the weekend returns the date itself when it falls on Monday to Friday, and the following Monday when it falls on Saturday or Sunday. The result is absent only when that Monday lies beyond the supported range. It never depends on the month or year in which the date falls.",
 ["inputs"], "every date of the supported range",
 "one Saturday and one Sunday of March 2023 are tested; month ends, year ends and weekdays are not",
 [T + "date.rs"],
 [("weekend roll", T + "date.rs weekend_roll")],
 "exhaustive enumeration of every date on the real code against a reference weekday count",
 "Exhaustive over all dates (quick: years 1200 to 2800 and the ends of the range; thorough: the whole range)." + COMMON)

prop("C05", "Business-day conventions roll a moved date to the right business day",
 "Rolling a date by a period of days, months or years, or one the user defines, first moves it by that period; the unadjusted convention returns the moved date, following the first business day on or after it, and preceding the last business day on or before it. The modified conventions do the same unless that leaves the calendar month of the moved date, in which case they roll the other way from the moved date. The answer depends only on which days the calendar calls business days, and is absent when the moved date or the day searched for lies outside the supported range.",
 ["inputs", "configurations"], "every holiday pattern in a window around month, year and leap-day boundaries x every target date x 5 conventions x 3 kinds of period, closures longer than a month, and every real market calendar on every date",
 "the tests roll a handful of dates on one calendar; holiday clusters across month ends, where the modified conventions differ, are not enumerated",
 [T + "date.rs", T + "date_rolling.rs", T + "period.rs"],
 [("rolling", T + "date.rs checked_roll"), ("conventions", T + "date_rolling.rs DateRolling")],
 "exhaustive enumeration of all holiday patterns (an environment that answers each is-business-day question either way) against a reference roll",
 "All 2^W environment answers around the target are explored, so every search path of the real code within the window is executed." + COMMON)

prop("C06", "Day count fractions follow their published definitions",
 "The actual/360 and actual/365 fractions are the signed number of days between two dates divided by 360 and by 365. The 30/360 fraction of two dates in order is 360 times the difference of years plus 30 times the difference of months plus the difference of days, where each day number above 30 counts as 30, all divided by 360; for dates in the wrong order it reports an invalid-input error. The results are the same in single and double precision up to rounding, and no pair of dates makes them panic.",
 ["inputs"], "all ordered and reversed pairs of dates in windows of several years, all dates against a set of anchors across the range, in single, double and exact rational precision",
 "each convention is tested on a couple of pairs; month-end and reversed pairs are not covered",
 [T + "day_count/act_360.rs", T + "day_count/act_365.rs", T + "day_count/thirty_360.rs"],
 [("actual counts", T + "day_count/act_360.rs, act_365.rs"), ("30/360", T + "day_count/thirty_360.rs date_diff")],
 "exhaustive enumeration of date pairs on the real code, run over exact rationals and floats, against the textbook formulas",
 "Exhaustive over the pairs stated in the evidence; run over exact rational numbers the comparison has no tolerance." + COMMON)

prop("C07", "Every market calendar respects its weekend and gives one consistent answer",
 "In every market calendar no weekend day (Saturday and Sunday; Friday and Saturday in Israel) is a business day, except the published working weekends of the Moscow exchange in 2012, 2016 and 2018, and the weekends-only calendar closes on no other day. Every day that can be asked about is answered, and is a holiday exactly when it is not a business day; so is it in a calendar of the user's own that only says which days are business days. Asking through the library's own date type gives the same two answers as asking the market calendar directly.",
 ["inputs", "configurations"], "every shipped market variant x every day from 1901 to 2199",
 "the calendar tests check a few listed dates; nothing enumerates weekends, the complement, or the adapter",
 [C + "lib.rs", T + "calendar.rs", C + "weekendsonly.rs", C + "israel.rs", C + "russia.rs"],
 [("weekend rule", C + "lib.rs is_weekend"), ("complement", C + "lib.rs is_holiday"), ("adapter", T + "calendar.rs impl Calendar for C")],
 "exhaustive enumeration of all (market, day) states of the real calendars",
 "Every shipped market variant on every day of 1901-2199." + COMMON)

prop("C08", "Easter is the ecclesiastical Easter of each church",
 "For every year from 1901 to 2199 the Easter Monday that calendars work with is the day after Western Easter Sunday as given by the Gregorian computus, and the Orthodox Easter Monday is the day after Orthodox Easter Sunday as given by the Julian computus converted to the civil calendar, each stated as the day of the year. Every calendar, including a combination of calendars, gives the same answer. Markets that close around Easter therefore close on the right days: those listing Good Friday two days before, those listing Easter Monday one day after.",
 ["inputs"], "all 299 years x both churches x every shipped calendar",
 "the two tables hold 598 numbers and the tests touch a handful of years",
 [C + "lib.rs"],
 [("tables", C + "lib.rs EASTER_MONDAY, ORTHODOX_EASTER_MONDAY"), ("lookup", C + "lib.rs easter_monday, orthodox_easter_monday")],
 "exhaustive enumeration of all years and calendars against the two computus algorithms",
 "Complete: all years the tables cover, through every calendar, and the market closings that follow from them." + COMMON)

for cid, region, files, ex in [
  ("C09", "European", ["austria", "czechrepublic", "denmark", "finland", "france", "germany", "hungary", "iceland", "italy", "norway", "poland", "romania", "russia", "slovakia", "sweden", "switzerland", "target", "ukraine", "unitedkingdom"], "European markets (including TARGET, Russia and Ukraine)"),
  ("C10", "American", ["argentina", "brazil", "canada", "chile", "mexico", "unitedstates"], "markets of the Americas (including the New York exchange, government bond, SOFR, LIBOR, NERC and Federal Reserve variants)"),
  ("C11", "Asian, Pacific, African and Mideast", ["australia", "botswana", "china", "hongkong", "india", "indonesia", "israel", "japan", "newzealand", "singapore", "southafrica", "southkorea", "taiwan", "thailand", "turkey", "weekendsonly"], "Asian, Pacific, African and Middle Eastern markets")]:
  prop(cid, f"{region} calendars close exactly on their holidays",
   f"For the {ex}, a day from 1901 to 2199 is a business day exactly when it is neither a weekend day nor one of that market's published holidays. Each holiday keeps its own rule in every year: a fixed date, an n-th weekday, a move to another day when it falls on a weekend, a distance from Western or Orthodox Easter or from an equinox, the years in which it is observed, and one-off closings. A country asked for without naming a market answers like its default market.",
   ["inputs", "configurations"], "every market variant of the region x all 109,207 days from 1901 to 2199",
   "the tests list the holidays of a few markets for one or two years; the rules hold for 299 years, and moved holidays need particular weekday alignments",
   [C + f + ".rs" for f in files],
   [("holiday rules", "is_business_day of each calendar in " + C), ("default market", "the market dispatch of each multi-market calendar")],
   "exhaustive enumeration of all (market, day) states against declarative holiday rules compiled day by day",
   "Complete over 1901-2199. The rule files were written from published holiday definitions and reconciled with the code; announced lunar and one-off dates are recorded facts cross-checked with ICU's calendars. France's settlement calendar has a known finding (fixed instead of movable Ascension and Whit Monday)." .replace(" France's settlement calendar has a known finding (fixed instead of movable Ascension and Whit Monday).", " France's settlement calendar has a known finding (fixed instead of movable Ascension and Whit Monday)." if cid == "C09" else "") + COMMON)

prop("C12", "A joint calendar is open exactly when all of its markets are",
 "A combination of two calendars calls a day a business day exactly when both of them do, and a holiday otherwise. This holds for combinations of combinations, does not depend on the order in which the calendars are combined, and combining a calendar with itself changes nothing. Counting, month-end and rolling questions put to a combination follow the combined business days.",
 ["inputs", "configurations"], "all ordered pairs of market calendars x every day, all ordered triples of a representative subset in both nestings, all small artificial calendars",
 "one test of one pair on a few days exists",
 [C + "jointcalendar.rs", C + "lib.rs"],
 [("conjunction", C + "jointcalendar.rs is_business_day")],
 "exhaustive enumeration of calendar pairs, nestings and days on the real code",
 "All ordered pairs of shipped calendars on every day of the stated years, all artificial holiday patterns over a short window." + COMMON)

prop("C13", "Month-end questions return the last day and the last business day of the month",
 "For every calendar and day, the last day of the month is the last calendar day of that day's month, leap Februaries included. The end of the month is the last business day on or before it, whichever holidays fall there. Neither answer depends on which day of the month is asked about.",
 ["inputs", "configurations"], "every market x every day from 1901 to 2199, every holiday pattern in the last days of a month, months closed entirely",
 "a couple of dates on one calendar are tested",
 [C + "lib.rs"],
 [("last day", C + "lib.rs last_day_of_month"), ("last business day", C + "lib.rs end_of_month")],
 "exhaustive enumeration of (market, day) states and of all holiday patterns near month ends",
 "Complete over 1901-2199 for the shipped markets; all 2^W patterns before the month end for artificial ones." + COMMON)

prop("C14", "Business-day counts equal counting the days one by one",
 "The number of business days between two dates is the number of business days from the first to the second, counting the first unless told not to and not counting the second unless told to. Exchanging two different dates negates the count taken with the same options. Counts over adjoining intervals therefore add up, and an empty interval counts zero, without any input failing.",
 ["inputs", "configurations"], "all pairs of dates in a window x 9 option combinations x all holiday patterns of the window, and market calendars over years",
 "the tests count one April on the London calendar with default options, forwards and backwards",
 [C + "lib.rs"],
 [("counting", C + "lib.rs business_days_between")],
 "exhaustive enumeration of all holiday patterns, date pairs and options of a window against a one-by-one count",
 "All patterns of a short window, all pairs, all options; market calendars over the stated spans." + COMMON)

prop("C15", "Interpolators accept good data, report bad data and respect their range",
 "Fitting accepts points whose abscissae strictly ascend, and reports a point-order error for repeated or descending ones; too few points (fewer than two for linear and Hermite, fewer than three for natural cubic and Catmull-Rom) are reported as insufficient with their number, when fitting or, for linear, when first asked for a value. A value asked for inside the range of the abscissae, ends included, is returned, and one asked for below or above it is an out-of-lower or out-of-upper bound error that carries the requested abscissa. Every fitted curve passes through its points, and no sequence of finite points or requests panics.",
 ["inputs"], "all point sequences up to length 5 over a small grid, sorted or not, all requests on and between grid points and outside; long and uneven grids",
 "the tests fit sorted points and ask inside the range; unsorted, repeated and short inputs appear only in a few cases",
 [M + "interpolation.rs", M + "interpolation/linear.rs", M + "interpolation/spline/natural_cubic.rs", M + "interpolation/spline/catmull_rom.rs", M + "interpolation/spline/hermite.rs"],
 [("order check", M + "interpolation.rs validate_ascending"), ("segment search", M + "interpolation.rs find_index_at_left_boundary"), ("fit", "try_fit / try_new of each interpolator")],
 "exhaustive enumeration of all point sequences and requests of a bounded grid on the real code (exact rationals and floats)",
 "All sequences within the bound, so every ordering pattern and every position of the request relative to the knots." + COMMON)

prop("C16", "Linear interpolation is the straight line between neighbouring points",
 "Between two neighbouring points the linearly interpolated value is the value at that abscissa of the straight line joining them, whatever the spacing of the points. It never leaves the range of the two ordinates, and it depends on those two points alone. Single and double precision agree with the exact value up to rounding.",
 ["inputs"], "all data sets up to 6 points over small grids of abscissae and ordinates, all requests on a fine grid; long, uneven and large-scale data",
 "a single short data set is tested",
 [M + "interpolation/linear.rs", M + "interpolation.rs"],
 [("value", M + "interpolation/linear.rs try_value")],
 "exhaustive enumeration of small data sets on the real code over exact rationals, against the line through two points",
 "Exact (no tolerance) over rationals for all data sets in the bound; floats with rounding tolerance." + COMMON)

prop("C17", "The natural cubic spline is the unique natural spline through its points",
 "The fitted natural cubic spline passes through all points, is a cubic between neighbouring points, has continuous first and second derivatives at the inner points and zero second derivative at both ends. It therefore equals the one curve with these properties, for any number of points from three up and any spacing. Data on a straight line are reproduced as that line, and single and double precision agree with the exact value up to rounding.",
 ["inputs"], "all spacings and ordinate patterns up to 7 points from small alphabets, unit impulses on grids up to 40 points, requests on a fine grid",
 "one data set is tested; the linear system behind the fit is wrong in ways that only particular sizes expose",
 [M + "interpolation/spline/natural_cubic.rs", M + "linear_algebra/tridiagonal_matrix.rs"],
 [("moment equations", M + "interpolation/spline/natural_cubic.rs try_fit"), ("tridiagonal solve", M + "linear_algebra/tridiagonal_matrix.rs"), ("value", M + "interpolation/spline/natural_cubic.rs try_value")],
 "exhaustive enumeration of small data sets on the real code over exact rationals, against a dense exact solve of the spline conditions",
 "Exact over rationals for all data sets in the bound; unit impulses cover every linear combination at larger sizes because the spline is linear in its ordinates." + COMMON)

prop("C18", "Catmull-Rom curves use the chord slope at inner points",
 "The Catmull-Rom curve passes through all points; on each inner segment it is the cubic whose slope at either end is the slope of the chord between the two neighbours of that end. At the two outer points, which have one neighbour only, the slope is that of the line to that neighbour, so that reversing the data mirrors the curve. Data on a straight line are reproduced as that line, on any spacing, and single and double precision agree with the exact value up to rounding.",
 ["inputs"], "all spacings and ordinate patterns up to 6 points from small alphabets, unit impulses on longer grids, requests on a fine grid",
 "only evenly spaced data sets are tested, on which wrong chord lengths are invisible",
 [M + "interpolation/spline/catmull_rom.rs"],
 [("segment matrices", M + "interpolation/spline/catmull_rom.rs try_value")],
 "exhaustive enumeration of small data sets on the real code over exact rationals, against the Hermite form with chord slopes",
 "Exact over rationals. Known finding: the last segment of the current code uses a wrong chord for its left slope (value pinned by an existing test); it is matched exactly and everything else is still checked." + COMMON)

prop("C19", "Hermite curves match the given values and slopes at every point",
 "The Hermite curve is, between two neighbouring points, the unique cubic with the given ordinates and the given slopes at both ends, whatever the spacing. It therefore passes through all points, is continuously differentiable, and reproduces any cubic polynomial whose values and slopes are given. Single and double precision agree with the exact value up to rounding.",
 ["inputs"], "all data sets up to 4 points from small alphabets of spacings, ordinates and slopes, impulses on longer grids, requests on a fine grid",
 "one or two data sets are tested",
 [M + "interpolation/spline/hermite.rs"],
 [("segment value", M + "interpolation/spline/hermite.rs try_value")],
 "exhaustive enumeration of small data sets on the real code over exact rationals, against the cubic Hermite basis",
 "Exact (no tolerance) over rationals for all data sets in the bound." + COMMON)

prop("C20", "Discount factors come from the interpolated continuously compounded yield",
 "The discount factor between two dates is exp(t1*y1 - t2*y2), where t1 and t2 are the day count fractions from the curve's settlement date and y1 and y2 the yields interpolated there, with t1*y1 taken as zero when the first date is the settlement date. Discount factors therefore multiply along a chain of dates, and the factor from settlement to a quoted maturity is exp of minus its yield times its time. This holds for every day count, every interpolation method and both precisions.",
 ["inputs", "configurations"], "all date pairs of small windows x all curves from small alphabets of maturities and yields x 3 day counts and 2 written for the purpose x 4 interpolators x 2 precisions, and long curves",
 "one test with a constant yield exists",
 ["crates/qlab-termstructure/src/yield_curve.rs"],
 [("discount factor", "crates/qlab-termstructure/src/yield_curve.rs discount_factor"), ("fit", "crates/qlab-termstructure/src/yield_curve.rs YieldCurve::new")],
 "exhaustive enumeration of curves and date pairs on the real code against the discounting formula",
 "Exhaustive over the stated alphabets; compared to rounding tolerance because exp is a float function." + COMMON)

prop("C21", "Curves reject inconsistent data and dates with the right kind of error",
 "Building a curve fails with an invalid-input error when the numbers of maturities and yields differ, and with an interpolation error when the maturities are too few for the interpolation or not strictly ascending. Asking for a discount factor fails with an invalid-input error when the second date precedes the first or either precedes the settlement date, and with an interpolation error when a needed time lies outside the quoted maturities. Every other request on a curve that was built is answered with a number; nothing panics.",
 ["inputs", "configurations"], "all maturity lists (ordered or not, any length mismatch) and all date pairs of a small window x day counts x interpolators",
 "no error path of curve construction or discounting is tested",
 ["crates/qlab-termstructure/src/yield_curve.rs", "crates/qlab-error/src/lib.rs"],
 [("length check", "crates/qlab-termstructure/src/yield_curve.rs new"), ("date checks", "crates/qlab-termstructure/src/yield_curve.rs discount_factor"), ("error kinds", "crates/qlab-error/src/lib.rs")],
 "exhaustive enumeration of malformed and well-formed curves and requests on the real code against a reference verdict",
 "Exhaustive over all maturity sequences and date pairs of the window." + COMMON)

prop("C22", "Bonds pay the right coupons on the right dates",
 "A bond with issue date before first coupon date, first not after penultimate, and penultimate before maturity pays coupons every six months from the first coupon date up to and including the penultimate date, each due on the first coupon's day of the month (or the last day of a shorter month) and paid then or, on a weekend, the following Monday, and pays the face value plus the last coupon at maturity. A regular coupon is the annual rate times face value over two; the first coupon is scaled by days from issue over days of its regular period when short, and, when long, increased by the extra days over the days of the preceding regular period, and the last coupon likewise relative to the regular period after the penultimate date. A bond whose first coupon lies after the penultimate one is refused, and nothing panics.",
 ["inputs"], "all first coupon dates over a leap cycle x all stub lengths x several numbers of coupons, month ends included",
 "one bond with one schedule is tested, through its total value only",
 ["crates/qlab-instrument/src/bond.rs", T + "date.rs"],
 [("schedule", "crates/qlab-instrument/src/bond.rs Bond::new"), ("first coupon", "crates/qlab-instrument/src/bond.rs first_cash_flow"), ("last coupon", "crates/qlab-instrument/src/bond.rs final_cash_flow"), ("payment date", T + "date.rs weekend_roll")],
 "exhaustive enumeration of bond terms; each payment of the real bond is read back exactly through indicator discount curves over exact rationals",
 "Exact amounts and dates for every bond in the bound, against a reference schedule; the curve used to read them is a test double for the public interpolator interface." + COMMON)

prop("C23", "A bond is worth its outstanding payments discounted on the curve",
 "The value of a bond at a settlement date is the sum, over the payments whose due date lies after that date, of the amount times the curve's discount factor from that date to the payment date. Payments due on or before the settlement date contribute nothing, and a bond with none left is worth zero. When a discount factor it needs is unavailable the valuation reports that error, and it never fails otherwise.",
 ["inputs", "configurations"], "all settlement dates from before the first due date to after maturity x bonds x curves of every interpolation and day count, including curves that are too short",
 "one bond on one curve at one settlement date is tested",
 ["crates/qlab-instrument/src/bond.rs", "crates/qlab-termstructure/src/yield_curve.rs"],
 [("valuation", "crates/qlab-instrument/src/bond.rs discounted_value")],
 "exhaustive enumeration of (bond, curve, settlement date) on the real code against a reference present value",
 "Every day of the life of each bond in the bound on each curve." + COMMON)

prop("C24", "Answers do not depend on what was asked before",
 "Every date, calendar, day count, interpolation, curve and bond question returns the same answer whatever other questions were asked earlier, in whatever order, on the same or on other objects. Fitting an interpolator again with new points gives exactly the curve a fresh one would give for those points, with nothing left from the old ones, and a failed fit or a failed request leaves no trace either. Asking twice gives bit-for-bit the same result.",
 ["histories"], "all sequences of questions up to a fixed length from an alphabet that mixes every component, and all refit chains of point sets",
 "every test builds fresh objects and asks once",
 [M + "interpolation.rs", M + "interpolation/linear.rs", M + "interpolation/spline/natural_cubic.rs", M + "interpolation/spline/catmull_rom.rs", "crates/qlab-termstructure/src/yield_curve.rs", "crates/qlab-instrument/src/bond.rs", C + "lib.rs", T + "date.rs"],
 [("immutable queries", "all public query functions take shared references and keep no caches"), ("refit", "try_fit replaces the stored points of each interpolator")],
 "depth-first exploration of all question sequences up to a bound, each from a fresh process (fork tree), plus all question sequences and refit chains on shared objects, against the answer each question gets when asked alone",
 "All question sequences to the stated depth, from a fresh process each." + COMMON)

prop("C25", "Threads that use the library at the same time do not disturb each other",
 "Questions that several threads put at the same time, to the same calendars, interpolators, curves and bonds or to their own, each get exactly the answer they get when asked alone, wherever one thread is interrupted by another, also when they are the first questions of a process. No thread waits for ever, and every thread afterwards still gets the right answers. Dates, periods, calendars, interpolators, curves and bonds may be shared by threads and sent from one to another.",
 ["schedules"], "all interleavings of the memory accesses of two threads (three in part) that each put a question to the library, in any order of conflicting accesses up to a bound on preemptions",
 "every test runs on one thread with objects of its own; a race needs one particular interruption",
 [M + "interpolation/linear.rs", M + "interpolation/spline/natural_cubic.rs", M + "interpolation/spline/catmull_rom.rs", M + "interpolation/spline/hermite.rs", "crates/qlab-termstructure/src/yield_curve.rs", "crates/qlab-instrument/src/bond.rs", C + "lib.rs", T + "date.rs"],
 [("shared reads only", "no public query writes memory that another thread can reach"), ("plain data", "all public types are plain data without cells or reference counts")],
 "stateless exploration of thread interleavings of the real code under a controlled scheduler: every memory access and lock operation of the compiled library is intercepted; all orders of conflicting accesses up to a preemption bound, and all single preemptions at any access, against the answer each question gets when asked alone",
 "All interleavings at memory accesses in sequentially consistent order; reorderings by weak memory and the precompiled parts of the standard library are not explored." + COMMON)

prop("C26", "A failure anywhere inside a computation surfaces as an error, never as a number",
 "When a step of a computation fails, at whatever step it happens — the number type cannot hold a number, a day count or an interpolator refuses, a period leads nowhere — the day-count fraction, curve, discount factor, bond value or date asked for comes out as an error of the kind of that failure (a cast error for a refused number, an interpolation error for an interpolator's, the day count's own error unchanged), or as nothing where the function answers with an option. No step is skipped, no default is put in its place, and there is no panic. The same request made again, with all steps succeeding, is answered as if nothing had happened.",
 ["inputs", "fault_sequences"], "all sets of failing steps, up to bounds, of computations that go through number conversions, day counts, interpolators and periods supplied by the user",
 "the tests use floats, which convert everything, and the supplied conventions and interpolators, which fail in one or two ways; that one payment of many is left out of a sum shows only when a step in the middle fails",
 [T + "day_count/act_360.rs", T + "day_count/act_365.rs", T + "day_count/thirty_360.rs", T + "date.rs", "crates/qlab-instrument/src/bond.rs", "crates/qlab-termstructure/src/yield_curve.rs", "crates/qlab-error/src/lib.rs", M + "interpolation.rs"],
 [("error conversion", "From<InterpolationError> for QLabError and the ? operator pass each failure on"), ("casts", "FromPrimitive::from_* answered None becomes CastNumberError")],
 "exhaustive fault injection into the real code: every subset (up to a bound) of number conversions, day-count calls, interpolator calls and period results fails, against a fault-free oracle and the rule which steps an answer needs",
 "Day counts, interpolators and number types are test doubles that fail on command; the splines' own small constants, whose conversion is assumed, are left out." + COMMON)

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert p["statement"].count(". ") <= 2 + p["statement"].count("St. "), p["id"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    claimed = set(os.environ.get("CLAIM", "").split(",")) - {""} or {p["id"] for p in P}
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
        "notes": "One harness (harness/, crate mc) explores the real crates of /repo through path dependencies; check.sh ID TIER rebuilds it from /repo's working tree and runs one property. No hooks in /repo: everything is reached through public interfaces."}
    for p in P:
        if p["id"] in claimed:
            man["checks"].append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick",
                "thorough_cmd": f"bash check.sh {p['id']} thorough", "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": "check under construction"})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1); f.write("\n")
main()
