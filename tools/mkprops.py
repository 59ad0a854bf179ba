#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Edit the table here, then run it.
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
I=["inputs"]; H=["inputs","histories"]; C=["inputs","configurations"]

p("C01","Year elements follow the Suriyayatra rules exactly for every year",
 "For every year from CE 638, initialising a year sets the Common, Buddhist (CE+543) and Chulasakkarat (CE-638) era years and exactly the elements the documented rules give, in integer arithmetic: with N = CS*292207+373, horakhun = N div 800 + 1, kammacubala = 800 - N mod 800, uccabala = (horakhun+2611) mod 3232, E = horakhun*11+650, avoman = E mod 692, masaken = (E div 692 + horakhun) div 30, tithi = (E div 692 + horakhun) mod 30. Kammacubala is 1..800, uccabala 0..3231, avoman 0..691, tithi 0..29. Initialising a variable that already held another year gives the same as initialising a fresh one, and the textual listing of the values shows exactly these numbers, with the exceptions on or off.",
 I,"every CE year 638..20000, every previous content of the variable",
 "TestCalculateSuriyaValues samples a handful of years; the rule has to hold for each of them.",
 ["suriya_year.go","suriya.go"],[("SuriyaYear.Init","suriya_year.go"),("SuriyaValuesString","suriya_year.go"),("era constants","suriya.go")],["SuriyaYear fields after Init","SuriyaValuesString","String"])
p("C02","New Year moves on by 365 or 366 days, leap years and 800-year period agree",
 "From every year to the next the New Year (horakhun) moves on by 365 or 366 days, and it is 366 exactly when the year reports itself as a leap year. The solar remainder (kammacubala), the apogee (uccabala), the avoman, the elapsed months and the tithi of the next year are those reached by that many daily steps. Any 800 years add up to exactly 292207 days, with the kammacubala and the leap status repeating.",
 I,"every pair of consecutive years and every pair 800 years apart, CE 638..20000",
 "No test relates two years; a relation over all years cannot be sampled.",
 ["suriya_year.go"],[("SuriyaYear.Init","suriya_year.go"),("Is_Suriya_Leap","suriya_year.go")],["Horakhun","Is_Suriya_Leap"])
p("C03","Adhikamasa years: rule, 2-or-3-year spacing, conserved with elapsed months",
 "A year is adhikamasa exactly when its tithi is 24..29 or 0..5 and the following year's is not. Consecutive adhikamasa years are always two or three years apart, and over any span of years the number of adhikamasa years agrees with the growth of the elapsed-months count (masaken) minus 12 per year, to within one.",
 I,"every year and every span of years CE 639..12000",
 "TestAdhikamasa lists 1950..2018 only.",
 ["suriya_year.go"],[("Is_Adhikamasa","suriya_year.go"),("Would_Be_Adhikamasa","suriya_year.go")],["Is_Adhikamasa","Would_Be_Adhikamasa","Masaken"])
p("C04","Adhikavara years: rule, exclusion with adhikamasa, carried to the next year",
 "Without exceptions, a year qualifies for adhikavara when its avoman is at most 126 in a leap year or below 137 in a normal year; it is adhikavara when it is not adhikamasa and either qualifies or the year before was adhikamasa and qualified (carried). A year is never both adhikamasa and adhikavara, and a qualifying adhikamasa year is always followed by an adhikavara year. Up to CE 4000 consecutive adhikavara years are 4 to 7 years apart.",
 I,"every year CE 639..12000 (spacing: up to 4000)",
 "TestAdhikavara lists 1993..2016 only and never the carried rule in isolation.",
 ["suriya_year.go"],[("Is_Adhikavara","suriya_year.go"),("Would_Be_Adhikavara","suriya_year.go"),("Has_Carried_Adhikavara","suriya_year.go")],["Is_Adhikavara","Has_Carried_Adhikavara","Would_Be_Adhikavara"])
p("C05","The exceptions switch changes 1994 and 1997 only and can be taken back",
 "With the exceptions on, 1994 is not adhikavara and 1997 is, and every other year keeps its adhikavara and adhikamasa status. Asalha Puja is then on the official dates 1994-07-22, 1995-07-11 and 1996-07-29, a day earlier than without, and 1997-07-19 both ways; Kattika and Asalha Puja of all years outside 1994..1996 are the same with and without, as are the elements of every year, its leap status, what its elements qualify it for, its places in the cycles and the distance from the last adhikamasa, and the elements and positions of every day. Setting the switch takes effect at once in every query (status, year length, Kattika, Asalha Puja, distances, listings), and switching it off again, at any point of any sequence of calls, gives exactly the regular results again.",
 ["inputs","configurations","histories"],"every year 641..4000, every on/off sequence interleaved with year, Kattika, Asalha and listing queries",
 "TestAsalhaPuja sets the switch once for a few years; nothing switches it back and forth.",
 ["suriya.go","suriya_year.go"],[("UseExceptions / AdhikavaraExceptions","suriya.go"),("Is_Adhikavara","suriya_year.go")],["UseExceptions","Is_Adhikavara","AsalhaPuja"])
p("C06","Lunar year length and the chain of Kattika full moons agree",
 "The lunar year is 354 days in a common, 384 in an adhikamasa and 355 in an adhikavara year, and the Kattika full moon before year Y+1 is exactly that many days after the one before Y, for every Y, forwards and backwards from the known one before 2016, 2015-11-25. It is at midnight UTC, and for years 641..4000 it is in October, November or December of Y-1.",
 C,"every year -3000..20000, exceptions on and off",
 "No test looks at the chain; a stepping error shows only in some years of some direction.",
 ["helpers.go","suriya_year.go"],[("CalculatePreviousKattika","helpers.go"),("YearLength","suriya_year.go")],["CalculatePreviousKattika","YearLength"])
p("C07","Asalha Puja is the full moon of Asalha, consistent with chain and sources",
 "Asalha Puja of a year falls 236 days after the Kattika full moon before the year in a common year, 266 in an adhikamasa year and 237 in an adhikavara year, at midnight UTC; in June, July or August of that year for CE 1300..3000. Without exceptions it is on the computed dates of the repository's published table utils/years.csv for 1970..2041, and the day's own Suriyayatra tithi is 14 or 15 (CE 641..4000).",
 C,"every year -3000..20000, exceptions on and off; the published table 1970..2041",
 "TestAsalhaPuja samples published years; the relation to the chain and the day's tithi is for every year.",
 ["suriya_year.go","helpers.go","utils/years.csv"],[("AsalhaPuja","suriya_year.go"),("CalculatePreviousKattika","helpers.go")],["AsalhaPuja"])
p("C08","Each uposatha is followed by the right next one, for any length of chain",
 "Starting from any uposatha of the calendar, each next one alternates new and full moon; a new moon comes 14 or 15 days after the full moon (14 when its month has 29 days), a full moon 15 days after the new moon, with month 1..12 (13 = second Asalha) in order, 30 days in odd and 29 in even months except 30 for Asalha with adhikavara. Season, position in the season (8 uposathas, 10 in the hot season of an adhikamasa year), lunar year (one more from Magasira) and the adhikavara mark are those of the month. Full moons carry the event magha, vesakha, asalha or pavarana of months 3, 6, 8, 11 (4, 7, 13, 11 in an adhikamasa year) and nothing else does. Status, source and comments are an uposatha's own and not passed on, its time of day is, and the same start in another timezone gives the same next uposathas.",
 ["inputs","histories","configurations"],"every start in lunar years 641..4000, chains of up to hundreds of steps, exceptions on and off",
 "uposatha_moon.go is not covered by any test.",
 ["uposatha_moon.go"],[("NextUposatha","uposatha_moon.go")],["NextUposatha"])
p("C09","A year's listing has every uposatha of the year once, with no gap",
 "Listing a solar year gives exactly the uposathas whose date is in that year, each once and in date order, status confirmed, with the attributes of the lunar calendar; put together, the listings of consecutive years form one unbroken alternating chain of new and full moons 14 or 15 days apart. There are 24 or 25 of them, of which 12 or 13 full moons.",
 C,"every solar year 642..4000, exceptions on and off",
 "cal_day.go is not covered by any test.",
 ["cal_day.go","uposatha_moon.go"],[("GenerateSolarYear","cal_day.go")],["GenerateSolarYear"])
p("C10","Every year has each major event once, on its own full moon",
 "Every solar year lists Magha Puja, Vesakha Puja, Asalha Puja, the first day of Vassa, Pavarana Day and the last day of Vassa exactly once each and nothing else as a major event, named in summary and description alike. The three Pujas and Pavarana are on full-moon uposathas, Vassa starts on the day after Asalha Puja and ends on Pavarana, 88 days after its first day (three lunar months after Asalha), and Asalha Puja is the date computed for the year on its own.",
 C,"every solar year 642..4000, exceptions on and off",
 "No test looks at the major events.",
 ["cal_day.go","uposatha_moon.go"],[("GenerateSolarYear","cal_day.go"),("NextUposatha event","uposatha_moon.go")],["GenerateSolarYear MajorEvents"])
p("C11","Half moons fall eight days after their uposatha and nowhere else",
 "A year's listing has, for every uposatha of the calendar whose eighth following day is in the year, exactly one half moon on that day, also when the uposatha itself is in the year before: waxing after a new moon, waning after a full moon. There are no other half moons.",
 C,"every solar year 642..4000, exceptions on and off",
 "No test looks at half moons; the year-crossing case is rare.",
 ["cal_day.go"],[("GenerateSolarYear","cal_day.go")],["GenerateSolarYear HalfMoons"])
p("C12","A range query returns exactly the calendar events of the range, by day",
 "Querying the calendar days from one time to another returns, in strictly ascending order and one entry per UTC day, exactly the uposathas, half moons, major events and recorded astronomical moons whose time is within the range, both ends included, each once, with its own attributes and merged into the entry of its day, with times in UTC; each entry's time lies on that day and no entry is empty. This holds for ranges of any length, in any timezone, over year ends, and empty for reversed ranges.",
 I,"every pair of times 645..3995 (astronomical moons 1900..2040), any timezone offset, whole days and times of day",
 "No test calls the range query; the two golden files cover three fixed ranges.",
 ["cal_day.go","astro_moon.go"],[("GetCalDays","cal_day.go"),("mergeIntoCalDays / findCalDay","cal_day.go")],["GetCalDays"])
p("C13","Splitting, shifting zone or widening a range never changes its events",
 "Querying A..C gives the same events as querying A..B and then B..C for any B between them (with events exactly at B in both), a sub-range gives exactly the part of the larger result that is inside it, and the same two instants expressed in any timezone give the same result.",
 I,"every triple of times 645..3995 and every timezone offset",
 "A relation between several queries; no test makes one.",
 ["cal_day.go","astro_moon.go"],[("GetCalDays","cal_day.go"),("GetAstroMoons","astro_moon.go")],["GetCalDays"])
p("C14","Astronomical moons in a range are exactly the recorded ones",
 "Asking for the astronomical moons of a range gives exactly the moons recorded in the data files in data/astro within the range, both ends included, in the order of time, in UTC, with the phase of the recorded code (0 new, 1 waxing, 2 full, 3 waning). Years without a file or marked unsuccessful contribute nothing and do not affect the others.",
 I,"every range, with and without years outside 1900..2040, any timezone",
 "astro_moon.go is not covered by any test.",
 ["astro_moon.go","aeris_moon.go","data.go","data/astro"],[("GetAstroMoons","astro_moon.go"),("phaseCodes","aeris_moon.go")],["GetAstroMoons"])
p("C15","The recorded moon phases agree with astronomy and have no holes",
 "In the years with recorded data, 1902..2033, each new, first-quarter, full and last-quarter moon is recorded once, in phase order, within five minutes of its astronomical time, with its code, name and timestamp agreeing; what a range query returns never misses or misplaces one.",
 I,"every lunation 1902..2033 against an independently computed lunation time",
 "No test reads the data set.",
 ["data.go","data/astro","astro_moon.go"],[("embedded data","data.go"),("GetAstroMoons","astro_moon.go")],["GetAstroMoons"])
p("C16","The calendar's uposathas stay with the real moon",
 "Every full-moon and new-moon uposatha of the years CE 642..4000 lies within three days of an astronomical full or new moon of the same kind, each uposatha with its own: consecutive uposathas of one kind belong to consecutive lunations.",
 C,"every uposatha of CE 642..4000, against an independently computed lunation time",
 "Tests sample Asalha Puja of a few dozen years; drift or a lost month shows elsewhere.",
 ["cal_day.go","uposatha_moon.go","helpers.go","suriya_year.go"],[("GenerateSolarYear","cal_day.go"),("CalculatePreviousKattika","helpers.go"),("intercalation rules","suriya_year.go")],["GenerateSolarYear"])
p("C17","A horakhun is converted to its exact civil date",
 "A horakhun (elapsed days) is converted to the civil date that many days from 1963-07-05 = 484049, one day per unit, in the proleptic Gregorian calendar, always at 23:59:59 UTC. This holds for any distance in both directions, across the steps by which long distances are covered.",
 I,"horakhun -60,000,000..60,000,000",
 "TestDay samples 14 values, none at the long-distance steps.",
 ["helpers.go"],[("HorakhunToDate","helpers.go")],["HorakhunToDate"])
p("C18","Day elements are those of the civil day, however it is named",
 "The horakhun of the n-th day of a lunar year is the year's horakhun plus n minus the year's tithi, and its uccabala, avoman, masaken and tithi are those the rules give for that horakhun; so a day has the same elements whichever lunar year it is counted from, and the New Year's Day has the elements of its year. The kammacubala grows by exactly 800 per day from the year's value, and a day counted from the next year differs in it by exactly 292207. All this holds with the exceptions on as well.",
 I,"every year 639..4000, days -30..420",
 "TestSuriyaDayInit and TestDay sample a few days.",
 ["suriya_day.go"],[("SuriyaDay.Init","suriya_day.go")],["SuriyaDay fields"])
p("C19","Sun and Moon positions follow Eade's procedure for every day",
 "The mean Sun, true Sun, mean Moon, true Moon and raek of every day are those of the documented procedure (mean Sun from the solar remainder minus 3 arcminutes; true Sun with the 134-arcminute correction; mean Moon from true Sun, avoman and tithi minus 40 arcminutes; true Moon with the 296-arcminute correction from the apogee; raek from 13;20 mansions) within a few ten-thousandths of a degree on the circle, as published for Eade's examples, whether the exceptions are on or off.",
 I,"every year 639..4000, days -30..420",
 "TestRaek samples five days.",
 ["suriya_day.go","helpers.go"],[("SuriyaDay.Init","suriya_day.go"),("DegreeToRal / RalToDegree","helpers.go")],["SuriyaDay.MeanSun..Raek"])
p("C20","Positions stay on the circle and move as the Sun and Moon do",
 "On every day the mean and true Sun and Moon are within 0 to 360 degrees and the raek from 1 to 28. The true Sun is within 2;14 of the mean Sun and the true Moon within 4;57 of the mean Moon; from one day to the next the Sun moves on by about one degree (0.92 to 1.06) and the Moon by 11 to 16, and the Moon is ahead of the Sun by 12 degrees per tithi to within a tithi and a half. A day has the same positions, to within a few arcminutes, whichever lunar year it is counted from.",
 I,"every year 639..4000, days -30..420 and consecutive days",
 "Invariants over all days; tests sample a few.",
 ["suriya_day.go","helpers.go"],[("SuriyaDay.Init","suriya_day.go"),("NormalizeDegree","helpers.go")],["SuriyaDay.MeanSun..Raek"])
p("C21","Degree notation splits and joins exactly, for any angle",
 "Any angle is split into rasi, degrees 0..29 and arcminutes 0..59, also for negative angles, and joining them gives the angle back to within one arcminute and never above it; joining then splitting whole arcminutes is lossless to one arcminute, monotonic, and the textual form shows the three parts. Normalising keeps an angle's place on the circle, is at least 0 and below 360, and leaves angles already there unchanged.",
 I,"every finite angle within +-1e6 degrees, every rasi/degree/arcminute triple",
 "Tests use the notation to print a few positions.",
 ["helpers.go"],[("DegreeToRal / RalToDegree / DegreeToRalString / NormalizeDegree","helpers.go")],["DegreeToRal","RalToDegree","DegreeToRalString","NormalizeDegree"])
p("C22","Cycle positions count 1..57 and 1..19 from 1984 for every year",
 "The position in the 57-year cycle is 1 in 1984, and in the 19-year cycle 1 in 1984; from each year to the next it goes up by one, returning to 1 after 57 and 19, for every year before and after.",
 I,"every CE year -100000..100000",
 "No test looks at cycle positions.",
 ["suriya_year.go"],[("AdhikavaraCyclePos / AdhikamasaCyclePos","suriya_year.go")],["AdhikavaraCyclePos","AdhikamasaCyclePos"])
p("C23","Years since the last adhikamasa and adhikavara are counted right",
 "For every year the reported distance to the last adhikamasa year before it is the smallest positive number of years back to a year that is adhikamasa, and the same for adhikavara (under the exceptions in force); never the year itself. In an adhikamasa year it is the gap of the cycle (2 or 3).",
 C,"every CE year 660..12000, exceptions on and off",
 "No test calls the distances.",
 ["suriya_year.go"],[("DeltaAdhikamasa / DeltaAdhikavara","suriya_year.go")],["DeltaAdhikamasa","DeltaAdhikavara"])
p("C24","Embedded files read back exactly, by every access path",
 "Every data file of data/astro is available under its name from the embedded assets, by bytes, string, the must-variants and the http file system (with and without a directory prefix), with exactly the bytes and size of the file on disk, in any order and chunking of reads and seeks, and independent for each opening; reading with the local option gives the file in the working directory as it is at that moment, or not-exist, while the embedded one stays as it is. A name that is not embedded gives a not-exist error, and the must-variants panic on it.",
 H,"every file and variant spelling of its path, any sequence of opens, reads, seeks and missing names",
 "No test reads the assets.",
 ["data.go","data/astro"],[("_escStatic / _escLocal","data.go"),("FS / Dir / FSByte / FSMustByte / FSString / FSMustString","data.go")],["FSByte","FS().Open"])
p("C25","Results do not depend on what was asked before",
 "Every query (year elements and status, Kattika, Asalha Puja, day positions, next uposatha, year listing, range queries, conversions, deltas) gives the same answer at any point of any sequence of queries, exception switches and changes made by the caller to results it was given, for years however far apart; no query changes its arguments, its receiver, the exception switch or the table of exceptions. (The bytes of an embedded file are shared, callers only read them.)",
 ["histories","inputs"],"sequences of up to a few dozen operations over a small set of years and ranges",
 "Tests run each query once or in one fixed order.",
 ["suriya_year.go","suriya_day.go","helpers.go","cal_day.go","uposatha_moon.go","astro_moon.go","data.go"],[("all exported queries are functions of their arguments and UseExceptions","suriya_year.go"),("lazy asset cache","data.go")],["all exported queries"])
p("C26","Concurrent queries are safe and give the sequential answers",
 "Any number of goroutines making calendar, day and asset queries at the same time, including the very first use of the embedded data, get exactly the answers they would get alone, without data race, deadlock or crash; nor does reading one result (its texts, iCalendar and JSON forms, the next uposathas, half-moon days added to a copy) from several goroutines change or race with anything.",
 ["schedules","inputs"],"batches of mixed queries from 2..16 goroutines in fresh processes and warm ones",
 "Tests are single-threaded.",
 ["data.go","cal_day.go","astro_moon.go","suriya_year.go"],[("sync.Once per asset","data.go"),("no shared mutable state elsewhere","suriya_year.go")],["race detector","GetCalDays"])
p("C27","A calendar day holds what was put in it, and survives JSON",
 "A day returns the uposatha, half moon and astronomical moon last set on it (an empty one if none), keeps every event and major event in the order they were added, and adding anything to a day sets the day's date to it; setting one kind never changes the others. Encoding a day to JSON and decoding it gives an equal day; each kind appears in the JSON under its own name with all its attributes, and kinds not on the day are absent.",
 H,"sequences of set and add operations with arbitrary attributes",
 "No test touches the container.",
 ["cal_day.go","event.go","major_event.go","half_moon.go","astro_moon.go","uposatha_moon.go"],[("Set*/Get*/AddToDay","cal_day.go")],["CalDay","json"])
p("C28","iCalendar events carry the event's own day and text",
 "The iCalendar form of any uposatha, half moon, astronomical moon, event or major event is an all-day event that starts at the event's date and ends 24 hours later, with the event's own text as summary and the date's timezone name, stamped with the time of creation, and a unique identifier of its own on every call.",
 I,"every kind of event with arbitrary date, timezone and attributes",
 "No test produces iCalendar events (the library is not even compiled).",
 ["calendar_event.go","event.go","half_moon.go","uposatha_moon.go","astro_moon.go","major_event.go"],[("icalEvent","calendar_event.go")],["IcalEvent"])
p("C29","The command line writes exactly the range's days, to file or output",
 "The caldays command writes a JSON object of the days of the given range grouped by year, equal to the range query; the ical command writes one event for every uposatha, half moon and major event of the range, in order of date, under the header of the published calendar, and none for astronomical moons. With an output file the file holds exactly the output, replacing what it held, and nothing is printed; without, it is printed; ranges left out default to the current year, and a date that is not YYYY-MM-DD ends with exit status 1 and no output written, an output that cannot be written (or printed) with exit status 1, and an unknown option or one without its value with a non-zero exit status and no output written.",
 C,"every from/to within 645..3990, present or left out, valid or malformed, output to file (new, existing longer) or to stdout, both commands",
 "The command's test file is commented out.",
 ["suriya/suriya.go"],[("actionCalDays / actionIcal / cliInit","suriya/suriya.go")],["stdout","output file","exit status"])
p("C30","Names and codes of months, seasons, calendars and states correspond",
 "Month names map to the numbers the lunar calendar uses (magasira 1 ... kattika 12, 2nd asalha 13), season, calendar and status names to their codes (hemanta 1, gimhana 2, vassana 3; mahanikaya 0, dhammayut 1, srilanka 2, myanmar 3; draft 0, predicted 1, confirmed 2), different names never share a non-zero code, and names outside the list give 0. Season numbers 1..3 have the names Hemanta, Gimha, Vassāna and all others none.",
 I,"every listed name and arbitrary strings and numbers",
 "No test calls the lookups.",
 ["helpers.go"],[("MonthToInt / SeasonToInt / SeasonName / CalendarToInt / StatusToInt","helpers.go")],["MonthToInt","SeasonName"])
p("C31","The published calendars are reproduced, whole and for any part of them",
 "The range query for any part of 2014..2017 gives the uposathas, half moons, full and new moons and major events of the repository's published JSON calendar within it, and for any part of 2013..2017 the events of its published iCalendar file, same days and texts (except the one name spelled Visakha there).",
 I,"every sub-range of the published calendars",
 "The published files are not compared by any test.",
 ["cal_day.go","suriya/testdata","suriya/suriya.go"],[("GetCalDays","cal_day.go")],["GetCalDays"])
p("C32","Sorting calendar days orders them by time and loses none",
 "Sorting any list of calendar days puts them in ascending order of time, comparing instants whatever their timezones, and keeps exactly the days given; comparing is a strict order.",
 I,"any list of days with any dates and timezones, with duplicates",
 "No test sorts days.",
 ["cal_day.go"],[("CalDaySlice Len/Less/Swap","cal_day.go")],["sort.Sort(CalDaySlice)"])
p("C33","Adding half-moon days adds one, eight days after each uposatha day",
 "Given any list of calendar days, the result is that list unchanged followed by one day for each day with a new- or full-moon uposatha, in order, dated eight days after that day and holding just a half moon of that date: waxing after new, waning after full. Days without an uposatha, or with another phase, add nothing. Nothing else changes: neither the rest of a longer list of which the list given is a part, nor an earlier result.",
 I,"any list of days with and without uposathas of any phase",
 "No test calls it.",
 ["cal_day.go"],[("AddHalfMoonDays","cal_day.go")],["AddHalfMoonDays"])
p("C34","Texts of moons, events and days show their attributes",
 "An uposatha reads '<Phase> Moon - <days> day <season name> <n>/<total>', half and astronomical moons '<Phase> Moon', events their summary, a moon without phase nothing, and a calendar day the texts of its uposatha, astronomical moon and half moon joined by ', '; a year reads as its number.",
 I,"every phase, season and number",
 "No test renders them.",
 ["uposatha_moon.go","half_moon.go","astro_moon.go","cal_day.go","event.go","major_event.go","suriya_year.go"],[("String methods","uposatha_moon.go")],["String"])
p("C35","The years-table tool reproduces the published table",
 "Running the years-table tool writes years.csv with a header and one line per year 1970..2041, each giving the year's eras, elements, cycle positions, distances and Asalha Puja as the library computes them with exceptions off, the published date where one is known, OK exactly when the two agree, and the content of the repository's committed table; an existing file is replaced. The tool's table functions, the full one and the simple one (its columns CE year, BE year, nM, dM, nV, dV, K, A, T, separated by commas), give those lines for any range of years.",
 ["inputs","configurations"],"every line and column of the table; runs over an absent, empty or longer existing file; the tables of any range of years",
 "The tool is never compiled or run by the tests.",
 ["utils/years-csv.go","utils/years.csv","suriya_year.go"],[("yearsCsv","utils/years-csv.go")],["years.csv"])
p("C36","A caller's own table of exceptions is honoured",
 "With the exceptions on, the entries of the exceptions table decide, whatever a caller has put in it: a year listed there (any that is not adhikamasa) is adhikavara or not as its entry says, and length, Kattika, Asalha Puja, distances and listings follow: all full moons of the calendar on the far side of that year from the known Kattika, 2015-11-25, move by the one day, all others stay. Entries set, changed or deleted count at once in every query, also when the table is replaced, and with the exceptions off the table has no effect. No query changes the table or the switch.",
 ["inputs","configurations","histories"],"every year 700..3900 as an entry alone, tables of any entries, any sequence of changes, switches and queries of 660..4000",
 "The tests use the two entries of the source only and never change the table.",
 ["suriya.go","suriya_year.go","helpers.go","uposatha_moon.go","cal_day.go"],[("AdhikavaraExceptions","suriya.go"),("Is_Adhikavara","suriya_year.go"),("CalculatePreviousKattika","helpers.go")],["AdhikavaraExceptions","Is_Adhikavara","CalculatePreviousKattika","GenerateSolarYear"])
p("C37","No argument makes a query panic, hang or run out of memory",
 "Every exported operation returns for any argument: year elements and status, Kattika, Asalha Puja and listings of any year within +-20000, days and horakhuns of any number within +-1,000,000,000, degree functions for any float including infinities and NaN, name lookups for any string and number, embedded files for any path, the next uposatha, texts and JSON forms of any moon, event or day, range queries for any two times of the years 1..9999 (the zero time, reversed and empty ranges included), decoding of any JSON text. An error may be returned, and the must-variants may panic on a missing file; nothing else panics, runs on, blocks or runs out of memory.",
 ["inputs","histories"],"every argument in the ranges stated",
 "The tests pass a few usual arguments only.",
 ["suriya_year.go","suriya_day.go","helpers.go","uposatha_moon.go","cal_day.go","astro_moon.go","data.go"],[("the exported functions and methods","helpers.go")],["return of each call"])
p("C38","Queries neither depend on nor change what surrounds them",
 "No query, except one that explicitly asks for local files, depends on the working directory, the files in it, the local timezone, environment variables or the number of processors: the answer is the one of the calendar in any surroundings. And no query leaves a trace: nothing is printed or logged, no file is made or changed, working directory, environment, local timezone, standard streams, arguments, the package's own settings, those of the process (limits, umask, signals, garbage collection) and those that programs share in the standard library stay as they are, and no goroutine, open file or growing memory is left behind, however often it is asked (this holds for reading local files, too).",
 ["inputs","configurations","histories"],"every query in any of three working directories (empty, with other data files, the repository), nine local timezones, any of the environment variables tried, 1..8 processors, asked any number of times",
 "The tests run in one directory, zone and environment and do not look at what they leave.",
 ["data.go","astro_moon.go","cal_day.go","helpers.go","suriya_year.go","uposatha_moon.go"],[("FSByte / FS / useLocal","data.go"),("GetAstroMoons","astro_moon.go"),("GetCalDays","cal_day.go")],["answers","stdout, stderr, log","process state"])
p("C39","The embedded data can be served over HTTP",
 "The file systems given by FS and Dir work with the standard library's file server: for any data file, GET and HEAD, whole, in one or more byte ranges, and conditional on its date, give the status, length, range, date and type headers and the bytes that serving the file on disk gives, from the embedded data and with the local option, from the root or from any directory of it, in any order of requests; a missing file gives 404.",
 H,"every data file, any byte ranges, conditions and sequences of requests",
 "No test opens the assets.",
 ["data.go"],[("FS / Dir / _escFile","data.go")],["http.FileServer(FS())"])
p("C40","The calendar agrees with the day arithmetic",
 "The two computations the package offers, the lunar calendar of a year and the elements of a single day, describe the same days. Each solar year's New Year's Day is the day with the year's horakhun and tithi, in that CE year, with the mean Sun within 1.1 degrees of the start of its circle. On each full-moon uposatha the day elements give a tithi of 14 to 16 and a Moon within 20 degrees of opposition to the Sun, on each new-moon uposatha a tithi of 28, 29 or 0 and a Moon within 20 degrees of the Sun (with the exceptions on, one tithi earlier is allowed, as they move single full moons by a day).",
 C,"every uposatha of every solar year 642..4000, both settings of the exceptions; every New Year's Day 638..4000",
 "No test relates the calendar to the day elements.",
 ["suriya_year.go","suriya_day.go","helpers.go","uposatha_moon.go"],[("GenerateSolarYear","helpers.go"),("SuriyaDay.Init","suriya_day.go"),("HorakhunToDate","helpers.go")],["UposathaMoon.Date","SuriyaDay.Tithi, TrueMoon, TrueSun"])
p("C41","A copy of a calendar day is a day of its own",
 "Calendar days are values: what is set on or added to a day never shows on a copy of it, made before or after, nor is anything already on the copy changed, whether the copy was made by assignment, in a list with half-moon days added, by sorting a list, or through JSON.",
 H,"every sequence of sets, adds and copies of four days",
 "No test copies a day.",
 ["cal_day.go","event.go","major_event.go"],[("Set*Moon","cal_day.go"),("AddToDay","event.go")],["CalDay fields"])
p("C42","The answers are the same on 32-bit platforms",
 "Every query of years 645..4000 gives on a 32-bit platform the answer it gives on a 64-bit one, and the right one.",
 C,"every query about years 645..4000, built for 386 and amd64",
 "The tests run on the one platform they are built for.",
 ["suriya_year.go","suriya_day.go","helpers.go","uposatha_moon.go","cal_day.go"],[("SuriyaYear.Init","suriya_year.go"),("SuriyaDay.Init","suriya_day.go"),("HorakhunToDate","helpers.go")],["answers of a GOARCH=386 process"])
p("C43","The download script asks for each year once, within the service's limits",
 "Running utils/get-astromoons.sh FROM TO with the two credentials in the environment makes, in order, exactly one request for each year FROM..TO to the moon-phase address for London, with that year's first and last day, the limit of 250 records and the credentials as given, and leaves each response byte for byte in astro-YEAR.json in the working directory, replacing what was there; a request that fails does not keep the others from being made. No more than ten requests go out within any minute, however many years, however long the requests take. With a credential or a year left out it makes no request, changes no file, prints the usage and exits with status 1; with TO before FROM it requests nothing.",
 ["inputs","schedules"],"0..35 years, any credentials and responses, any durations of the requests and of sleeping, requests that fail, over existing files, any of the four inputs left out",
 "The script is not run by any test.",
 ["utils/get-astromoons.sh"],[("the loop over the years","utils/get-astromoons.sh")],["requests","astro-YEAR.json","exit status"])
p("C44","Any answer of the moon data service is read as it says",
 "Whatever the service answers for the years (records with times of any offset from UTC, in any order and number, members in any order or ones nobody asked for, success or not, an error or none or null, no records), decoding it as AerisResp gives its success, error code and description and each record's timestamp, instant, code and name, in order; and when such answers are the stored files of their years, the moons of a range are exactly the records within it of the successful answers without an error code, in the order of years and records, in UTC, new, waxing, full or waning by their code. An unsuccessful, erroneous, empty or absent answer gives none and hides no moon of another year.",
 ["inputs"],"1..5 answers of years 1900..2040 with up to six records each, 1..4 ranges with ends at, next to and away from the records",
 "No test decodes an answer; the recorded data hold one kind of error and one offset.",
 ["aeris_moon.go","astro_moon.go"],[("AerisResp / AerisMoon / phaseCodes","aeris_moon.go"),("GetAstroMoons","astro_moon.go")],["decoded values","moons returned"])
with open(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
