#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=' '.join(statement.split()),
             quantifier=dict(over=over, text=' '.join(text.split())),
             why_tests_cant=' '.join(why.split()),
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)
EN = 'src/parsers/en/'
EXE = ('Parser::execute search loop', 'src/parsers/parsers.cpp')
ALLP = [EN + f for f in ('ENCasualDateParser.hpp','ENCasualTimeParser.hpp','ENDayOfTheWeekParser.hpp','ENDeadlineFormatParser.hpp','ENISOFormatParser.hpp','ENMonthNameMiddleEndianParser.hpp','ENMonthNameParser.hpp','ENRelativeDateFormatParser.hpp','ENTimeAgoFormatParser.hpp','ENTimeExpressionParser.hpp','ENTimeLaterParser.hpp','ENUSHolidaysParser.hpp','ENWeekExperessionParser.hpp')]
REFI = ['src/refiners/OverlapRemovalRefiner.hpp','src/refiners/ExtractTimeZoneAbbreviation.hpp','src/refiners/en/ENMergeDateAndTimeRefiner.hpp','src/refiners/en/ENMergeDateRangeRefiner.hpp']
BASE = ['src/parsers/parsers.cpp','src/result.cpp','src/utils/utils.cpp','src/utils/utils.hpp']
API = ['Parser::execute return value', 'ParsedResult startDate/endDate/end()/getIndex()/textLength()/getTag()']

prop('C01', 'No input can crash, corrupt or hang the parser or the program',
 """For every text of up to 1000 bytes (any byte values) and every valid reference date-time in the years 1400-9999,
 every parser and the complete pipeline of parsers and refiners return normally within bounded time: no crash, no escaping
 exception, no out-of-bounds or use-after-free access, no undefined behaviour, and nothing reported depends on uninitialised memory.
 Rendering a reported result also succeeds, except that it may fail with an out-of-range error when a time zone shift moves the
 date out of the calendar; the command line program exits with status 0 in all these cases.""",
 ['inputs'], 'all byte strings up to 1000 bytes times all reference times, for each parser, each refiner stage and the program',
 'The tests feed about forty well-formed English phrases; crashes, overflows, uninitialised reads and runaway matching need odd numbers, odd bytes, odd references or phrases cut in the wrong place.',
 BASE+ALLP+REFI+['time.cpp'],
 [EXE, ('out-of-range guard', 'src/parsers/parsers.cpp execute / src/utils/utils.cpp isRepresentable'), ('number conversions and sanity checks', 'extract() of each parser')],
 ['sanitizer reports, signals, exceptions, CPU time per input', 'difference between builds with differently filled stack and heap'])

prop('C02', 'Every reported date is a real calendar date and time of day',
 """Every result that any parser, or any stage of the pipeline, reports for any text and reference names a start (and, for a range, an end)
 whose year is in 1400-9999, whose month is in 1-12, whose day exists in that month of that year, and whose hour is in 0-24, minute in 0-59
 and second in 0-59. An ISO date, month-and-day, month-and-year or clock time that does not exist (such as february 30, month 13, day 0,
 a year outside the calendar, or 10:75) is not reported as that or any other date or time by the parser for its form. The result's own date conversion and rendering agree with its components.""",
 ['inputs'], 'all texts and references; in particular all month/day/year/hour/minute combinations, valid and invalid',
 'The tests use valid dates only; impossible dates, hour 24, minute 60, leap days and era years span a space no fixed list of examples covers.',
 ['src/result.cpp']+ALLP, [('hasPossibleDates / isPossibleDate filter','src/result.cpp'),('range checks','extract() of each parser')], API+['ParsedComponents::date()','ParsedResult::toDate()'])

prop('C03', 'Reported positions delimit the matched phrase in the input',
 """For every text, each result of a parser covers a non-empty stretch that lies inside the text and carries no trailing whitespace,
 successive results of one parser come in ascending order and never overlap, and the results of the complete pipeline are ascending,
 disjoint and inside the text as well. The stretch is the phrase itself: running the same parser with the same reference on just that
 stretch reports the same date again, covering the same phrase (punctuation at its end aside).""",
 ['inputs'], 'all texts, with phrases at any position, repeated, adjacent, preceded or followed by arbitrary words, punctuation or whitespace',
 'Half of the existing position assertions are written against off-by-one values; none covers a second match, trailing whitespace or positions after refinement.',
 ['src/parsers/parsers.cpp','src/result.cpp']+REFI, [('index bookkeeping over the remaining text','src/parsers/parsers.cpp execute'),('text of merged results','src/refiners')], ['ParsedResult getIndex()/textLength() after each stage'])

prop('C04', 'Parsing is a pure function of text and reference',
 """The results for a text and reference depend on nothing else: they are the same whatever was parsed before, in whatever order, with the same
 or a fresh parser or refiner object, on repetition, and whatever other parsers ran in between. Parsing leaves the reference time unchanged and
 does to the caller's text nothing but convert its letters to lower case, and refining leaves the results passed to it unchanged.""",
 ['histories'], 'all sequences of calls over all parsers, refiners, texts and references in one process',
 'Each test makes one call per fresh object and process; contamination through shared tables or static state only shows over call histories.',
 BASE+ALLP+REFI, [('lookup tables shared by all parsers','src/utils/utils.hpp INTEGER_WORDS, MONTH_CONSTANTS, WEEKDAY_OFFSET, ORDINAL_WORDS'),('static patterns','getPattern() of each parser')], API,
 [('word and number tables','shared, must not change after start-up','src/utils/utils.hpp')])

prop('C05', 'Concurrent parsing gives the sequential results without data races',
 """Any number of threads may parse and refine at the same time, each with its own text, reference and result objects, sharing parser and
 refiner objects or not, including the very first uses of each parser in the process. No data race occurs and every thread obtains exactly the results that
 a single-threaded run of the same calls gives.""",
 ['schedules'], 'all interleavings of concurrent calls of all parsers and refiners, first uses included',
 'The tests are single-threaded.',
 BASE+ALLP+REFI, [('function-local static patterns','getPattern() of each parser'),('read-only use of shared tables','src/utils/utils.hpp'),('no mutable members','parser and refiner classes')], ['ThreadSanitizer reports', 'per-thread results against sequential results'])

prop('C06', 'Meaning of a phrase does not depend on case or surrounding text',
 """A recognised phrase means the same in any mix of upper and lower case and wherever it stands: between ordinary words, at the start or
 end of the text, and next to punctuation that does not extend it (a clock time needs whitespace before it). For a text with several phrases separated by ordinary words, each parser and the pipeline up to overlap removal yield one result per
 phrase, in order, each with the value the phrase has on its own, and ordinary words that merely contain a keyword as part of a longer word, or no
 keyword at all, yield nothing. The same holds for a phrase that stands directly after something of its parser's form that names no date or time.""",
 ['inputs'], 'all recognised phrases of every parser, all case patterns, all surroundings made of neutral words and punctuation, any number of phrases',
 'Most tests parse a phrase alone or in one sentence, in lower case; whole-word matching and the second and later matches are hardly touched.',
 ['src/parsers/parsers.cpp','src/utils/utils.cpp']+ALLP, [('lower-casing before search','src/parsers/parsers.cpp execute'),('word boundaries in the patterns','getPattern() of each parser'),EXE], API)

prop('C07', 'Date components and results behave as independent values',
 """A known component keeps the last value set and is certain from then on; a merely implied component is reported, not certain, can be implied
 again, and never replaces a known one, while setting replaces an implied one; components never touched read 0 and are not certain. This holds for each of year,
 month, day, weekday, hour, minute, second and zone offset separately, through any sequence of operations. Copying or assigning components or a whole result (its start, end,
 whether it has an end, index, text length and tags) yields an equal and independent value.""",
 ['histories'], 'all sequences of set, imply, read, copy and assign operations on any number of components and results',
 'One test covers a few setters on one object; the guarantee quantifies over operation sequences, aliasing and copies.',
 ['src/result.cpp','src/result.hpp'], [('knownValues / impliedValues maps','src/result.cpp setters, getters, implyComponent'),('copy constructors and assignment','src/result.cpp')], ['getters, isCertain(), end(), getTag(), date()'],
 [('knownValues','components stated by the text','src/result.hpp'),('impliedValues','components assumed','src/result.hpp')])

prop('C08', 'today, tomorrow, yesterday, now, tonight, last night name the right day',
 """For every reference, "today" and "tonight" give its calendar day, "now" its day and time of day, "tomorrow" or "tmr" the next day (the same day when the
 reference is in the hour after midnight), "yesterday" the day before, and "last night" the day before, or the same day while the reference hour is at most 6;
 month ends, leap days and year ends included. The day is certain; the hour is implied as 22 for tonight, 0 for last night and the reference hour for yesterday,
 certain (with minute and second) for now, and absent for the others.""",
 ['inputs'], 'all reference times 1400-9999 (in particular month, year and leap boundaries and every hour of the day) times all words and spacings',
 'The tests use one reference date; day arithmetic across boundaries and the hour-dependent rules need many.',
 [EN+'ENCasualDateParser.hpp'], [('day arithmetic and hour rules','ENCasualDateParser::extract')], API)

prop('C09', 'morning, afternoon, evening, noon and night give the right time of day',
 """"[this] morning", "afternoon", "evening", "night" and "noon" give the hour 6, 15, 20, 20 and 12 with the reference's minute, on the reference's calendar day and weekday,
 for every reference. All of these components are implied, none certain, so that a date next to the phrase can take the time over.""",
 ['inputs'], 'all references times all words, with and without "this", any spacing and context',
 'A few fixed references are tested.',
 [EN+'ENCasualTimeParser.hpp'], [('word to hour mapping','ENCasualTimeParser::extract')], API)

prop('C10', 'Deadlines ("in N units") add exactly that amount to the reference',
 """"in" or "within" followed by an amount and a unit gives the reference plus exactly that amount, for amounts in digits, one to twelve, a, an, a few (three), and every unit
 and abbreviation (sec, min, hr, day, wk, month, yr and their forms); seconds, minutes and hours are added to the date-time, days, weeks, months and years to the calendar day
 (a month or year keeps the day of the month, clamped to the month's end, and an end of month stays an end of month). "half" reads 30 minutes for an hour, 30 seconds for a minute,
 1 second for a second, 12 hours for a day, 3 days for a week, 15 days for a month, 6 months for a year. All components are implied; amounts below one million are exact.""",
 ['inputs'], 'all amounts, spellings, units and references',
 'The tests cover a handful of amounts at one reference; carries over midnight, month ends and leap years and each spelling are a product space.',
 [EN+'ENDeadlineFormatParser.hpp','src/utils/utils.hpp'], [('unit dispatch and calendar arithmetic','ENDeadlineFormatParser::extract'),('number words','src/utils/utils.hpp INTEGER_WORDS')], API)

prop('C11', 'Amounts ago and from now move the reference by exactly their sum',
 """One or more "amount unit" pairs followed by "later", "after", "from now", "henceforth", "forward" or "out" add, and followed by "ago", "before" or "earlier" (optionally
 after "within") subtract, exactly the sum of the amounts: days, months, weeks and years, in this order, on the calendar day, with month ends clamped and kept, and then seconds, minutes and hours on the date-time, whose crossing of midnight moves that day further. Half amounts of a minute or more read as in deadlines. The time of day is certain exactly when hours, minutes or seconds move, and the day
 is certain exactly when days, weeks, months or years move, otherwise implied.""",
 ['inputs'], 'all combinations of amounts, spellings, units, closing words and references',
 'The tests cover single units with small amounts, and four of them cannot even match; sums, carries and calendar ends are untested.',
 [EN+'ENTimeAgoFormatParser.hpp',EN+'ENTimeLaterParser.hpp','src/utils/utils.cpp'], [('fragment collection','src/utils/utils.cpp extractDateTimeUnitFragments'),('applying fragments','extract() of both parsers')], API)

prop('C12', 'this, next, last and past units move the reference by exactly the amount',
 """"next", "last" or "past", an optional amount (digits, one to twelve, few, half) and a unit give the reference plus or minus exactly that amount, with the units, halves (of a minute or more) and calendar rules of deadlines.
 "this week" gives the range Sunday to Saturday around the reference, "this month" its first to last day, "this year" January 1 to December 31; "this" with an amount, or with an hour, minute, second or day,
 reports no result.""",
 ['inputs'], 'all modifiers, amounts, spellings, units and references',
 'The parser is exercised on six phrases at one reference.',
 [EN+'ENRelativeDateFormatParser.hpp'], [('modifier, amount and unit dispatch','ENRelativeDateFormatParser::extract')], API)

prop('C13', 'Week phrases move the reference by whole weeks',
 """"next week(s)" and "last week(s)", with an optional count in digits or one to twelve, give the calendar day that many times seven days after or before the reference, and "this week" the reference day;
 the day is implied and no time is given. Any other word in place of the count gives no result, and has no effect on later parsing.""",
 ['inputs','histories'], 'all counts, count words, other words and references, and all sequences of them',
 'Two phrases are tested.',
 [EN+'ENWeekExperessionParser.hpp'], [('week arithmetic','ENWeekExpressionParser::extract')], API)

prop('C14', 'Weekday names resolve to that weekday of the right week',
 """A weekday name or abbreviation, bare or with "this" before or after it, gives that weekday within the Sunday-to-Saturday week of the reference, as an implied date; with "last" or "next" before or after it (in the latter case optionally
 followed by "week") it gives the same weekday one week earlier or later, as a certain date. The day reported is always the named weekday. "early" or "earlier" directly before the modifier implies 6:01 and "late" 20:01, otherwise there is no time.""",
 ['inputs'], 'all weekday spellings, modifiers in either position, and all references at least two weeks inside the calendar (every weekday, month, year and leap boundary)',
 'Five phrases at one reference cannot cover seven names by seven reference weekdays by three weeks across month and year ends.',
 [EN+'ENDayOfTheWeekParser.hpp','src/utils/utils.hpp'], [('week-relative date search','ENDayOfWeekParser::updateParsedComponent'),('weekday table','src/utils/utils.hpp WEEKDAY_OFFSET')], API)

prop('C15', 'US holidays fall on their legal date in every year',
 """In every reference year each named holiday (with or without "day") gives: independence July 4, new year's January 1, new year's eve December 31, veterans November 11, christmas December 25, christmas eve December 24,
 MLK third Monday of January, president's third Monday of February, memorial last Monday of May, labor first Monday of September, columbus second Monday of October, thanksgiving fourth Thursday of November and black friday
 the day after thanksgiving. Date and time 00:00 are certain, as is the weekday for those defined by weekday, and it is the right one.""",
 ['inputs'], 'all years 1400-9999 times all holidays and spellings',
 'Each holiday is tested in one year; the weekday rules only differ over a 28 (or 400) year cycle.',
 [EN+'ENUSHolidaysParser.hpp'], [('nth weekday of month rules','ENHolidayParser::extract')], API)

prop('C16', 'ISO 8601 dates and times are read exactly as written',
 """A date Y-M-D with four digit year, optionally with Thh:mm, optional seconds and fraction, and optional Z or signed offset, gives exactly the written components as certain, with the signed zone offset in minutes
 (hours and minutes of the offset share its sign, and it is 0 when a time is given without one or with Z). Without a time the result has no time and no zone. Impossible dates and times give no result.""",
 ['inputs'], 'all field values including invalid ones, all offsets, all optional parts',
 'Four strings are tested; the field and offset space is not.',
 [EN+'ENISOFormatParser.hpp'], [('field conversion','ENISOFormatParser::extract')], API)

prop('C17', 'Month names and month-day dates name the right day and nearest year',
 """A month name or abbreviation gives the first (implied) of that certain month, and a month with a day (digits, ordinal suffix or ordinal word, optionally after a weekday, which is recorded) gives that certain month and day;
 a written year is taken as is (0000 to 0099 without an era stand for 2000 to 2099), or converted from BE or BC, a year before 1400 gives no result, and without a year the year whose date is nearest to the reference among the previous, same and next year is used (the last days of February aside).
 A day range such as "may 5 - 8, 2019" runs from the first day to 23:59 of the second.""",
 ['inputs'], 'all months, spellings, days, ordinals, separators, years, eras, ranges and references',
 'Around ten phrases at one reference are tested; spellings by days by reference dates is a product space, and the nearest-year rule turns around at half-year distance.',
 [EN+'ENMonthNameParser.hpp',EN+'ENMonthNameMiddleEndianParser.hpp','src/utils/utils.hpp','src/utils/utils.cpp'], [('month, ordinal and year conversion','extract() of both parsers'),('ordinal words','src/utils/utils.cpp argToOrdinalValue')], API)

prop('C18', 'Clock times and time ranges give the written hour, minute and second',
 """A clock time (h, h:mm or h:m, h:mm:ss, hmm, hhmm, noon, midnight; with a colon, a full-width colon or a dot; optionally after "at" or "from"; optionally a.m., p.m. or o'clock) gives exactly that hour, minute and, if written, second as certain on the reference's day,
 with 12 a.m. being 0 and 12 p.m. being 12; a minute or second of 60 or more, an hour above 24, or above 12 with a meridiem, gives no time. A range (joined by a hyphen, an en dash, ~, a wave dash or "to", its end written with minutes or as a full hour) gives both ends this way,
 and a meridiem written on only one side applies to both.""",
 ['inputs'], 'all hours, minutes, seconds, spellings and meridiem combinations on both sides of a range, and all references',
 'Ten phrases are tested; 24x60 times by meridiem forms by range forms is a product space, with one reported uninitialised read until repaired.',
 [EN+'ENTimeExpressionParser.hpp'], [('hour, minute, meridiem rules','ENTimeExpressionParser::extract')], API)

prop('C19', 'Of overlapping results the longer is kept and nothing else is lost',
 """Given any results in order of position, overlap removal returns a subset of them, unchanged and in order, no two of which overlap: each result is compared, in order, with the last one kept, and if these overlap only the longer stays, the first of equals. So a result that overlaps no other is
 always kept, of two that overlap just each other the longer is kept, and results that merely touch both stay.""",
 ['inputs'], 'all lists of results with arbitrary positions and lengths, chains of overlaps included, both synthetic and produced by the parsers',
 'One list of two results is tested.',
 ['src/refiners/OverlapRemovalRefiner.hpp'], [('single pass keeping the longer','OverlapRemover::refine')], ['input and output of OverlapRemover::refine'])

prop('C20', 'A time zone abbreviation after a time attaches its offset',
 """When the text after a clock time consists of nothing but a known two to four letter time zone abbreviation, optionally in parentheses and in any case, the result's start, and its end if it has one, carry that zone's offset in minutes as certain,
 the covered text extends over the abbreviation, and rendering shifts the shown start and end each by its offset. An offset already known is kept, and in every other case (unknown abbreviation, further text, result that is not a clock time) position, offset and rendering stay as they were.""",
 ['inputs'], 'all abbreviations of the table, all other short words, all times and ranges, spacing and parentheses, several results',
 'Two abbreviations are tested of about one hundred and sixty.',
 ['src/refiners/ExtractTimeZoneAbbreviation.hpp','src/utils/utils.hpp','src/result.cpp'], [('suffix match and table lookup','ExtractTimeZoneAbbreviation::refine'),('offset table','src/utils/utils.hpp DEFAULT_TIMEZONE_ABBR_MAP'),('shift in rendering','src/result.cpp toDate')], ['input and output of refine', 'ParsedResult::toDate()'])

prop('C21', 'A date next to a time becomes that date at that time',
 """Merging joins each date without a certain hour with the adjacent time without a certain day, in either order, into one result with the date's day and the time's hour, minute, second and zone (certain if the time's hour was), covering both texts; a time range gives
 the range on that day, moved to the next day when it would end before it starts. Results that do not form such a pair are passed on unchanged and in order, each result takes part in at most one merge, and nothing is lost, repeated or reported past the end of the calendar.""",
 ['inputs'], 'all result lists mixing dates, times, ranges and complete results in any order, synthetic and parsed from text, month, year and calendar ends included',
 'No existing test covers the merge of several results or a range past midnight.',
 ['src/refiners/en/ENMergeDateAndTimeRefiner.hpp'], [('pairing and component merge','ENMergeDateAndTime::refine / mergeResult / mergeDateTimeComponent')], ['input and output of refine','pipeline results for "date at time" texts'])

prop('C22', 'Two dates joined by "to", "and", "through" or "-" become one range',
 """Two adjacent results that are not ranges and have one of these connectors between them become one range covering both texts, from the earlier to the later of the two dates whatever their order in the text, with each end's components as they were and the tags of both.
 All other results are passed on unchanged and in order; each takes part in at most one range and nothing is lost or repeated.""",
 ['inputs'], 'all result lists and texts between them, in any number, synthetic and parsed from text',
 'No existing test covers the range refiner.',
 ['src/refiners/en/ENMergeDateRangeRefiner.hpp'], [('pairing, ordering and merge','ENMergeDateRange::refine / mergeResult')], ['input and output of refine','pipeline results for "date to date" texts'])

prop('C23', 'The command line program prints the date of the first phrase',
 """For a text with one recognised phrase the program prints "Date:", a tab and the rendered date (both ends for a range) that the phrase has relative to the reference argument, or to the current local time without one, and with several unrelated phrases that of the first; for a text without any it prints
 "[???] -- Invalid date". It agrees with the library pipeline on every text. A wrong number of arguments or a malformed reference prints the usage text instead; the exit status is 0 throughout.""",
 ['inputs','configurations'], 'all texts, references (well-formed, malformed, missing), time zones of the environment and argument counts',
 'The program itself has no test at all.',
 ['time.cpp']+REFI, [('assembly of parsers and refiners, sorting and printing','time.cpp main')], ['standard output and exit status of the program'])

prop('C24', 'Amounts that leave the calendar give no result, never a wrong date',
 """When a relative phrase asks for a date before year 1400 or after year 9999, or its amount is larger than the calendar spans (including amounts beyond 32 or 64 bits), the phrase gives no result: amounts never wrap around, saturate or get cut to a wrong date. Every phrase with amounts below 2^31
 whose date is inside the calendar does give its result, right up to the first and last day.""",
 ['inputs'], 'all amounts from 0 to 10^30 and all units and references, concentrated around the limits of the calendar and of machine integers',
 'No test goes near the limits.',
 ['src/utils/utils.cpp','src/parsers/parsers.cpp']+[EN+f for f in ('ENDeadlineFormatParser.hpp','ENTimeAgoFormatParser.hpp','ENTimeLaterParser.hpp','ENRelativeDateFormatParser.hpp','ENWeekExperessionParser.hpp')],
 [('amount guard','src/utils/utils.cpp isRepresentable'),('out-of-range guard','src/parsers/parsers.cpp execute')], API)

prop('C25', 'Rendering shows exactly the components of the result',
 """A result renders as YYYY-Mon-DD HH:MM:SS of its start with absent time components shown as 0, followed for a range by " - " and its end in the same form; hour 24 shows as 00:00:00 plus minutes and seconds of the next day. When a time zone abbreviation was attached, start and end are each shown shifted by their own offset. The date-time value obtained from the components alone equals
 the components in the same way, and rendering or converting changes nothing and gives the same again.""",
 ['inputs'], 'all component values, certain or implied, with and without end and zone',
 'Only one test touches rendering.',
 ['src/result.cpp'], [('conversion to date-time and text','src/result.cpp toDate, date')], ['ParsedResult::toDate()','ParsedComponents::date()'])

prop('C26', 'Dates are called possible exactly when they exist in the calendar',
 """isPossibleDate() is true exactly for components whose year, month and day (whether certain or implied) are a date of the calendar from 1400 to 9999 and whose hour is 0-24, minute 0-59 and second 0-59, with nothing past the end of 9999; it never wraps, cuts or normalises values that are out of range, whatever integers were set,
 and weekday and zone offset play no part. hasPossibleDates() of a result is true exactly when this holds for its start and, if it has one, its end. Asking changes nothing.""",
 ['inputs'], 'all combinations of component values over the whole range of int, certain, implied or absent, with and without end',
 'No test asks it of anything but everyday dates.',
 ['src/result.cpp'], [('validity of components and results','src/result.cpp isPossibleDate, hasPossibleDates')], ['ParsedComponents::isPossibleDate()','ParsedResult::hasPossibleDates()'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
