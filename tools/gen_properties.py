#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run from /verif): keeps the property texts editable."""
import json
P = []
def p(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

p("C01", "Every string gets exactly one answer: no panic, no hang, no half-result",
  "For every input string, every string-taking entry point (parse, validate, match, at package and at level scope, the date comparisons and the Unix range derivation) returns normally. A parse returns either a date whose start and end each carry a lower and an upper bound, or a non-nil error, and never both or neither; a match returns a feature name exactly when its error is nil.",
  ["inputs"], "all strings over the EDTF alphabet, including malformed, huge-number and truncated ones",
  "The tests feed about 70 well-formed strings; a crash such as an out-of-range slice needs one odd digit count or exponent that no sample holds.",
  ["parser/parser.go", "level0/level0.go", "level1/level1.go", "level2/level2.go", "level2/significant_digits.go", "common/exponential.go", "common/range.go"],
  [("regular-expression gate before every parse", "re/"), ("count checks on submatches", "level*/"), ("length check before slicing the year", "level2/significant_digits.go")],
  observe=["parser.ParseString", "parser.IsValid", "parser.Matches", "levelN.ParseString/Matches/IsLevelN", "cmp.IsBefore/IsAfter/IsBetween", "unix.DeriveRanges"])

p("C02", "A plain date spans exactly its day, month or year, for every year -9999..9999",
  "Parsing a Level 0 date (YYYY, YYYY-MM or YYYY-MM-DD, with an optional leading minus, proleptic Gregorian calendar, year 0 existing) yields a span from 00:00:00 UTC of its first day to 23:59:59 UTC of its last day. The start carries the year, month and day of the first day and the end those of the last day; for a month or a year, the start range is the whole first day and the end range the whole last day, and for a single day both start bounds are its 00:00:00 and both end bounds its 23:59:59. No date carries an uncertain, approximate, open or unknown marker.",
  ["inputs"], "all 19,999 years, all their months and all their days",
  "Six dates are tested out of 7.5 million; leap years, century rules, BCE years and year 0 are only sampled.",
  ["level0/date.go", "common/range.go", "common/span.go", "common/ymd.go", "common/time.go", "calendar/calendar.go"],
  [("string range -> YMD -> time conversion", "common/span.go"), ("days in month", "calendar/calendar.go"), ("BCE year flip", "common/year.go, common/time.go")],
  observe=["parser.ParseString", "level0.ParseDate"])

p("C03", "A day or month that is not in the calendar is never parsed into a date",
  "A string that names a nonexistent calendar date (month 00 or above 12 where it is not a season or grouping code, day 00, or a day beyond the length of its month in its year) is rejected with an error wherever such a date can appear: alone, qualified, in a date-and-time, as either end of an interval, or as any member of a set. It is never rolled over to a neighbouring date.",
  ["inputs"], "all year-month-day digit combinations, in every feature that embeds a date",
  "No test feeds a nonexistent date to a parser; the calendar test looks at four months.",
  ["common/ymd.go", "calendar/calendar.go", "re/common.go", "level0/date_and_time.go", "level2/set_representation.go"],
  [("day checked against the days in the month", "common/ymd.go"), ("time.Parse range checks", "level0/date_and_time.go")],
  observe=["parser.ParseString"])

p("C04", "A date and time denotes exactly one UTC instant",
  "Parsing YYYY-MM-DDThh:mm:ss with no zone or Z gives that wall-clock time in UTC, and with a shift of +hh, -hh, +hh:mm or -hh:mm gives that wall-clock time minus the shift, also across day, month, year, leap-day and BCE/CE boundaries. All four bounds are that one instant. A time outside 00:00:00..23:59:59 is rejected.",
  ["inputs"], "all dates in -9999..9999 crossed with times of day and zone shifts up to 23:59 whose instant stays within those years",
  "Eight strings are tested, one of them BCE and none BCE with a shift.",
  ["level0/date_and_time.go", "common/year.go"],
  [("layout selection from the submatches", "level0/date_and_time.go"), ("BCE flip", "common/year.go TimeToBCE")],
  observe=["parser.ParseString", "level0.ParseDateAndTime"])

p("C05", "An interval is composed of exactly its two endpoints",
  "Parsing A/B gives a start range covering exactly the full extent of A and an end range covering exactly the full extent of B, with each endpoint's own qualification flags; '..' gives a range marked open at both bounds and an empty endpoint a range marked unknown at both bounds, carrying no times. An interval with an endpoint that denotes no date (impossible, misspelt or not implemented) is rejected.",
  ["inputs"], "all ordered pairs of endpoints, of every precision, sign, qualification and unspecified-digit form that intervals of Levels 0, 1 and 2 admit",
  "About thirty pairs are tested and none in both orders or with mixed precisions on every side.",
  ["level0/time_interval.go", "level1/extended_interval.go", "level2/interval.go", "common/span.go"],
  [("split on '/', parse halves, splice bounds", "common/span.go DateSpanFromEDTF"), ("open/unknown ranges", "common/range.go")],
  observe=["parser.ParseString"])

p("C06", "Unspecified digits span exactly the dates that fill them in",
  "When a date with X digits is parsed, its lower bound is 00:00:00 of the earliest and its upper bound 23:59:59 of the latest calendar date obtained by replacing the X digits, and its start and end carry those two dates. The forms the specification gives (X as the rightmost digits of a year, X month, X day, 1X month, with any other components plain) are all accepted unless the first digit of the year is unspecified, or the replaced first or last year lacks the given day.",
  ["inputs"], "all masks over digits and X in year, month and day",
  "Eleven masks are tested out of hundreds of millions; months like 0X, days like 2X in February, and holes inside a year are never exercised.",
  ["level1/unspecified_digits.go", "level2/unspecified_digit.go", "common/range.go"],
  [("digit-by-digit start/end construction", "common/range.go StringRangeFromYMD")],
  observe=["parser.ParseString"])

p("C07", "Qualification marks mark exactly the components they apply to",
  "A '?', '~' or '%' written to the right of a component marks that component and every component to its left, and one written to the left marks that component only; '?' marks uncertain, '~' approximate, '%' both. All four bounds of the date carry exactly the union of those marks and no others, and the marks never change the dates of the span.",
  ["inputs"], "all placements of qualifiers around year, month and day, alone and inside intervals",
  "The tests check that one flag is present on one bound and never that a flag is absent, and never go through the public parser.",
  ["level1/qualified_date.go", "level2/qualification.go", "level2/interval.go", "common/range.go", "re/common.go"],
  [("individual/group qualifier detection", "common/range.go parseYMDComponent"), ("flag accumulation", "common/range.go StringRangeFromYMD")],
  observe=["parser.ParseString", "Date.Uncertain", "Date.Approximate"])

p("C08", "Every season and sub-year grouping code spans its months, in every year",
  "For every four-digit year, codes 21-24 (also spelled out as spring, summer, fall or winter, in any letter case, followed by a comma and the year), 25-32 (seasons by hemisphere), 33-36 (quarters), 37-39 (quadrimesters) and 40-41 (semesters) parse to a span from 00:00:00 of the first day of their first month to 23:59:59 of the last day of their last month. December-to-February seasons end in February of the following year with its own length. Codes 21-24 hold for negative years too, and a span that would end after year 9999 is rejected.",
  ["inputs"], "all years, all codes and spellings",
  "Six of 400,000 year/code pairs are tested.",
  ["level1/season.go", "level2/sub_year_grouping.go", "calendar/calendar.go"],
  [("code to month table", "level1/season.go, level2/sub_year_grouping.go"), ("days in month of the end month", "calendar/calendar.go")],
  observe=["parser.ParseString"])

p("C09", "A set spans its earliest to its latest member and says which kind it is",
  "Parsing a set [..] or {..} of plain dates gives a start at the beginning of its earliest member and an end at the end of its latest member, in time order whatever the order, sign or precision in which members are listed; a leading (trailing) double-dot makes the start (end) open instead. Every dated bound carries the ANY mark for square and the ALL mark for curly brackets, and no open bound carries either. A set with mismatched brackets, an empty member or an impossible member is rejected.",
  ["inputs"], "all sets of up to several members, of all precisions and signs, with ranges and open ends",
  "Nine sets are tested, all listed in ascending order with positive years.",
  ["level2/set_representation.go", "common/span.go"],
  [("candidate collection and ordering", "level2/set_representation.go"), ("open ends applied after the fact", "level2/set_representation.go")],
  observe=["parser.ParseString", "Date.Inclusivity"])

p("C10", "Prefixed, exponential and significant-digit years denote the right years",
  "YNNNN and Y<m>E<e> parse to the same span as the year they denote when it has an absolute value of at most 9999, and are rejected as unsupported when it is larger, however many digits or however large an exponent is written. A year followed by S<n>, with n from 1 to 4, spans from 1 January of the year with its last n digits all 0 to 31 December of the year with its last n digits all 9 (the other way round for negative years); an n larger than the year has digits is rejected.",
  ["inputs"], "all years, mantissas, exponents and digit counts",
  "Four exponential and four significant-digit strings are tested, half of them without any expected value.",
  ["level1/letter_prefixed_calendar_year.go", "level2/exponential_year.go", "level2/significant_digits.go", "common/exponential.go"],
  [("big-number evaluation with a range check", "common/exponential.go"), ("prefix plus repeated 0 or 9", "level2/significant_digits.go")],
  observe=["parser.ParseString"])

p("C11", "Level and feature are the same however you ask, and follow the syntax used",
  "For every string that parses, other than the two keywords '..' and '', the level and feature reported by matching equal those recorded in the parsed date and are the ones of the lowest level whose syntax the string has; matching at that level reports the same feature, exactly the predicates of that level and of that feature hold among the level predicates tried in order, and the two keywords parse to level -1. A string is assigned to a level only if it as a whole, not a prefix or suffix of it, has that level's syntax.",
  ["inputs"], "all strings accepted at any level",
  "Tests check the level predicate of each sample and never the feature name obtained through the public entry points.",
  ["parser/parser.go", "level0/level0.go", "level1/level1.go", "level2/level2.go", "re/"],
  [("ordered dispatch duplicated in Matches and ParseString", "parser/parser.go, level*/level*.go"), ("anchored patterns", "re/level*.go")],
  observe=["parser.Matches", "EDTFDate.Level", "EDTFDate.Feature", "levelN.Matches"])

p("C12", "Only strings with EDTF syntax are valid, and whatever parses is valid",
  "Validation accepts every string that parses, and rejects every string that as a whole does not have the written shape of some supported EDTF feature, such as a valid date with any character inserted, removed or appended that breaks that shape. A string rejected by validation fails to parse with the unrecognized-string error.",
  ["inputs"], "all short strings, and all strings within a bounded number of edits of a valid one",
  "Tests check four invalid strings, all far from any valid one.",
  ["parser/parser.go", "re/common.go", "re/level0.go", "re/level1.go", "re/level2.go"],
  [("anchored alternations per level", "re/level*.go")],
  observe=["parser.IsValid", "parser.ParseString"])

p("C13", "A parsed date survives a JSON round trip unchanged",
  "For every string that parses, marshalling the result to JSON and unmarshalling it gives a deeply equal date, and marshalling that again gives the same bytes. In the JSON a timestamp is a signed integer that is present exactly when the bound has an instant, including when it is 0.",
  ["inputs"], "every kind of parse result, and all timestamps of representable years",
  "One hand-written document is unmarshalled and two of its numbers are looked at; nothing is marshalled.",
  ["edtf.go", "date.go", "daterange.go", "timestamp.go", "ymd.go"],
  [("custom timestamp codec", "timestamp.go"), ("field tags", "date.go, edtf.go")],
  observe=["encoding/json Marshal/Unmarshal of EDTFDate"])

p("C14", "Within a bound, text, Unix time and calendar fields tell the same instant",
  "In every date returned by a parse, each bound with an instant has an RFC 3339 UTC text, a Unix timestamp and (except for a date-and-time) year, month and day fields that all denote the same instant, and it is marked neither open nor unknown. A bound without an instant has no text, timestamp or fields and is marked either open or unknown, not both. The overall lower and upper accessors return the start's lower and the end's upper instant in UTC, or a not-set error when there is none.",
  ["inputs"], "every bound of every parse result",
  "Tests compare timestamps only; the text and the calendar fields of a parse result are never checked.",
  ["date.go", "timestamp.go", "edtf.go", "common/span.go", "common/range.go"],
  [("SetTime writes text and timestamp together", "date.go"), ("YMD shared between bounds", "common/span.go")],
  observe=["edtf.Date fields", "EDTFDate.Lower", "EDTFDate.Upper"])

p("C15", "Before, after and between follow from the spans alone",
  "For two dates with bounds, A is before B exactly when A's last instant is earlier than B's first, and A is after B exactly when A's first instant is later than B's last, so that A is before B if and only if B is after A, never both, and never for A against itself. D is between an inception and a cessation exactly when it is neither before the inception nor after the cessation, an open cessation imposing nothing. The fully open date is neither before nor after anything, and a comparison that needs a bound which does not exist returns false and an error.",
  ["inputs"], "all pairs and triples of dates",
  "Five before/after pairs and nine triples are tested, only for the expected positive side.",
  ["edtf.go", "cmp/before.go", "cmp/after.go", "cmp/between.go"],
  [("comparison of upper and lower instants", "edtf.go Before/After"), ("composition", "cmp/between.go")],
  observe=["EDTFDate.Before", "EDTFDate.After", "cmp.IsBefore", "cmp.IsAfter", "cmp.IsBetween"])

p("C16", "Unix ranges are the four bounds of the parsed date, or nothing",
  "Deriving ranges from a string that parses with four instants returns true with an outer range from start-lower to end-upper and an inner range from start-upper to end-lower, as Unix seconds. For an open, unknown or deprecated keyword, or a date with any bound lacking an instant, it returns false, no range and no error; for a string that does not parse it returns false and an error.",
  ["inputs"], "all strings, of every feature",
  "Two single days are tested, for which outer and inner ranges coincide.",
  ["unix/range.go"], [("bound extraction", "unix/range.go DeriveRanges")], observe=["unix.DeriveRanges"])

p("C17", "Answers never depend on what was asked, or done to results, before",
  "Every answer of the library is a function of its arguments: after any sequence of parses, matches, validations, comparisons and range derivations, and after a caller has overwritten every field reachable from any result it was given, each call gives the same answer as in a fresh process. Results of separate calls share no mutable memory.",
  ["histories"], "all sequences of calls up to a bounded length over a set of inputs covering every feature, with callers mutating results in between",
  "Tests call each function once per input and never modify a result.",
  ["parser/parser.go", "common/range.go", "common/span.go", "level2/set_representation.go", "deprecated.go"],
  [("fresh objects per call", "common/range.go EmptyDateRange, common/span.go")],
  state=[("compiled patterns", "package-level, read-only after init", "re/"), ("deprecated map", "package-level, read-only after init", "deprecated.go")],
  observe=["all public entry points"])

p("C18", "Concurrent callers get the same answers as sequential callers",
  "Calls made from several goroutines at once each return exactly what they return when made alone, under every interleaving, without data races or deadlock.",
  ["schedules"], "all interleavings, up to a bounded number of preemptions, of concurrent calls covering every feature",
  "No test starts a second goroutine.",
  ["parser/parser.go", "common/", "level0/", "level1/", "level2/", "re/"],
  [("no package-level mutable state", "whole module")], observe=["parser.ParseString and every other public entry point"])

p("C19", "Errors are classified truthfully and by exactly one predicate",
  "An error made by each of the not-set, not-implemented, invalid, unsupported and unrecognized constructors satisfies its own predicate and no other, and its text names the offending string and label where given. A parse of a year beyond 9999 in absolute value fails as unsupported, of a year whose first digit is unspecified as not implemented, and of a string that matches no EDTF syntax as unrecognized; reading a missing overall bound fails as not set.",
  ["inputs"], "all error constructors with all argument shapes; all strings of the three failing classes",
  "No test calls an error predicate except to skip a failure.",
  ["errors.go", "edtf.go", "level1/letter_prefixed_calendar_year.go", "common/exponential.go", "common/range.go", "parser/parser.go"],
  [("one type per kind", "errors.go")], observe=["edtf.IsNotSet/IsNotImplemented/IsInvalid/IsUnsupported/IsUnrecognized"])

p("C20", "Precision values behave as a set of flags",
  "For every value reachable by adding, clearing and toggling flags, a flag is reported present exactly when it was last added or toggled on; operations on one flag never affect another; the annual, monthly and daily predicates are exactly the presence of YEAR, MONTH and DAY; and the named flags are distinct single bits with the documented values.",
  ["histories"], "all reachable flag values and all operations from each",
  "Flag values are only read, one at a time, by tests.",
  ["precision.go"], [("bit operations", "precision.go")], observe=["edtf.Precision methods"])

p("C21", "The calendar helpers compute the Gregorian calendar",
  "The number of days in a month is right for every month of every year from -9999 to 9999, given as numbers or as text. Converting year, month and day strings gives those numbers exactly when they name a real date (with a missing day replaced by the last day of the month and a missing month by January) and an error otherwise, and combining them with a time of day gives that UTC instant, BCE years included.",
  ["inputs"], "all year-month pairs, all year-month-day triples and their text forms",
  "Four months and four dates are tested.",
  ["calendar/calendar.go", "common/ymd.go", "common/time.go", "common/year.go"],
  [("day before the first of the next month", "calendar/calendar.go"), ("range checks", "common/ymd.go"), ("year flip", "common/year.go")],
  observe=["calendar.DaysInMonth", "calendar.DaysInMonthWithString", "common.YMDFromString(s)", "common.TimeWithYMD", "common.TimeToBCE"])

p("C22", "The command-line tools report exactly what the library says, in order",
  "Given any list of arguments (after '--' where the first one starts with a minus sign) that the library all parses, the parse tool exits 0 and prints one JSON array holding the library's JSON of each argument in order (an empty array for none), and given any list that it all matches, the match tool exits 0 and prints one line per argument, in order, with its level and feature. If any argument fails, the tool exits non-zero and reports the first failing argument on standard error.",
  ["inputs", "histories"], "all argument lists up to a bounded length over inputs of every feature and failing ones",
  "The commands have no tests.",
  ["cmd/parse/main.go", "cmd/matches/main.go"], [("loop over arguments", "cmd/parse/main.go, cmd/matches/main.go")], observe=["process exit status, stdout, stderr"])

p("C23", "The WebAssembly builds give the same answers as the native library",
  "For every string (given after '--' where it starts with a minus sign), the WASI program prints the same JSON as the native library for a string that parses and the same error text for one that does not. The browser function's promise resolves with that same JSON, or is rejected with a reason that contains the offending string and the error text.",
  ["inputs", "configurations"], "all strings of a corpus covering every feature and failure class, on each build target",
  "No test builds or runs a WebAssembly target; the int and rounding behaviour there is never compared.",
  ["cmd/parse-wasi/main.go", "cmd/parse-wasm/main.go"], [("thin wrappers over the parser", "cmd/parse-wasi/main.go, cmd/parse-wasm/main.go")], observe=["stdout of the WASI module under a WASI runtime", "promise of parse_edtf"])

p("C24", "Answers do not depend on the machine's time zone",
  "Under every local time zone setting, every parse, comparison and range derivation gives the same answer, with every time reported in UTC.",
  ["configurations", "inputs"], "all installed time zones, over date-and-time strings with shifts that coincide with the local offset and strings of every other feature",
  "Tests run in one time zone only.",
  ["level0/date_and_time.go", "timestamp.go", "date.go", "common/time.go"],
  [("parsed times converted to UTC", "level0/date_and_time.go"), ("UTC on reading", "timestamp.go Time")], observe=["parser.ParseString", "EDTFDate.Lower/Upper", "unix.DeriveRanges"])

p("C25", "Open, unknown and deprecated keywords are recognised exactly",
  "A string is reported open exactly when it is '..' or 'open', unknown and unspecified exactly when it is empty or 'uuuu', and deprecated exactly when it is 'open' or 'uuuu'. Replacing a deprecated string gives its current form ('..' and '' respectively), which is not deprecated, keeps the same classification and parses; replacing any other string fails. Parsing '..' gives a date whose four bounds are all open, and '' one whose four bounds are all unknown.",
  ["inputs"], "all short strings over an alphabet containing the keywords' letters",
  "Nine strings are tested.",
  ["edtf.go", "deprecated.go", "parser/parser.go", "common/range.go", "common/span.go"],
  [("keyword switch", "edtf.go"), ("replacement map", "deprecated.go")], observe=["edtf.IsOpen/IsUnknown/IsUnspecified/IsDeprecated/ReplaceDeprecated", "parser.ParseString"])

p("C26", "The original text is preserved in the result",
  "The EDTF text of a parsed date, and its string form, equal the input byte for byte. For a plain, qualified or unspecified-digit date both ranges carry the input text, and for an interval the start range carries exactly the text left of the slash and the end range exactly the text right of it.",
  ["inputs"], "all strings that parse, of every feature and spelling",
  "No test looks at the EDTF text of a result.",
  ["edtf.go", "common/span.go", "level0/", "level1/", "level2/"],
  [("EDTF field set from the argument", "level*/"), ("per-half text", "common/span.go")], observe=["EDTFDate.EDTF", "EDTFDate.String", "DateRange.EDTF"])

p("C27", "Precision names the granularity left by unspecified digits",
  "For a year of which the last one, two or three digits are unspecified, all four bounds have precision DECADE, CENTURY or MILLENIUM alone, and the same holds when a plain month and day follow; for a plain year with an unspecified month (and day) it is YEAR alone, and for a plain year and month with an unspecified day it is MONTH alone. Every dated bound that does not come from a date-and-time has exactly one precision flag, the same on the two bounds of each endpoint.",
  ["inputs"], "all such masks, and every bound of every other parse result for the single-flag rule",
  "Eight masks are tested, on one bound, for presence only.",
  ["common/range.go"], [("precision assignment", "common/range.go StringRangeFromYMD")], observe=["Date.Precision"])

p("C28", "Spans are ordered, and saying more about a date never widens its span",
  "For every accepted string other than an interval, the bounds that have instants are ordered: start-lower <= start-upper, end-lower <= end-upper and start-lower <= end-upper; for an interval the first two hold. Replacing an unspecified digit by a digit, or adding a month to a year or a day to a month, gives a span inside the original one; adding or removing qualifiers changes no bound.",
  ["inputs"], "all refinement pairs of plain and unspecified-digit dates, and every accepted string for the ordering",
  "Tests look at one string at a time and never relate the spans of two strings.",
  ["common/range.go", "common/span.go", "level2/set_representation.go"],
  [("start/end construction", "common/range.go, common/span.go")], observe=["parser.ParseString"])

p("C29", "Every parser that reads a string reads it the same",
  "Whatever a level's parser or a feature's own parser accepts, the general parser accepts too, and the answers have the same text and, on every bound, the same date text, instant, calendar fields, marks, precision, open, unknown and inclusivity values (for seasons and month groups read at another level: on the lower bound of the start and the upper bound of the end). The answer names the level and feature of the parser that gave it. What a feature's own parser accepts, its own predicate accepts.",
  ["inputs"], "all strings over the EDTF alphabet within bounds, through every public parser of each level",
  "Tests call each feature's parser with its own samples and never compare its answer with the general parser's.",
  ["parser/parser.go", "level0/", "level1/", "level2/"],
  [("feature dispatch of each level", "level0/level0.go, level1/level1.go, level2/level2.go"), ("level dispatch", "parser/parser.go")],
  observe=["levelN.ParseString", "level0/1/2 Parse<Feature>", "parser.ParseString"])

p("C30", "32-bit builds give the same answers as 64-bit builds",
  "Built for a platform with 32-bit integers, the library gives for every string the same answer (date with all its bounds and marks, error, level, feature, comparison, range) as built for a 64-bit platform: no year, timestamp, exponent or digit count wraps, is cut off or crashes.",
  ["inputs", "configurations"], "all strings within bounds, years and numbers across the limits of 32-bit integers among them",
  "Tests run on one platform, where an int has 64 bits.",
  ["common/exponential.go", "common/ymd.go", "common/time.go", "level2/significant_digits.go", "timestamp.go", "unix/range.go"],
  [("int for years, int64 for instants", "common/, timestamp.go")], observe=["every string-taking entry point"])

p("C31", "A tool that cannot write all of its output says so",
  "When standard output of the parse tool, the match tool or the WASI program fails at any point (disk full, closed, an error in the middle), the tool exits non-zero with a message on standard error, and what it wrote before a lasting failure is a prefix of its right output. When the failure lies beyond the end of the output, it exits 0 with all of its output.",
  ["crash_points", "inputs"], "every byte position of the output as the point of failure, failing from there on or once",
  "The commands have no tests and no fault is ever injected.",
  ["cmd/parse/main.go", "cmd/matches/main.go", "cmd/parse-wasi/main.go"], [("writes to standard output", "cmd/")],
  observe=["exit status, stdout and stderr of the process"])

p("C32", "Dates have the documented JSON form, and are read from it exactly",
  "A parsed date is written as the JSON object documented by the structures in the README: exactly these member names, optional members absent exactly when empty, and timestamps as integers of seconds. A document of that form is read into exactly the values it states, whatever the order or spelling (escapes, spaces) of its members, a member left out or null giving an empty value. A timestamp that is not a signed 64-bit integer is refused with an error, never rounded or truncated.",
  ["inputs"], "documents of every feature with every member removed, null, reordered or respelled, and timestamps of every size and notation",
  "One hand-written document is read and two of its numbers are looked at.",
  ["edtf.go", "date.go", "timestamp.go", "ymd.go", "daterange.go"],
  [("struct tags", "edtf.go, date.go, daterange.go, ymd.go"), ("MarshalJSON/UnmarshalJSON", "timestamp.go")], observe=["encoding/json of edtf.EDTFDate and its parts"])

p("C33", "The demonstration server serves its page, and the page shows the answers",
  "The server answers every path of its embedded site with that file and its content type and every other path with an error, and ends with an error when its port is taken. In the page, the button is enabled only when the parser is loaded, and every press shows the library's JSON for the string in the field, or its error, with nothing of an earlier press left. Text from the field is never taken as markup.",
  ["inputs", "histories"], "all request paths of bounded length, all sequences of presses up to a bound, and every failure to load",
  "The server and the page have no tests.",
  ["app/server/www/www.go", "app/server/www/index.html", "app/server/www/javascript/index.js", "wasm/wasm.go", "cmd/server-wasm/main.go", "cmd/parse-wasm/main.go"],
  [("embedded file systems", "app/server/www/www.go, wasm/wasm.go"), ("page script", "app/server/www/javascript/index.js")], observe=["HTTP responses", "the page's document"])

p("C34", "Work and memory for a string grow with its length, not with its numbers",
  "For every string, each call of the library runs a number of statements and allocates an amount of memory that are at most proportional to the length of the string. They do not depend on how large the years, exponents and counts in it are, nor on how far apart the members of a set or the ends of an interval lie.",
  ["inputs"], "all strings, with numbers of every size and with up to tens of thousands of members and digits",
  "The tests look at results, of short strings with small numbers; a loop over the years of a range or the powers of an exponent gives the same results.",
  ["level2/set_representation.go", "level2/exponential_year.go", "level2/significant_digits.go", "common/exponential.go", "common/range.go", "common/span.go"],
  [("bookends of a set instead of its members", "level2/set_representation.go"), ("bounds checked before a number is used", "common/exponential.go")],
  observe=["statements run and bytes allocated in every exported function that takes a string"])

p("C35", "The shared span functions read dates the same as the parsers",
  "Whatever common.DateSpanFromEDTF and parser.ParseString both read, they read the same: bounds, marks, precision, open and unknown ends. The span of one date starts and ends on the days that common.StringRangeFromYMD names (as YMDFromStringDate, TimeWithYMD and TimeWithYMDString read them), a mark beside a component sets exactly the flags of that component (on its left) or of it and those before it (on its right) and moves no bound, and the span of two dates joined by a slash is made of the two dates' own spans. What these functions do not read gives an error and nothing else.",
  ["inputs"], "all dates with every mark and mask, all pairs of ends, and all bounded strings",
  "The tests call the span function with a dozen strings and look at a few fields; it is never compared with the parsers or with its own helpers.",
  ["common/span.go", "common/range.go", "common/ymd.go", "common/time.go"],
  [("one reader of dates behind every feature", "common/span.go"), ("marks of components", "common/range.go")],
  observe=["common.DateSpanFromEDTF", "common.StringRangeFromYMD", "common.TimeWithYMD"])

p("C36", "A call leaves nothing behind: no memory, goroutine or open file",
  "However many calls of the library a process makes, of whatever kind, of the same or ever new strings, whether they succeed or fail, from one goroutine or several, once their results are dropped it holds no more memory, goroutines or open files than after a few of them. However often the browser function is called, the program and the page hold no more memory and no more values of each other once the promises are settled.",
  ["histories"], "long histories of each kind of call on each family of strings, and of all mixed",
  "A test makes each call once and ends; what a call keeps shows only after thousands of them, in the page or a server that stays up.",
  ["parser/parser.go", "common/range.go", "level2/set_representation.go", "re/re.go", "cmd/parse-wasm/main.go"],
  [("package variables", "re/re.go"), ("functions handed to JavaScript", "cmd/parse-wasm/main.go")],
  observe=["live objects, bytes, goroutines and files of a process", "memory and held values of the WebAssembly instance"])

with open("properties.jsonl", "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
