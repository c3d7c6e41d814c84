From 71b2ca2c4879a0198907bf91fdd2ae75c4d3bbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:01 +0000
Subject: [PATCH 01/23] fix: group the alternatives of the season pattern

Ungrouped, '^A|B$' matched any string that begins with a year and month
(2004-06~, 2004-06-11%, 1985-04/..) as a season, and '(?i)' applied to the
rest of the Level 1 pattern.
---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index d377452..a0933b9 100644
--- a/re/re.go
+++ b/re/re.go
@@ -36,7 +36,7 @@ const PATTERN_TIME_INTERVAL string = PATTERN_DATE + `/` + PATTERN_DATE
 
 const PATTERN_LETTER_PREFIXED_CALENDAR_YEAR string = `Y(\-?\d+)`
 
-const PATTERN_SEASON string = PATTERN_YEAR + `\-(0[1-9]|1[0-2]|2[1-4])|(?i)(spring|summer|fall|winter)\s*,\s*(\d{4})`
+const PATTERN_SEASON string = `(?:` + PATTERN_YEAR + `\-(0[1-9]|1[0-2]|2[1-4])|(?i:(spring|summer|fall|winter))\s*,\s*(\d{4}))`
 
 const PATTERN_QUALIFIED_DATE string = PATTERN_DATE + `(\?|~|%)`
 
-- 
2.43.0


From 3091b10f371682611a477feeeb0d075c774e7e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:02 +0000
Subject: [PATCH 02/23] fix: anchor the Level 2 pattern at the end of the
 string

Any string with a Level 2 prefix ('2001 hello') was Level 2, hence valid.
Also keep the '(?i)' of the exponential year from applying to the patterns
that follow it in the Level 2 and significant digits expressions.
---
 re/level2.go | 2 +-
 re/re.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/re/level2.go b/re/level2.go
index 5a6e561..e61f3b8 100644
--- a/re/level2.go
+++ b/re/level2.go
@@ -45,5 +45,5 @@ func init() {
 		PATTERN_INTERVAL,
 	}
 
-	Level2 = regexp.MustCompile(`^` + `(` + strings.Join(level2_patterns, "|") + `)`)
+	Level2 = regexp.MustCompile(`^` + `(` + strings.Join(level2_patterns, "|") + `)$`)
 }
diff --git a/re/re.go b/re/re.go
index a0933b9..c6a65f5 100644
--- a/re/re.go
+++ b/re/re.go
@@ -50,7 +50,7 @@ const PATTERN_NEGATIVE_YEAR = `\-` + PATTERN_YEAR
 
 // Level 2
 
-const PATTERN_EXPONENTIAL_YEAR string = `(?i)Y(\-?\d+E\d+)`
+const PATTERN_EXPONENTIAL_YEAR string = `(?i:Y(\-?\d+E\d+))`
 
 const PATTERN_SIGNIFICANT_DIGITS string = `(?:` + PATTERN_YEAR + `|` + PATTERN_LETTER_PREFIXED_CALENDAR_YEAR + `|` + PATTERN_EXPONENTIAL_YEAR + `)S(\d+)`
 
-- 
2.43.0


From 56f2aa0527aa27590e7ff44e59f9255fd06f81bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:48 +0000
Subject: [PATCH 03/23] fix: write derived years with four digits

Years with an absolute value below 1000 were passed on to the date parser
without padding (or, when negative, with one digit too few) and rejected:
'-0400-21', '0005-28', 'Y5E2', '0500S2'.
---
 common/year.go               | 11 +++++++++++
 level1/season.go             |  2 +-
 level2/exponential_year.go   |  3 +--
 level2/significant_digits.go |  2 +-
 level2/sub_year_grouping.go  |  4 ++--
 5 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/common/year.go b/common/year.go
index 16e8463..d886e6b 100644
--- a/common/year.go
+++ b/common/year.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"fmt"
 	"time"
 )
 
@@ -11,3 +12,13 @@ func FlipYear(yyyy int) int {
 func TimeToBCE(t time.Time) time.Time {
 	return t.AddDate(-2*t.Year(), 0, 0)
 }
+
+// Format a year as a string with (at least) four digits and an optional leading "-".
+func FormatYear(yyyy int) string {
+
+	if yyyy < 0 {
+		return fmt.Sprintf("-%04d", FlipYear(yyyy))
+	}
+
+	return fmt.Sprintf("%04d", yyyy)
+}
diff --git a/level1/season.go b/level1/season.go
index e8b3cf7..4800350 100644
--- a/level1/season.go
+++ b/level1/season.go
@@ -173,7 +173,7 @@ func ParseSeason(edtf_str string) (*edtf.EDTFDate, error) {
 
 	end_dd = dm
 
-	_str := fmt.Sprintf("%04d-%02d-%02d/%04d-%02d-%02d", start_yyyy, start_mm, start_dd, end_yyyy, end_mm, end_dd)
+	_str := fmt.Sprintf("%s-%02d-%02d/%s-%02d-%02d", common.FormatYear(start_yyyy), start_mm, start_dd, common.FormatYear(end_yyyy), end_mm, end_dd)
 
 	sp, err := common.DateSpanFromEDTF(_str)
 
diff --git a/level2/exponential_year.go b/level2/exponential_year.go
index ea90b09..37f3bea 100644
--- a/level2/exponential_year.go
+++ b/level2/exponential_year.go
@@ -4,7 +4,6 @@ import (
 	"github.com/sfomuseum/go-edtf"
 	"github.com/sfomuseum/go-edtf/common"
 	"github.com/sfomuseum/go-edtf/re"
-	"strconv"
 )
 
 /*
@@ -47,7 +46,7 @@ func ParseExponentialYear(edtf_str string) (*edtf.EDTFDate, error) {
 		return nil, err
 	}
 
-	str_yyyy := strconv.Itoa(yyyy)
+	str_yyyy := common.FormatYear(yyyy)
 
 	sp, err := common.DateSpanFromEDTF(str_yyyy)
 
diff --git a/level2/significant_digits.go b/level2/significant_digits.go
index 925d1ea..1a346d4 100644
--- a/level2/significant_digits.go
+++ b/level2/significant_digits.go
@@ -105,7 +105,7 @@ func ParseSignificantDigits(edtf_str string) (*edtf.EDTFDate, error) {
 		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)
 	}
 
-	str_yyyy = strconv.Itoa(yyyy)
+	str_yyyy = common.FormatYear(yyyy)
 	prefix_yyyy := str_yyyy[0 : len(str_yyyy)-digits]
 
 	first := strings.Repeat("0", digits)
diff --git a/level2/sub_year_grouping.go b/level2/sub_year_grouping.go
index b96888f..5d3b14b 100644
--- a/level2/sub_year_grouping.go
+++ b/level2/sub_year_grouping.go
@@ -96,7 +96,7 @@ func ParseSubYearGroupings(edtf_str string) (*edtf.EDTFDate, error) {
 			return nil, err
 		}
 
-		end_yyyy = strconv.Itoa(y + 1)
+		end_yyyy = common.FormatYear(y + 1)
 
 	case "29": // Spring - Southern Hemisphere
 		start_mm = "09"
@@ -116,7 +116,7 @@ func ParseSubYearGroupings(edtf_str string) (*edtf.EDTFDate, error) {
 			return nil, err
 		}
 
-		end_yyyy = strconv.Itoa(y + 1)
+		end_yyyy = common.FormatYear(y + 1)
 
 	case "31": // Autumn - Southern Hemisphere
 		start_mm = "03"
-- 
2.43.0


From 6c469d952697a7078e07962f052d1f5654302833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:49 +0000
Subject: [PATCH 04/23] fix: reject more significant digits than the year has

The number of digits was compared with the length of its own text, so
'1950S5' panicked with a slice out of range.
---
 level2/significant_digits.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/level2/significant_digits.go b/level2/significant_digits.go
index 1a346d4..e1375f6 100644
--- a/level2/significant_digits.go
+++ b/level2/significant_digits.go
@@ -101,11 +101,12 @@ func ParseSignificantDigits(edtf_str string) (*edtf.EDTFDate, error) {
 		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)
 	}
 
-	if len(strconv.Itoa(digits)) > len(strconv.Itoa(yyyy)) {
+	str_yyyy = common.FormatYear(yyyy)
+
+	if digits > len(strings.TrimPrefix(str_yyyy, edtf.NEGATIVE)) {
 		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)
 	}
 
-	str_yyyy = common.FormatYear(yyyy)
 	prefix_yyyy := str_yyyy[0 : len(str_yyyy)-digits]
 
 	first := strings.Repeat("0", digits)
-- 
2.43.0


From 6967ee24071794ceaac9ddc5a327f0d2e8eaa483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:51 +0000
Subject: [PATCH 05/23] fix: accept significant digits of negative
 letter-prefixed years

The sign was counted as a digit, so 'Y-1950S2' was rejected as unsupported.
---
 level2/significant_digits.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/level2/significant_digits.go b/level2/significant_digits.go
index e1375f6..fd390ca 100644
--- a/level2/significant_digits.go
+++ b/level2/significant_digits.go
@@ -65,7 +65,7 @@ func ParseSignificantDigits(edtf_str string) (*edtf.EDTFDate, error) {
 
 	} else if str_year != "" {
 
-		if len(str_year) > 4 {
+		if len(strings.TrimPrefix(str_year, edtf.NEGATIVE)) > 4 {
 			return nil, edtf.Unsupported(SIGNIFICANT_DIGITS, edtf_str)
 		}
 
-- 
2.43.0


From 1c9e6d6dab11125bb79166b356feed2b74118659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:34 +0000
Subject: [PATCH 06/23] fix: check the range of an exponential year before
 truncating it

The year was reduced modulo 2^64 first, so 'Y1E64' was the year 0 and
'Y9223372036854775810E3' the year 2048; an exponent that overflows
(Y1E700000000) panicked on the conversion of infinity to an integer.
---
 common/exponential.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/common/exponential.go b/common/exponential.go
index 0acaab7..19ed42b 100644
--- a/common/exponential.go
+++ b/common/exponential.go
@@ -10,17 +10,19 @@ func ParseExponentialNotation(notation string) (int, error) {
 
 	flt, _, err := big.ParseFloat(notation, 10, 0, big.ToNearestEven)
 
+	// notation may be too large to represent, in which case ParseFloat returns an error or infinity
+
 	if err != nil {
-		return 0, err
+		return 0, edtf.Unsupported("exponential notation", notation)
 	}
 
-	var i = new(big.Int)
-	yyyy, _ := flt.Int(i)
+	max := big.NewFloat(float64(edtf.MAX_YEARS))
+	min := big.NewFloat(float64(0 - edtf.MAX_YEARS))
 
-	if yyyy.Int64() > int64(edtf.MAX_YEARS) || yyyy.Int64() < int64(0-edtf.MAX_YEARS) {
+	if flt.Cmp(max) > 0 || flt.Cmp(min) < 0 {
 		return 0, edtf.Unsupported("exponential notation", notation)
 	}
 
-	yyyy_i := int(yyyy.Int64())
-	return yyyy_i, nil
+	yyyy, _ := flt.Int64()
+	return int(yyyy), nil
 }
-- 
2.43.0


From 2a1b54613428b103cb149d90b81c6c01c70ee71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:48 +0000
Subject: [PATCH 07/23] fix: apply the BCE year of a date and time before its
 time shift

The sign was applied after the conversion to UTC, so a shift across the end
of a year went the wrong way ('-1972-12-31T23:00:00-05' was in -1973). Parse
in UTC so that the shift is not replaced by the local time zone, whose rules
for the BCE year can differ.
---
 level0/date_and_time.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/level0/date_and_time.go b/level0/date_and_time.go
index 2fc5227..1775a5c 100644
--- a/level0/date_and_time.go
+++ b/level0/date_and_time.go
@@ -63,18 +63,21 @@ func ParseDateAndTime(edtf_str string) (*edtf.EDTFDate, error) {
 		t_fmt = fmt.Sprintf("-%s", t_fmt)
 	}
 
-	t, err := time.Parse(t_fmt, edtf_str)
+	t, err := time.ParseInLocation(t_fmt, edtf_str, time.UTC)
 
 	if err != nil {
 		return nil, err
 	}
 
-	t = t.UTC()
+	// the year is the one in the local time of the string so it needs
+	// to be updated before (rather than after) the conversion to UTC
 
 	if is_bce {
 		t = common.TimeToBCE(t)
 	}
 
+	t = t.UTC()
+
 	upper_date := &edtf.Date{}
 
 	lower_date := &edtf.Date{}
-- 
2.43.0


From 50de57ca375cb9d83764521d1b0cdf230f186663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:25 +0000
Subject: [PATCH 08/23] fix: an unspecified digit in a month from 01 to 09
 means one of those months

'2001-0X' spanned October to December, the months of '2001-1X'.
---
 common/range.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/range.go b/common/range.go
index 14de55f..d6af2c1 100644
--- a/common/range.go
+++ b/common/range.go
@@ -367,6 +367,13 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 			start_mm = "01"
 			end_mm = "12"
 
+		} else if strings.HasPrefix(mm, "0") {
+			start_mm = "01"
+			end_mm = "09"
+
+			precision = edtf.NONE
+			precision.AddFlag(edtf.MONTH)
+
 		} else {
 			start_mm = "10"
 			end_mm = "12"
-- 
2.43.0


From 61f147f0751184e55dd4cf4a84af1c4fb13283b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:27 +0000
Subject: [PATCH 09/23] fix: accept unspecified days 0X, and 2X in a February
 of 28 days

'1985-04-0X' was rejected as invalid and '2001-02-2X' because 2001 has no
29 February.
---
 common/range.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/common/range.go b/common/range.go
index d6af2c1..46ee662 100644
--- a/common/range.go
+++ b/common/range.go
@@ -398,6 +398,9 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 		case "X":
 			start_dd = "01"
 			end_dd = ""
+		case "0":
+			start_dd = "01"
+			end_dd = "09"
 		case "1":
 			start_dd = "10"
 			end_dd = "19"
@@ -439,17 +442,21 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 		end_mm = "12"
 	}
 
-	if end_dd == "" {
+	if end_dd == "" || dd == "2X" {
 
 		yyyymm := fmt.Sprintf("%s-%s", end_yyyy, end_mm)
 
-		dd, err := calendar.DaysInMonthWithString(yyyymm)
+		days, err := calendar.DaysInMonthWithString(yyyymm)
 
 		if err != nil {
 			return nil, err
 		}
 
-		end_dd = strconv.Itoa(int(dd))
+		// there is no 29th in February of most years
+
+		if end_dd == "" || days < 29 {
+			end_dd = strconv.Itoa(days)
+		}
 	}
 
 	start := &StringDate{
-- 
2.43.0


From c9339be38f943e53c99e0c89fc6bbd17519d0945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:28 +0000
Subject: [PATCH 10/23] fix: NotSet returns a NotSetError

It returned a NotImplementedError, so IsNotSet was false (and
IsNotImplemented true) for a bound that is not set.
---
 errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors.go b/errors.go
index 5debc12..24446c2 100644
--- a/errors.go
+++ b/errors.go
@@ -12,7 +12,7 @@ func (e *NotSetError) Error() string {
 }
 
 func NotSet() error {
-	return &NotImplementedError{}
+	return &NotSetError{}
 }
 
 func IsNotSet(e error) bool {
-- 
2.43.0


From 60d9b04237e2d71deed32c573cfdf899d32c1a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:30 +0000
Subject: [PATCH 11/23] fix: a date is neither before nor after itself

Before and After also returned true when the two instants compared are the
same one, so a date and time was both before and after itself and not
between itself and itself.
---
 edtf.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/edtf.go b/edtf.go
index b1c7726..fcf3eef 100644
--- a/edtf.go
+++ b/edtf.go
@@ -116,11 +116,7 @@ func (d *EDTFDate) After(u *EDTFDate) (bool, error) {
 		return false, fmt.Errorf("Failed to derive lower time for cessation date (%s), %w", d.EDTF, err)
 	}
 
-	if u_t.After(*t) {
-		return false, nil
-	}
-
-	return true, nil
+	return t.After(*u_t), nil
 }
 
 // Before reports whether the EDTFDate instance `d` is after `u`.
@@ -142,9 +138,5 @@ func (d *EDTFDate) Before(u *EDTFDate) (bool, error) {
 		return false, fmt.Errorf("Failed to derive upper time for cessation date (%s), %w", d.EDTF, err)
 	}
 
-	if u_t.Before(*t) {
-		return false, nil
-	}
-
-	return true, nil
+	return t.Before(*u_t), nil
 }
-- 
2.43.0


From a015b3eb41e73adec23f5e728e10ec3f584bae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:53 +0000
Subject: [PATCH 12/23] fix: reject sets whose closing bracket is not the one
 that was opened

'[1667}' and '{1667]' were parsed, as if closed by the opening bracket's
counterpart.
---
 level2/set_representation.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/level2/set_representation.go b/level2/set_representation.go
index 9702342..0fc9a41 100644
--- a/level2/set_representation.go
+++ b/level2/set_representation.go
@@ -84,15 +84,25 @@ func ParseSetRepresentations(edtf_str string) (*edtf.EDTFDate, error) {
 
 	inclusivity := edtf.NONE
 
+	closing := ""
+
 	switch class {
 	case "[":
 		inclusivity = edtf.ANY
+		closing = "]"
 	case "{":
 		inclusivity = edtf.ALL
+		closing = "}"
 	default:
 		return nil, edtf.Invalid(SET_REPRESENTATIONS, edtf_str)
 	}
 
+	// see notes in re.PATTERN_SET_REPRESENTATIONS
+
+	if !strings.HasSuffix(edtf_str, closing) {
+		return nil, edtf.Invalid(SET_REPRESENTATIONS, edtf_str)
+	}
+
 	// this should be moved in to a separate method for getting
 	// the list of all possible dates - we only care about the
 	// bookends right now (20201231/thisisaaronland)
-- 
2.43.0


From ad46a40d673e7ff8f24df8e0e084b580e9213369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:54 +0000
Subject: [PATCH 13/23] fix: reject sets with an empty member

'[1667,]' was parsed with an unknown start and '[1667,..]' likewise.
---
 level2/set_representation.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/level2/set_representation.go b/level2/set_representation.go
index 0fc9a41..d0c9c48 100644
--- a/level2/set_representation.go
+++ b/level2/set_representation.go
@@ -116,6 +116,11 @@ func ParseSetRepresentations(edtf_str string) (*edtf.EDTFDate, error) {
 
 		switch count {
 		case 1:
+
+			if date == "" {
+				return nil, edtf.Invalid(SET_REPRESENTATIONS, edtf_str)
+			}
+
 			possible = append(possible, date)
 			continue
 		case 2:
@@ -128,6 +133,10 @@ func ParseSetRepresentations(edtf_str string) (*edtf.EDTFDate, error) {
 				possible = append(possible, parts[0])
 				possible = append(possible, parts[1])
 
+			} else if parts[0] == "" && parts[1] == "" { // ..
+
+				return nil, edtf.Invalid(SET_REPRESENTATIONS, edtf_str)
+
 			} else if parts[0] == "" { // ..YYYY
 
 				// parts[1] is end (max) date
-- 
2.43.0


From 962ba533e25e554ccbcee42a0084965169b33232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:43 +0000
Subject: [PATCH 14/23] fix: order the members of a set by time, and parse all
 of them

Members were sorted as text, so '{-0200,-0100}' and '{1960-05,1960}' spanned
the wrong dates, and only the first and last were parsed, so an impossible
one in between ('[1667,1668-02-30,1670]') went unnoticed.
---
 level2/set_representation.go | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/level2/set_representation.go b/level2/set_representation.go
index d0c9c48..afb8d0b 100644
--- a/level2/set_representation.go
+++ b/level2/set_representation.go
@@ -160,17 +160,33 @@ func ParseSetRepresentations(edtf_str string) (*edtf.EDTFDate, error) {
 	}
 
 	sort.Strings(possible)
-	count := len(possible)
 
-	switch count {
-	case 0:
-		return nil, edtf.Invalid(SET_REPRESENTATIONS, edtf_str)
-	case 1:
-		start_ymd = possible[0]
-		end_ymd = start_ymd
-	default:
-		start_ymd = possible[0]
-		end_ymd = possible[count-1]
+	// the alphabetical order is not the order in time of negative years or of
+	// dates with different precisions so compare the time spans of the candidates
+
+	start_ts := int64(0)
+	end_ts := int64(0)
+
+	for i, date := range possible {
+
+		date_sp, err := common.DateSpanFromEDTF(date)
+
+		if err != nil {
+			return nil, err
+		}
+
+		lower_ts := date_sp.Start.Lower.Timestamp.Unix()
+		upper_ts := date_sp.End.Upper.Timestamp.Unix()
+
+		if i == 0 || lower_ts < start_ts {
+			start_ymd = date
+			start_ts = lower_ts
+		}
+
+		if i == 0 || upper_ts >= end_ts {
+			end_ymd = date
+			end_ts = upper_ts
+		}
 	}
 
 	_str := start_ymd
-- 
2.43.0


From 8c83916721706634683f8aaa4bcc26aa84783956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:44 +0000
Subject: [PATCH 15/23] fix: a set open at both ends has an open start and an
 open end

The two ends shared one range, part of which was overwritten with a date:
'[..1760,1770..]' had a lower bound that was open and an upper one that was
not.
---
 level2/set_representation.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/level2/set_representation.go b/level2/set_representation.go
index afb8d0b..d11ba11 100644
--- a/level2/set_representation.go
+++ b/level2/set_representation.go
@@ -242,17 +242,19 @@ func ParseSetRepresentations(edtf_str string) (*edtf.EDTFDate, error) {
 
 	if open_post_facto {
 
-		open_range := common.OpenDateRange()
+		if start_open && end_open {
+
+			sp = common.OpenDateSpan()
+
+		} else if start_open {
 
-		if start_open {
 			sp.End.Lower = sp.Start.Lower
-			sp.Start = open_range
-		}
+			sp.Start = common.OpenDateRange()
 
-		if end_open {
+		} else {
 
 			sp.Start.Upper = sp.End.Upper
-			sp.End = open_range
+			sp.End = common.OpenDateRange()
 		}
 	}
 
-- 
2.43.0


From b51377332abbc06cfba9680c65e13733a60f154f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:13 +0000
Subject: [PATCH 16/23] fix: reject the promise of parse_edtf with the error
 message

It was rejected with the number of bytes printed, because fmt.Printf was
used to format the message.
---
 cmd/parse-wasm/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/parse-wasm/main.go b/cmd/parse-wasm/main.go
index 94971fb..e8c8872 100644
--- a/cmd/parse-wasm/main.go
+++ b/cmd/parse-wasm/main.go
@@ -24,14 +24,14 @@ func ParseFunc() js.Func {
 			edtf_d, err := parser.ParseString(edtf_str)
 
 			if err != nil {
-				reject.Invoke(fmt.Printf("Failed to parse '%s', %v\n", edtf_str, err))
+				reject.Invoke(fmt.Sprintf("Failed to parse '%s', %v", edtf_str, err))
 				return nil
 			}
 
 			enc, err := json.Marshal(edtf_d)
 
 			if err != nil {
-				reject.Invoke(fmt.Printf("Failed to marshal result for '%s', %v\n", edtf_str, err))
+				reject.Invoke(fmt.Sprintf("Failed to marshal result for '%s', %v", edtf_str, err))
 				return nil
 			}
 
-- 
2.43.0


From 8cdc3191e38c28240aaec9b6e6615c1b04cf9920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:15 +0000
Subject: [PATCH 17/23] fix: a negative year has one minus sign

PATTERN_YEAR already has an optional sign, so '--1985' was a valid Level 1
date (but '-1985' did not match).
---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index c6a65f5..08f5ade 100644
--- a/re/re.go
+++ b/re/re.go
@@ -46,7 +46,7 @@ const PATTERN_INTERVAL_START = `(\.\.)?\/` + PATTERN_DATE
 
 const PATTERN_INTERVAL_END = PATTERN_DATE + `\/(\.\.)?`
 
-const PATTERN_NEGATIVE_YEAR = `\-` + PATTERN_YEAR
+const PATTERN_NEGATIVE_YEAR = `(\-\d{4})`
 
 // Level 2
 
-- 
2.43.0


From 873899539ba60e095f2f3fee3dbb19b052acc5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:17 +0000
Subject: [PATCH 18/23] fix: IsExtendedInterval is false for what is not an
 extended interval

---
 level1/extended_interval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/level1/extended_interval.go b/level1/extended_interval.go
index a80e971..5c410a3 100644
--- a/level1/extended_interval.go
+++ b/level1/extended_interval.go
@@ -62,7 +62,7 @@ func IsExtendedInterval(edtf_str string) bool {
 		return true
 	}
 
-	return true
+	return false
 }
 
 func ParseExtendedInterval(edtf_str string) (*edtf.EDTFDate, error) {
-- 
2.43.0


From 1d49ba0b0ea9c60e5dc756105f759f1f8e015cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:13 +0000
Subject: [PATCH 19/23] fix: there is no day 00 and no month 00

A day (or month) of zero was taken for a missing one, so '2000-01-00' was
parsed as 2000-01-31, and negative ones were returned as they are.
---
 common/ymd.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/ymd.go b/common/ymd.go
index 598ffa7..5675ea5 100644
--- a/common/ymd.go
+++ b/common/ymd.go
@@ -85,6 +85,10 @@ func YMDFromStrings(str_yyyy string, str_mm string, str_dd string) (*edtf.YMD, e
 			return nil, err
 		}
 
+		if m < 1 {
+			return nil, errors.New("Invalid month")
+		}
+
 		mm = m
 	}
 
@@ -96,6 +100,10 @@ func YMDFromStrings(str_yyyy string, str_mm string, str_dd string) (*edtf.YMD, e
 			return nil, err
 		}
 
+		if d < 1 {
+			return nil, errors.New("Invalid day")
+		}
+
 		dd = d
 	}
 
-- 
2.43.0


From d31d35ad02f7f14289617b2baba9412cd88243e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:14 +0000
Subject: [PATCH 20/23] fix: YMDFromString and negative years

A negative year without a day ('-0200-05', '-0200') was rejected, and
whatever preceded the first '-' of a string with three of them was ignored.
---
 common/ymd.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/common/ymd.go b/common/ymd.go
index 5675ea5..463743b 100644
--- a/common/ymd.go
+++ b/common/ymd.go
@@ -18,13 +18,9 @@ func YMDFromString(str_ymd string) (*edtf.YMD, error) {
 	mm := ""
 	dd := ""
 
-	parts := strings.Split(str_ymd, "-")
+	parts := strings.Split(strings.TrimPrefix(str_ymd, edtf.NEGATIVE), "-")
 
 	switch len(parts) {
-	case 4:
-		yyyy = "-" + parts[1]
-		mm = parts[2]
-		dd = parts[3]
 	case 3:
 		yyyy = parts[0]
 		mm = parts[1]
@@ -38,6 +34,10 @@ func YMDFromString(str_ymd string) (*edtf.YMD, error) {
 		return nil, errors.New("Invalid YMD string")
 	}
 
+	if strings.HasPrefix(str_ymd, edtf.NEGATIVE) {
+		yyyy = edtf.NEGATIVE + yyyy
+	}
+
 	return YMDFromStrings(yyyy, mm, dd)
 }
 
-- 
2.43.0


From fec10892a9d2e9e8c477a30668c70d99abfde492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:45 +0000
Subject: [PATCH 21/23] fix: an unspecified first digit of a year is not
 implemented

Only years that also end with an X ('XXXX') failed as not implemented;
'X001' and '-XXXX/2001' failed with an error of strconv.
---
 common/range.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/common/range.go b/common/range.go
index 46ee662..652417d 100644
--- a/common/range.go
+++ b/common/range.go
@@ -258,6 +258,10 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 
 	// fmt.Println("PRECISION 0", edtf_str, precision)
 
+	if strings.HasPrefix(strings.TrimPrefix(yyyy, edtf.NEGATIVE), "X") {
+		return nil, edtf.NotImplemented("date", edtf_str)
+	}
+
 	if !strings.HasSuffix(yyyy, "X") {
 
 		precision = edtf.NONE
@@ -277,22 +281,17 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 		start_y := int64(0)
 		end_y := int64(9)
 
-		if string(yyyy[0]) == "X" {
-			return nil, edtf.NotImplemented("date", edtf_str)
-		} else {
-
-			m, err := strconv.ParseInt(string(yyyy[0]), 10, 32)
+		m, err := strconv.ParseInt(string(yyyy[0]), 10, 32)
 
-			if err != nil {
-				return nil, err
-			}
+		if err != nil {
+			return nil, err
+		}
 
-			start_m = m * 1000
-			end_m = start_m
+		start_m = m * 1000
+		end_m = start_m
 
-			precision = edtf.NONE
-			precision.AddFlag(edtf.MILLENIUM)
-		}
+		precision = edtf.NONE
+		precision.AddFlag(edtf.MILLENIUM)
 
 		if string(yyyy[1]) != "X" {
 
-- 
2.43.0


From eccdd169ae3b82ae51fac850d1313d1fbb33f9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:07:37 +0000
Subject: [PATCH 22/23] fix: the tools exit non-zero when their output cannot
 be written

---
 cmd/matches/main.go    |  6 +++++-
 cmd/parse-wasi/main.go |  8 +++++++-
 cmd/parse/main.go      | 17 +++++++++++++----
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/cmd/matches/main.go b/cmd/matches/main.go
index e5e2fe6..50f0c1a 100644
--- a/cmd/matches/main.go
+++ b/cmd/matches/main.go
@@ -27,7 +27,11 @@ func main() {
 			log.Fatalf("Failed to parse EDTF string '%s', %v", raw, err)
 		}
 
-		fmt.Printf("%s level %d (%s)\n", raw, level, feature)
+		_, err = fmt.Printf("%s level %d (%s)\n", raw, level, feature)
+
+		if err != nil {
+			log.Fatalf("Failed to write results, %v", err)
+		}
 	}
 
 }
diff --git a/cmd/parse-wasi/main.go b/cmd/parse-wasi/main.go
index f42fbdf..fb4e774 100644
--- a/cmd/parse-wasi/main.go
+++ b/cmd/parse-wasi/main.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"flag"
 	"fmt"
+	"log"
 
 	"github.com/sfomuseum/go-edtf/parser"
 )
@@ -14,7 +15,12 @@ func main() {
 	flag.Parse()
 
 	for _, raw := range flag.Args() {
-		fmt.Println(parse(raw))
+
+		_, err := fmt.Println(parse(raw))
+
+		if err != nil {
+			log.Fatalf("Failed to write results, %v", err)
+		}
 	}
 }
 
diff --git a/cmd/parse/main.go b/cmd/parse/main.go
index b50b6b6..578eef3 100644
--- a/cmd/parse/main.go
+++ b/cmd/parse/main.go
@@ -27,7 +27,16 @@ func main() {
 
 	wr := io.MultiWriter(writers...)
 
-	wr.Write([]byte(`[`))
+	write := func(b []byte) {
+
+		_, err := wr.Write(b)
+
+		if err != nil {
+			log.Fatalf("Failed to write results, %v", err)
+		}
+	}
+
+	write([]byte(`[`))
 
 	for i, raw := range flag.Args() {
 
@@ -44,11 +53,11 @@ func main() {
 		}
 
 		if i > 0 {
-			wr.Write([]byte(`,`))
+			write([]byte(`,`))
 		}
 
-		wr.Write(enc)
+		write(enc)
 	}
 
-	wr.Write([]byte(`]`))
+	write([]byte(`]`))
 }
-- 
2.43.0


From dd12a61c81d8e825a57967e9ce07c94462f28008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:03 +0000
Subject: [PATCH 23/23] fix: the handler of a promise is released once it has
 been invoked

---
 cmd/parse-wasm/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/parse-wasm/main.go b/cmd/parse-wasm/main.go
index e8c8872..74af877 100644
--- a/cmd/parse-wasm/main.go
+++ b/cmd/parse-wasm/main.go
@@ -39,6 +39,10 @@ func ParseFunc() js.Func {
 			return nil
 		})
 
+		// the handler is invoked (once) before the constructor returns
+
+		defer handler.Release()
+
 		promiseConstructor := js.Global().Get("Promise")
 		return promiseConstructor.New(handler)
 	})
-- 
2.43.0

