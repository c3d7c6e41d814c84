package model

// Proleptic Gregorian calendar with astronomical years, by hand: no time package.

func Leap(y int) bool {
	return y%4 == 0 && (y%100 != 0 || y%400 == 0)
}

var mdays = [13]int{0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}

// DaysIn is the number of days in month m (1..12) of year y.
func DaysIn(y, m int) int {
	if m == 2 && Leap(y) {
		return 29
	}
	return mdays[m]
}

const (
	minTableYear = -10001
	maxTableYear = 10001
)

// dayOfYear0 is the day number (1970-01-01 is 0) of 1 January of each year.
var yearStart [maxTableYear - minTableYear + 2]int64
var monthStart [2][14]int

func init() {
	set := func(y int, d int64) { yearStart[y-minTableYear] = d }
	d := int64(0)
	for y := 1970; y <= maxTableYear; y++ {
		set(y, d)
		d += yearLen(y)
	}
	set(maxTableYear+1, d)
	d = 0
	for y := 1969; y >= minTableYear; y-- {
		d -= yearLen(y)
		set(y, d)
	}
	for l := 0; l < 2; l++ {
		n := 0
		for m := 1; m <= 12; m++ {
			monthStart[l][m] = n
			n += DaysIn(2001-l, m) // 2001 common, 2000 leap
		}
	}
}

func yearLen(y int) int64 {
	if Leap(y) {
		return 366
	}
	return 365
}

// DayNumber of a valid date.
func DayNumber(y, m, d int) int64 {
	l := 0
	if Leap(y) {
		l = 1
	}
	return yearStart[y-minTableYear] + int64(monthStart[l][m]) + int64(d-1)
}

// Secs is the Unix time of a date and time of day.
func Secs(y, m, d, sod int) int64 { return DayNumber(y, m, d)*86400 + int64(sod) }

const EndOfDay = 86399

// FromSecs is the inverse of Secs, within the years of the table.
func FromSecs(s int64) (y, m, d, sod int, ok bool) {
	day := s / 86400
	r := s % 86400
	if r < 0 {
		r += 86400
		day--
	}
	if day < yearStart[0] || day >= yearStart[len(yearStart)-1] {
		return
	}
	lo, hi := minTableYear, maxTableYear
	for lo < hi {
		mid := (lo + hi + 1) >> 1
		if yearStart[mid-minTableYear] <= day {
			lo = mid
		} else {
			hi = mid - 1
		}
	}
	y = lo
	rest := int(day - yearStart[y-minTableYear])
	m = 1
	for rest >= DaysIn(y, m) {
		rest -= DaysIn(y, m)
		m++
	}
	return y, m, rest + 1, int(r), true
}

// Exists reports whether y-m-d is in the calendar.
func Exists(y, m, d int) bool {
	return m >= 1 && m <= 12 && d >= 1 && d <= DaysIn(y, m)
}

// YearText is a year with at least four digits and its sign.
func YearText(y int) string {
	neg := y < 0
	if neg {
		y = -y
	}
	b := []byte{byte('0' + y/1000%10), byte('0' + y/100%10), byte('0' + y/10%10), byte('0' + y%10)}
	if y > 9999 {
		b = append([]byte{byte('0' + y/10000%10)}, b...)
	}
	if neg {
		return "-" + string(b)
	}
	return string(b)
}

func Two(n int) string { return string([]byte{byte('0' + n/10%10), byte('0' + n%10)}) }

func DateText(y, m, d int) string { return YearText(y) + "-" + Two(m) + "-" + Two(d) }
