package checks

import (
	"fmt"
	"math"
	"math/rand/v2"
	"regexp"
	"strings"
	"time"

	"github.com/pbnjay/grate/commonxl"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C06", Quick: 16000, Thorough: 600000,
		Rule:      "the cases together convert every day serial of both date systems and every second of the day (sweeps divided among the cases), and each case also makes 10-16 date formats (built-in ones and random codes of year, month, day, weekday, hour, minute, second, decimals, AM/PM and elapsed codes) and about 30 serials (day ends, leap days, century ends, last milliseconds, whole days) and compares time values and texts with Gregorian arithmetic of our own, directly through commonxl.Formatter and through XLS and XLSX files of both date systems; distinct = distinct format codes",
		Assume:    []string{"zero padding of numbers is not compared except for years, minutes and seconds", "mmmmm (first letter of the month) and the Buddhist year are not compared", "times shown with fewer decimals than stored may be cut or rounded"},
		MinEvents: map[string]int{"days": 5900000, "seconds": 86000, "texts": 300000, "cells": 50000, "builtin": 50000, "ampm": 20000, "elapsed": 20000, "minutes": 50000, "months": 50000, "d1904": 50000, "milliseconds": 5000, "sections": 20000},
		Case:      caseC06,
	})
}

// civil is the Gregorian date of a number of days after 1970-01-01.
func civil(z int64) (y, m, d int) {
	z += 719468
	era := z / 146097
	if z < 0 {
		era = (z - 146096) / 146097
	}
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = int(doy - (153*mp+2)/5 + 1)
	m = int(mp + 3)
	if m > 12 {
		m -= 12
	}
	y = int(yoe + era*400)
	if m <= 2 {
		y++
	}
	return
}

// instant is a serial in milliseconds.
type instant struct {
	ms    int64 // since serial 0
	d1904 bool
}

func (t instant) days() int64 {
	if t.d1904 {
		return t.ms/86400000 - 24107 // 1904-01-01
	}
	return t.ms/86400000 - 25569 // 1899-12-30
}

func (t instant) serial() float64 {
	return float64(t.ms/86400000) + float64(t.ms%86400000)/86400000
}

func (t instant) same(g time.Time, tol int64) bool {
	y, m, d := civil(t.days())
	gy, gm, gd := g.Date()
	gh, gmi, gs := g.Clock()
	ns := (int64(gh)*3600+int64(gmi)*60+int64(gs))*1e9 + int64(g.Nanosecond())
	want := t.ms % 86400000 * 1e6
	if gy == y && int(gm) == m && gd == d {
		return ns-want <= tol && want-ns <= tol
	}
	return false
}

var monthNames = []string{"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"}
var dayNames = []string{"Thursday", "Friday", "Saturday", "Sunday", "Monday", "Tuesday", "Wednesday"}

// dateFmt is a date format as a list of pieces: codes (M is month, N minute) or literals ('text).
type dateFmt struct {
	f      wb.Fmt
	pieces []string
	upper  bool
	// the format has sections after the first, also one for zero
	sections, zero bool
}

func (df *dateFmt) has(prefix string) bool {
	for _, p := range df.pieces {
		if strings.HasPrefix(p, prefix) {
			return true
		}
	}
	return false
}

func (df *dateFmt) decimals() int {
	for _, p := range df.pieces {
		if i := strings.IndexByte(p, '.'); i >= 0 && p[0] != '\'' {
			return len(p) - i - 1
		}
	}
	return 0
}

// pattern is what may be shown for the instant.
func (df *dateFmt) pattern(t instant) string {
	y, m, d := civil(t.days())
	wd := int(((t.days() % 7) + 7) % 7)
	day := t.ms % 86400000
	h, mi, s, ms := int(day/3600000), int(day/60000%60), int(day/1000%60), int(day%1000)
	ampm := df.has("AM") || df.has("A/P") || df.has("上")
	num := func(n int) string {
		if n < 10 {
			return fmt.Sprintf("0?%d", n)
		}
		return fmt.Sprint(n)
	}
	frac := func(p string) string {
		i := strings.IndexByte(p, '.')
		if i < 0 {
			return ""
		}
		return `\.` + (fmt.Sprintf("%03d", ms) + "000000")[:len(p)-i-1]
	}
	var b strings.Builder
	b.WriteString("^")
	for _, p := range df.pieces {
		switch {
		case p[0] == '\'':
			b.WriteString(regexp.QuoteMeta(p[1:]))
		case p == "yy":
			fmt.Fprintf(&b, "%02d", y%100)
		case p == "yyyy":
			fmt.Fprintf(&b, "%04d", y)
		case p == "bb":
			b.WriteString(`\d+`)
		case p == "M" || p == "MM":
			b.WriteString(num(m))
		case p == "MMM":
			b.WriteString(monthNames[m-1][:3])
		case p == "MMMM":
			b.WriteString(monthNames[m-1])
		case p == "d" || p == "dd":
			b.WriteString(num(d))
		case p == "ddd":
			b.WriteString(dayNames[wd][:3])
		case p == "dddd":
			b.WriteString(dayNames[wd])
		case p == "h" || p == "hh":
			if ampm {
				b.WriteString(num((h+11)%12 + 1))
			} else {
				b.WriteString(num(h))
			}
		case p == "N":
			b.WriteString(num(mi))
		case p == "NN":
			fmt.Fprintf(&b, "%02d", mi)
		case p[0] == 's' && len(strings.TrimRight(p, ".0")) == 1:
			b.WriteString(num(s) + frac(p))
		case p[0] == 's':
			fmt.Fprintf(&b, "%02d%s", s, frac(p))
		case p == "AM/PM":
			b.WriteString("(?i:" + map[bool]string{true: "AM", false: "PM"}[h < 12] + ")")
		case p == "A/P":
			b.WriteString("(?i:" + map[bool]string{true: "A", false: "P"}[h < 12] + ")")
		case p == "上午/下午":
			b.WriteString(map[bool]string{true: "上午", false: "下午"}[h < 12] + " ?")
		case strings.HasPrefix(p, "[h"):
			fmt.Fprintf(&b, "0*%d", t.ms/3600000)
		case strings.HasPrefix(p, "[N"):
			fmt.Fprintf(&b, "0*%d", t.ms/60000)
		case strings.HasPrefix(p, "[s"):
			fmt.Fprintf(&b, "0*%d%s", t.ms/1000, frac(p))
		default:
			panic(p)
		}
	}
	b.WriteString("$")
	return b.String()
}

// ok tells whether the text shows the instant.
func (df *dateFmt) ok(text string, t instant) bool {
	if regexp.MustCompile(df.pattern(t)).MatchString(text) {
		return true
	}
	unit := int64(1000)
	for i := 0; i < df.decimals(); i++ {
		unit /= 10
	}
	if unit < 1 || t.ms%unit == 0 {
		return false
	}
	rt := t
	rt.ms = (t.ms + unit/2) / unit * unit
	return regexp.MustCompile(df.pattern(rt)).MatchString(text)
}

func pcs(s string) []string {
	r := strings.Split(s, "|")
	return r
}

var builtinDates = []dateFmt{
	{f: wb.Fmt{ID: 14}, pieces: pcs("MM|'-|dd|'-|yy")}, {f: wb.Fmt{ID: 15}, pieces: pcs("d|'-|MMM|'-|yy")}, {f: wb.Fmt{ID: 16}, pieces: pcs("d|'-|MMM")}, {f: wb.Fmt{ID: 17}, pieces: pcs("MMM|'-|yy")},
	{f: wb.Fmt{ID: 18}, pieces: pcs("h|':|NN|' |AM/PM")}, {f: wb.Fmt{ID: 19}, pieces: pcs("h|':|NN|':|ss|' |AM/PM")}, {f: wb.Fmt{ID: 20}, pieces: pcs("h|':|NN")}, {f: wb.Fmt{ID: 21}, pieces: pcs("h|':|NN|':|ss")},
	{f: wb.Fmt{ID: 22}, pieces: pcs("M|'/|d|'/|yy|' |h|':|NN")}, {f: wb.Fmt{ID: 45}, pieces: pcs("NN|':|ss")}, {f: wb.Fmt{ID: 46}, pieces: pcs("[h]|':|NN|':|ss")}, {f: wb.Fmt{ID: 47}, pieces: pcs("NN|ss.0")},
	{f: wb.Fmt{ID: 27}, pieces: pcs("yyyy|'年|M|'月")}, {f: wb.Fmt{ID: 28}, pieces: pcs("M|'月|d|'日")}, {f: wb.Fmt{ID: 29}, pieces: pcs("M|'月|d|'日")}, {f: wb.Fmt{ID: 30}, pieces: pcs("M|'-|d|'-|yy")},
	{f: wb.Fmt{ID: 31}, pieces: pcs("yyyy|'年|M|'月|d|'日")}, {f: wb.Fmt{ID: 32}, pieces: pcs("h|'时|NN|'分")}, {f: wb.Fmt{ID: 33}, pieces: pcs("h|'时|NN|'分|ss|'秒")},
	{f: wb.Fmt{ID: 34}, pieces: pcs("上午/下午|h|'时|NN|'分")}, {f: wb.Fmt{ID: 35}, pieces: pcs("上午/下午|h|'时|NN|'分|ss|'秒")}, {f: wb.Fmt{ID: 36}, pieces: pcs("yyyy|'年|M|'月")},
	{f: wb.Fmt{ID: 50}, pieces: pcs("yyyy|'年|M|'月")}, {f: wb.Fmt{ID: 51}, pieces: pcs("M|'月|d|'日")}, {f: wb.Fmt{ID: 52}, pieces: pcs("yyyy|'年|M|'月")}, {f: wb.Fmt{ID: 53}, pieces: pcs("M|'月|d|'日")}, {f: wb.Fmt{ID: 54}, pieces: pcs("M|'月|d|'日")},
	{f: wb.Fmt{ID: 55}, pieces: pcs("上午/下午|h|'时|NN|'分")}, {f: wb.Fmt{ID: 56}, pieces: pcs("上午/下午|h|'时|NN|'分|ss|'秒")}, {f: wb.Fmt{ID: 57}, pieces: pcs("yyyy|'年|M|'月")}, {f: wb.Fmt{ID: 58}, pieces: pcs("M|'月|d|'日")},
	{f: wb.Fmt{ID: 71}, pieces: pcs("d|'/|M|'/|yyyy")}, {f: wb.Fmt{ID: 72}, pieces: pcs("d|'-|MMM|'-|yy")}, {f: wb.Fmt{ID: 73}, pieces: pcs("d|'-|MMM")}, {f: wb.Fmt{ID: 74}, pieces: pcs("MMM|'-|yy")},
	{f: wb.Fmt{ID: 75}, pieces: pcs("h|':|NN")}, {f: wb.Fmt{ID: 76}, pieces: pcs("h|':|NN|':|ss")}, {f: wb.Fmt{ID: 77}, pieces: pcs("d|'/|M|'/|yyyy|' |h|':|NN")}, {f: wb.Fmt{ID: 78}, pieces: pcs("NN|':|ss")},
	{f: wb.Fmt{ID: 79}, pieces: pcs("[h]|':|NN|':|ss")}, {f: wb.Fmt{ID: 80}, pieces: pcs("NN|':|ss.0")}, {f: wb.Fmt{ID: 81}, pieces: pcs("d|'/|M|'/|bb")},
}

var dateLits = []string{"-", "/", ".", " ", ", ", ":", "T", " at ", "年", "", "h", "m ", "day ", "s", "'", "+", "0", "2006", "Jan", "PM", "15", "Z07:00", "_2", "№"}

// litCode writes a literal piece.
func litCode(r *rand.Rand, s string) string {
	var b strings.Builder
	bare := strings.Trim(s, "-/:., ") == ""
	if strings.Contains(s, ".") || strings.Contains(s, ",") {
		bare = bare && r.IntN(2) == 0 && !strings.Contains(s, ",")
	}
	if bare && r.IntN(4) > 0 {
		return s
	}
	if n := len([]rune(s)); n <= 2 && r.IntN(2) == 0 {
		for _, ch := range s {
			b.WriteString(`\` + string(ch))
		}
		return b.String()
	}
	return `"` + s + `"`
}

// randDateFmt makes a custom date format.
func randDateFmt(r *rand.Rand, id int) dateFmt {
	df := dateFmt{f: wb.Fmt{ID: id}}
	lit := func() string { return dateLits[r.IntN(len(dateLits))] }
	var date, tm []string
	join := func(codes []string, sep func() string) []string {
		var out []string
		for i, p := range codes {
			if i > 0 {
				if s := sep(); s != "" {
					out = append(out, "'"+s)
				}
			}
			out = append(out, p)
		}
		return out
	}
	sameSep := func(s string) func() string {
		return func() string { return s }
	}
	// date part: every kind at most once, never ambiguous
	y := wb.Pick(r, "yy", "yyyy", "yyyy")
	m := wb.Pick(r, "M", "MM", "MMM", "MMMM")
	d := wb.Pick(r, "d", "dd", "dd", "ddd", "dddd")
	switch r.IntN(8) {
	case 0:
		date = []string{y, m, d}
	case 1:
		date = []string{d, m, y}
	case 2:
		date = []string{m, d, y}
	case 3:
		date = []string{wb.Pick(r, "ddd", "dddd"), m, wb.Pick(r, "d", "dd"), y}
	case 4:
		date = []string{m, y}
	case 5:
		date = []string{y, m}
	case 6:
		date = wb.Pick(r, []string{y}, []string{m}, []string{d})
	case 7:
		date = []string{wb.Pick(r, "ddd", "dddd"), wb.Pick(r, "d", "dd")}
	}
	// separators keep neighbouring codes of the same letter apart
	ds := wb.Pick(r, "-", "/", ".", " ", "年", "h ", "x")
	date = join(date, func() string {
		if r.IntN(4) == 0 {
			if s := lit(); s != "" {
				return s
			}
		}
		return ds
	})
	s := wb.Pick(r, "s", "ss", "ss", "ss") + wb.Pick(r, "", "", "", ".0", ".00", ".000")
	h := wb.Pick(r, "h", "hh")
	n := wb.Pick(r, "N", "NN", "NN")
	ts := sameSep(wb.Pick(r, ":", ":", ":", ":", ".", " ", "h", "", "'", "' ", " : ", " min "))
	if ts() == "." {
		s = strings.SplitN(s, ".", 2)[0]
	}
	switch r.IntN(12) {
	case 0, 1:
		tm = join([]string{h, n}, ts)
	case 2, 3:
		tm = join([]string{h, n, s}, ts)
	case 4:
		tm = join([]string{n, s}, ts)
	case 5:
		tm = append(join([]string{h, n}, ts), "' ", wb.Pick(r, "AM/PM", "A/P"))
	case 6:
		tm = append(join([]string{h, n, s}, ts), "' ", wb.Pick(r, "AM/PM", "AM/PM", "A/P"))
	case 7:
		tm = []string{h, "' ", "AM/PM"}
		if r.IntN(2) == 0 {
			tm = append([]string{"AM/PM", "' "}, join([]string{h, n}, ts)...)
		}
	case 8:
		tm = join([]string{wb.Pick(r, "[h]", "[hh]"), n}, ts)
		if r.IntN(2) == 0 {
			tm = join([]string{wb.Pick(r, "[h]", "[hh]", "[hhh]"), n, s}, ts)
		}
	case 9:
		tm = join([]string{wb.Pick(r, "[N]", "[NN]"), s}, sameSep(":"))
	case 10:
		tm = []string{wb.Pick(r, "[s]", "[ss]")}
	case 11:
		tm = wb.Pick(r, []string{h}, []string{s})
	}
	gap := []string{"'" + wb.Pick(r, " ", " ", ", ", "T", " at ", "-", "年")}
	switch r.IntN(5) {
	case 0, 1:
		df.pieces = date
	case 2:
		df.pieces = tm
	case 3:
		df.pieces = append(append(date, gap...), tm...)
	case 4:
		df.pieces = append(append(tm, gap...), date...)
	}
	if r.IntN(6) == 0 {
		if s := lit(); s != "" && !strings.ContainsAny(s, ".,") {
			df.pieces = append([]string{"'" + s}, df.pieces...)
		}
	}
	if r.IntN(6) == 0 {
		if s := lit(); s != "" && !strings.ContainsAny(s, ".,") {
			df.pieces = append(df.pieces, "'"+s)
		}
	}
	// an m next to hours or seconds of the other part would be ambiguous
	var codes []string
	for _, p := range df.pieces {
		if p[0] != '\'' && !strings.Contains(p, "/") {
			codes = append(codes, p)
		}
	}
	for i, p := range codes {
		if p[0] != 'M' || len(p) > 2 {
			continue
		}
		if i > 0 && strings.ContainsAny(codes[i-1][:1], "h[s") || i+1 < len(codes) && (codes[i+1][0] == 's' || strings.HasPrefix(codes[i+1], "[s")) {
			return randDateFmt(r, id)
		}
	}
	df.upper = r.IntN(8) == 0
	var b strings.Builder
	if r.IntN(5) == 0 {
		b.WriteString(wb.Pick(r, "[$-409]", "[$-409]", "[$-F800]", "[$-F400]", "[$-en-US]", "[$-x-sysdate]", "[Blue]", "[$-809]", "[ENG][$-409]"))
	}
	prev := ""
	for _, p := range df.pieces {
		if p[0] == '\'' {
			b.WriteString(litCode(r, p[1:]))
			prev = p
			continue
		}
		if prev != "" && prev[0] == '\'' && prev[1:] == "." && p == "0" {
			panic(p)
		}
		q := strings.NewReplacer("N", "m", "M", "m").Replace(p)
		if p == "AM/PM" || p == "A/P" {
			q = p
			if r.IntN(6) == 0 {
				q = strings.ToLower(p)
			}
		} else if df.upper {
			q = strings.ToUpper(q)
		}
		b.WriteString(q)
		prev = p
	}
	if r.IntN(4) == 0 {
		rest := wb.Pick(r, ";@", ";@", ";;", ";;;@", ";;@", `;"before";"-";@`, ";0", ";[Red]-0.00")
		b.WriteString(rest)
		df.zero = strings.Count(rest, ";") > 1
		df.sections = true
	}
	df.f.Code = b.String()
	return df
}

// randInstant makes an interesting instant. aligned: whole seconds.
func randInstant(r *rand.Rand, d1904 bool, unit int64) instant {
	lo, hi := int64(61), int64(2958465)
	if d1904 {
		lo, hi = 0, 2957003
	}
	var day, ms int64
	switch r.IntN(8) {
	case 0:
		day = lo + r.Int64N(800)
	case 1:
		day = hi - r.Int64N(800)
	case 2: // month and leap day boundaries
		y := 1905 + r.IntN(8000)
		m := 1 + r.IntN(12)
		day = daysTo(y, m, 1) - daysTo(1899, 12, 30) - 1 + r.Int64N(2)
		if r.IntN(2) == 0 {
			day = daysTo(y/100*100+100, 3, 1) - daysTo(1899, 12, 30) - 1 + r.Int64N(2)
		}
		if d1904 {
			day -= 1462
		}
	case 3, 4:
		day = 30000 + r.Int64N(20000)
	default:
		day = lo + r.Int64N(hi-lo+1)
	}
	day = max(lo, min(hi, day))
	switch r.IntN(8) {
	case 0, 1:
	case 2:
		ms = 86400000 - unit
	case 3:
		ms = r.Int64N(24) * 3600000
	case 4:
		ms = 43200000 - unit + unit*r.Int64N(3)
	case 5:
		ms = unit * r.Int64N(86400000/unit)
		ms -= ms % 60000
		ms += 60000 - unit
	default:
		ms = unit * r.Int64N(86400000/unit)
	}
	if ms >= 86400000 {
		ms = 86400000 - unit
	}
	return instant{day*86400000 + ms, d1904}
}

// daysTo is the number of days from 1970-01-01 to a date.
func daysTo(y, m, d int) int64 {
	if m <= 2 {
		y--
	}
	era := int64(y) / 400
	yoe := int64(y) - era*400
	mp := (m + 9) % 12
	doy := int64((153*mp+2)/5 + d - 1)
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}

func caseC06(c *mon.Ctx) {
	r := c.Rand
	// sweeps: every day of both systems, every second of a day
	for _, d1904 := range []bool{false, true} {
		lo, hi := int64(61), int64(2958465)
		if d1904 {
			lo, hi = 0, 2957003
		}
		var xf commonxl.Formatter
		xf.Mode1904(d1904)
		n := hi - lo + 1
		a, b := lo+n*int64(c.Index)/int64(c.Total), lo+n*int64(c.Index+1)/int64(c.Total)
		if n*int64(c.Index+1)/int64(c.Total)-n*int64(c.Index)/int64(c.Total) > 3000 {
			b = a + 3000
		}
		for day := a; day < b; day++ {
			t := instant{day * 86400000, d1904}
			g := xf.ConvertToDate(float64(day))
			if !t.same(g, 0) {
				y, m, d := civil(t.days())
				c.Fatal("day", "serial %d (1904 system %v) is %04d-%02d-%02d, got %v", day, d1904, y, m, d, g)
			}
		}
		c.Count("days", int(b-a))
		day := 61 + r.Int64N(2900000)
		for s := 86400 * int64(c.Index) / int64(c.Total); s < 86400*int64(c.Index+1)/int64(c.Total); s++ {
			t := instant{day*86400000 + s*1000, d1904}
			got, _ := xf.Apply(21, t.serial())
			if !builtinDates[7].ok(got, t) {
				c.Fatal("second", "serial %v (1904 system %v) format 21 shows %q, want %s", t.serial(), d1904, got, builtinDates[7].pattern(t))
			}
			if !d1904 {
				c.Count("seconds", 1)
			}
		}
	}
	d1904 := r.IntN(3) == 0
	var xf commonxl.Formatter
	xf.Mode1904(d1904)
	var fmts []dateFmt
	for _, i := range r.Perm(len(builtinDates))[:5] {
		fmts = append(fmts, builtinDates[i])
	}
	id := 164
	for i, n := 0, 5+r.IntN(7); i < n; i++ {
		id += 1 + r.IntN(4)
		df := randDateFmt(r, id)
		fmts = append(fmts, df)
		if err := xf.Add(uint16(id), df.f.Code); err != nil {
			c.Fatal("add", "Add(%d, %q): %v", id, df.f.Code, err)
		}
	}
	check := func(how string, df *dateFmt, t instant, text string) {
		if t.ms == 0 && df.zero {
			return
		}
		if df.sections {
			c.Count("sections", 1)
		}
		c.Count("texts", 1)
		if df.f.Code == "" {
			c.Count("builtin", 1)
		}
		for k, p := range map[string]string{"ampm": "AM", "elapsed": "[", "minutes": "N", "months": "M"} {
			if df.has(p) {
				c.Count(k, 1)
			}
		}
		if t.d1904 {
			c.Count("d1904", 1)
		}
		if df.decimals() == 3 && t.ms%1000 != 0 {
			c.Count("milliseconds", 1)
		}
		if !df.ok(text, t) {
			y, m, d := civil(t.days())
			c.Bad("date", "%s: format %d %q shows serial %v (1904 system %v, %04d-%02d-%02d %v) as %q, want %s", how, df.f.ID, df.f.Code, t.serial(), t.d1904, y, m, d, time.Duration(t.ms%86400000)*time.Millisecond, text, df.pattern(t))
		}
	}
	unit := func(df *dateFmt) int64 {
		return []int64{1000, 100, 10, 1}[df.decimals()]
	}
	for i := range fmts {
		df := &fmts[i]
		c.Key(df.f.ID, df.f.Code)
		for k := 0; k < 25; k++ {
			u := unit(df)
			if k%8 == 7 {
				u = 1
			}
			t := randInstant(r, d1904, u)
			got, ok := xf.Apply(uint16(df.f.ID), t.serial())
			if !ok {
				c.Fatal("unknown", "Apply does not know format %d", df.f.ID)
			}
			check("Apply", df, t, got)
			if g := xf.ConvertToDate(t.serial()); !t.same(g, 499999) {
				c.Bad("instant", "serial %v (1904 system %v) converts to %v", t.serial(), d1904, g)
			}
			if k%5 == 0 { // any number in between
				v := float64(61) + r.Float64()*2958404
				ms := int64(math.Floor(v*86400000 + 0.5))
				t := instant{ms, d1904}
				if g := xf.ConvertToDate(v); !t.same(g, 1100000) && !(instant{ms + 1, d1904}).same(g, 1100000) && !(instant{ms - 1, d1904}).same(g, 1100000) {
					c.Bad("instant", "serial %v (1904 system %v) converts to %v", v, d1904, g)
				}
			}
			if c.NBad() > 0 {
				return
			}
		}
	}
	if r.IntN(2) == 0 {
		return
	}
	xls := r.IntN(2) == 0
	w := &wb.Workbook{Fmts: []wb.Fmt{{}}, Date1904: d1904}
	at := map[pos]instant{}
	s := wb.Sheet{Name: "dates", DimRows: -1, DimCols: -1}
	for i := range fmts {
		w.Fmts = append(w.Fmts, fmts[i].f)
		for k := 0; k < 8; k++ {
			t := randInstant(r, d1904, unit(&fmts[i]))
			if r.IntN(6) == 0 {
				t.ms -= t.ms % 86400000
			}
			cell := wb.Cell{Row: k, Col: i, Kind: wb.Pick(r, wb.Num, wb.Num, wb.FNum), Fmt: i + 1, Num: t.serial()}
			if n := int32(cell.Num); xls && cell.Kind == wb.Num && float64(n) == cell.Num && r.IntN(2) == 0 {
				cell.Enc, cell.RK = wb.Pick(r, wb.EncRK, wb.EncMulRk), uint32(n)<<2|2
			}
			cell.NumText = numText(r, cell.Num)
			at[pos{k, i}] = t
			s.Cells = append(s.Cells, cell)
		}
	}
	sortCells(s.Cells)
	w.Sheets = []wb.Sheet{s}
	how, p := "XLSX", ""
	if xls {
		how = "XLS"
		o := randXLSOpts(r)
		scaleXLS(c, &o)
		b, _ := wb.BuildXLS(w, o, randCFBOpts(r))
		c.Artifact("book.xls", b)
		p = c.File(".xls", b)
	} else {
		o := wb.RandXLSXOpts(r)
		scaleXLSX(c, &o)
		b, _, _ := wb.BuildXLSX(w, o)
		c.Artifact("book.xlsx", b)
		p = c.File(".xlsx", b)
	}
	src := mustOpen(c, p)
	defer src.Close()
	rows, _ := readAll(mustGet(c, src, "dates"))
	for k, t := range at {
		if k.R >= len(rows) || k.C >= rows[k.R].N || rows[k.R].Blank || rows[k.R].SErr != nil {
			c.Bad("missing", "%s cell %s is missing", how, wb.Ref(k.R, k.C))
			return
		}
		row, df := rows[k.R], &fmts[k.C]
		c.Count("cells", 1)
		check(how+" "+wb.Ref(k.R, k.C), df, t, row.S[k.C])
		g, ok := row.V[k.C].(time.Time)
		if !ok || !t.same(g, 499999) {
			c.Bad("scan", "%s %s format %q: serial %v (1904 system %v) scans as %v (type %s)", how, wb.Ref(k.R, k.C), df.f.Code, t.serial(), d1904, row.V[k.C], row.T[k.C])
		}
		if c.NBad() > 0 {
			return
		}
	}
}
