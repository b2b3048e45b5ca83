package checks

import (
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"regexp"
	"strconv"
	"strings"

	"github.com/pbnjay/grate/commonxl"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C05", Quick: 40000, Thorough: 1500000,
		Rule:      "each case makes 1-12 number formats (built-in numeric formats, General, and random codes of 0/#, grouping, decimals, percent, scientific, literals, one to three sections) and about 40 numbers (ties, powers of ten, integers up to 1e23, RK values, tiny and huge fractions), and checks the text of every pair with exact decimal arithmetic, directly through commonxl.Formatter and through XLS and XLSX files; distinct = distinct format codes; a case without a number is trivial",
		Fuzz:      []string{"FuzzFormat"},
		Assume:    []string{"negative sections contain a minus or parentheses", "custom codes have the ids that Excel uses for them: 164 and more, and those of the localized currency formats (5-8, 23-26, 41-44, 63-66)"},
		MinEvents: map[string]int{"applied": 800000, "builtin": 200000, "custom": 200000, "cells": 80000, "negative_section": 20000, "zero_section": 5000, "percent": 50000, "scientific": 50000, "fraction": 20000, "general": 10000, "grouped": 50000, "long_decimals": 5000, "thousands": 20000, "over_15_digits": 20000, "optional_decimals": 20000, "conditions": 20000, "masks": 20000, "denominators": 10000, "currencies": 50000, "widths": 50000, "affixed_general": 10000, "localized": 50000},
		Case:      caseC05,
	})
}

// numSpec says what one section of a number format shows.
type numSpec struct {
	pre, post string
	minInt    int
	nInt      int
	minDec    int
	nDec      int
	group     bool
	scale     int // decimal exponent (percent: 2 each)
	exp       bool
	literal   bool // no digits at all: pre is the text
}

// fmtSpec is a format with up to three sections.
type fmtSpec struct {
	f         wb.Fmt
	secs      []numSpec
	general   bool
	frac      int  // number of denominator digits (0: not a fraction)
	accounts  bool // negative numbers in parentheses or with a minus, zero may be a dash
	dollar    bool
	signStyle bool // built-in: either of -1 and (1)
	loose     bool // has codes for widths: spaces are not compared
	genPre    string
	genPost   string
	den       int    // the denominator of all fractions
	mask      []rune // digits among literals: 0 and # are digits, literals follow a backslash
	conds     []*numCond
}

// numCond is the condition of a section.
type numCond struct {
	op  string
	val float64
}

func (c *numCond) met(x float64) bool {
	switch c.op {
	case "<":
		return x < c.val
	case "<=":
		return x <= c.val
	case ">":
		return x > c.val
	case ">=":
		return x >= c.val
	case "<>":
		return x != c.val
	}
	return x == c.val
}

var condValues = []float64{0, 0, 1, 5, 100, 1000, 1e6, 0.5, -10, 9999999}

// randCondSpec makes a format whose sections have conditions.
func randCondSpec(r *rand.Rand, id int) fmtSpec {
	fs := fmtSpec{f: wb.Fmt{ID: id}}
	cond := func(op string, val float64) (*numCond, string) {
		code := "[" + op + strconv.FormatFloat(val, 'f', -1, 64) + "]"
		if r.IntN(6) == 0 {
			code = "[Red]" + code
		}
		return &numCond{op, val}, code
	}
	var codes []string
	add := func(op string, val float64) {
		s, code := randSection(r, true)
		if op != "" {
			c, cc := cond(op, val)
			fs.conds = append(fs.conds, c)
			code = cc + code
		} else {
			fs.conds = append(fs.conds, nil)
		}
		fs.secs = append(fs.secs, s)
		codes = append(codes, code)
	}
	switch r.IntN(3) {
	case 0: // one condition, and the rest
		add(wb.Pick(r, "<", "<=", ">", ">=", "=", "<>"), condValues[r.IntN(len(condValues))])
		add("", 0)
	case 1: // descending limits
		hi := condValues[3+r.IntN(4)]
		op := wb.Pick(r, ">", ">=")
		add(op, hi)
		add(op, wb.Pick(r, 0, 0.5, 1))
		add("", 0)
	case 2:
		add(wb.Pick(r, "<", "<=", "="), wb.Pick(r, 0, 1, 100.0))
		add(wb.Pick(r, "<", "<=", "="), wb.Pick(r, 1000, 5000.0))
		add("", 0)
	}
	fs.f.Code = strings.Join(codes, ";")
	if len(codes) == 3 && r.IntN(4) == 0 {
		fs.f.Code += ";@"
	}
	return fs
}

// checkConds checks a number shown by a format with conditions.
func (fs *fmtSpec) checkConds(text string, x float64, v *big.Rat) string {
	i := 0
	for i < len(fs.secs)-1 && !(fs.conds[i] != nil && fs.conds[i].met(x)) {
		i++
	}
	s := &fs.secs[i]
	c := fs.conds[i]
	only := c != nil && (c.op == "<" && c.val <= 0 || (c.op == "<=" || c.op == "=") && c.val < 0)
	if !only && i == 1 && len(fs.secs) == 2 {
		f := fs.conds[0]
		only = f.val >= 0 && (f.op == ">" || f.op == ">=")
	}
	if only && x < 0 && s.check(text, v, 0) == "" { // all numbers of the section are negative: the sign is up to it
		return ""
	}
	return s.check(text, v, 1)
}

// randMask makes a format with literals among its digits.
func randMask(r *rand.Rand, id int) fmtSpec {
	fs := fmtSpec{f: wb.Fmt{ID: id}}
	code := wb.Pick(r, `000\-00\-0000`, `000\-00\-0000`, `00000\-0000`, `\(000\)\ 000\-0000`, `00\ 00\ 00\ 00\ 00`, `00\/00`, `0\.00\.000`, `\+0\ 000\ 000\x`, `0\:00`)
	fs.mask = []rune(code)
	if r.IntN(3) == 0 { // quotes instead of backslashes
		code = regexp.MustCompile(`\\(.)`).ReplaceAllString(code, `"$1"`)
	}
	fs.f.Code = code
	return fs
}

// checkMask checks a number shown by digits among literals.
func (fs *fmtSpec) checkMask(text string, v *big.Rat) string {
	abs := new(big.Rat).Abs(v)
	lo := new(big.Int).Quo(abs.Num(), abs.Denom())
	hi := new(big.Int).Add(lo, big.NewInt(1))
	two := new(big.Rat).Mul(abs, big.NewRat(2, 1))
	half := new(big.Rat).Sub(two, new(big.Rat).SetInt(new(big.Int).Add(lo, lo)))
	var wants []*big.Int
	if half.Cmp(big.NewRat(1, 1)) <= 0 {
		wants = append(wants, lo)
	}
	if half.Cmp(big.NewRat(1, 1)) >= 0 {
		wants = append(wants, hi)
	}
	for _, w := range wants {
		digits := []rune(w.String())
		n := 0
		for i := 0; i < len(fs.mask); i++ {
			if fs.mask[i] == '\\' {
				i++
			} else {
				n++
			}
		}
		for len(digits) < n {
			digits = append([]rune{'0'}, digits...)
		}
		var out []rune
		first := true
		for i := 0; i < len(fs.mask); i++ {
			if fs.mask[i] == '\\' {
				i++
				out = append(out, fs.mask[i])
				continue
			}
			k := 1
			if first {
				k = len(digits) - n + 1
				first = false
			}
			out = append(out, digits[:k]...)
			digits = digits[k:]
		}
		if text == string(out) && (v.Sign() >= 0 || w.Sign() == 0) || text == "-"+string(out) && v.Sign() < 0 {
			return ""
		}
	}
	return fmt.Sprintf("want the digits of %v in %s", wants, string(fs.mask))
}

func spec(nInt, minInt, nDec int, group bool, scale int, post string) numSpec {
	return numSpec{nInt: nInt, minInt: minInt, nDec: nDec, minDec: nDec, group: group, scale: scale, post: post}
}

var builtinSpecs = func() []fmtSpec {
	i0 := spec(1, 1, 0, false, 0, "")
	d2 := spec(1, 1, 2, false, 0, "")
	g0 := spec(4, 1, 0, true, 0, "")
	g2 := spec(4, 1, 2, true, 0, "")
	p0 := spec(1, 1, 0, false, 2, "%")
	p2 := spec(1, 1, 2, false, 2, "%")
	e2 := spec(1, 1, 2, false, 0, "")
	e2.exp = true
	e1 := spec(3, 1, 1, false, 0, "")
	e1.exp = true
	one := func(id int, s numSpec) fmtSpec { return fmtSpec{f: wb.Fmt{ID: id}, secs: []numSpec{s}} }
	acc := func(id int, s numSpec, dash, dollar bool) fmtSpec {
		return fmtSpec{f: wb.Fmt{ID: id}, secs: []numSpec{s}, signStyle: true, accounts: dash, dollar: dollar}
	}
	return []fmtSpec{
		one(1, i0), one(2, d2), one(3, g0), one(4, g2), one(9, p0), one(10, p2), one(11, e2), one(48, e1),
		{f: wb.Fmt{ID: 12}, frac: 1}, {f: wb.Fmt{ID: 13}, frac: 2},
		acc(37, g0, false, false), acc(38, g0, false, false), acc(39, g2, false, false), acc(40, g2, false, false),
		acc(41, g0, true, false), acc(43, g2, true, false), acc(42, g0, true, true), acc(44, g2, true, true),
		{f: wb.Fmt{ID: 0}, general: true},
		one(59, i0), one(60, d2), one(61, g0), one(62, g2), one(67, p0), one(68, p2), {f: wb.Fmt{ID: 69}, frac: 1}, {f: wb.Fmt{ID: 70}, frac: 2},
	}
}()

var literals = []struct{ code, text string }{
	{"$", "$"}, {`"kg"`, "kg"}, {`"No. "`, "No. "}, {`"day "`, "day "}, {`"m²"`, "m²"}, {`\x`, "x"}, {`"€ "`, "€ "}, {" ", " "}, {`"h:mm"`, "h:mm"}, {`"0.00"`, "0.00"},
	{`"7"`, "7"}, {`\#`, "#"}, {`":"`, ":"}, {`"E"`, "E"}, {`"e+3"`, "e+3"}, {`";"`, ";"}, {`"General"`, "General"}, {`"%"`, "%"}, {`"@"`, "@"}, {`"日本円"`, "日本円"}, {`\ `, " "}, {`","`, ","}, {`"."`, "."}, {`"AM/PM"`, "AM/PM"}, {":", ":"}, {`"["`, "["}, {`\\`, `\`},
	{`[$€-407]`, "€"}, {`[$€-2]\ `, "€ "}, {`[$USD]`, "USD"}, {`[$-409]`, ""}, {`[$R$-416]\ `, "R$ "}, {`[$¥-411]`, "¥"}, {`\ [$kr-41D]`, " kr"}, {`[$£-809]`, "£"},
}

var bareOK = map[string]bool{"$": true, " ": true, ":": true}

// randSection makes one number section and its code.
func randSection(r *rand.Rand, lits bool) (numSpec, string) {
	var s numSpec
	var b strings.Builder
	code := wb.Pick(r, "0", "0", "#", "##0", "00", "000", "#,##0", "#,##0", "#,###", "0,000", "#,#00", "0000000", "##", "#,##0", "##,##0")
	s.group = strings.Contains(code, ",")
	for _, ch := range code {
		switch ch {
		case '0':
			s.nInt++
			s.minInt++
		case '#':
			s.nInt++
			if s.minInt > 0 {
				s.minInt++
			}
		}
	}
	dec := wb.Pick(r, "", "", "0", "00", "000", "#", "0#", "##", "0##", "00000", "0000000000", "###", "######", "0#####", "00########", "##########", "000000000000", "0###############", "####")
	s.nDec = len(dec)
	s.minDec = strings.Count(dec, "0")
	var pre, post, preT, postT string
	if lits {
		if r.IntN(3) == 0 {
			l := literals[r.IntN(len(literals))]
			pre, preT = l.code, l.text
		}
		if r.IntN(3) == 0 {
			l := literals[r.IntN(len(literals))]
			post, postT = l.code, l.text
		}
	}
	body := code
	if dec != "" {
		body += "." + dec
	}
	switch r.IntN(5) {
	case 0:
		s.scale = 2
		if r.IntN(10) == 0 {
			s.scale = 4
		}
		pc := strings.Repeat("%", s.scale/2)
		if r.IntN(3) == 0 {
			body += " "
			postT = " " + pc + postT
		} else {
			postT = pc + postT
		}
		body += pc
	case 1:
		s.exp = true
		if s.group { // grouping and exponents do not mix
			s.group = false
			body = strings.ReplaceAll(body, ",", "")
		}
		body += wb.Pick(r, "E+0", "E+00", "E+000", "E-0", "E-00", "e+00")
	case 2, 3:
		if r.IntN(3) == 0 { // in thousands, millions…
			n := wb.Pick(r, 1, 1, 1, 2, 2, 3, 4)
			s.scale = -3 * n
			body += strings.Repeat(",", n)
			if r.IntN(2) == 0 {
				l := wb.Pick(r, `"K"`, `"M"`, `" Mio"`, `"k€"`)
				body += l
				postT = strings.Trim(l, `"`) + postT
			}
		}
	}
	if r.IntN(8) == 0 {
		b.WriteString(wb.Pick(r, "[Red]", "[Blue]", "[Color12]", "[BLACK]", "[green]", "[$-409]"))
	}
	b.WriteString(pre + body + post)
	s.pre, s.post = preT, postT
	return s, b.String()
}

// randFmtSpec makes a custom format.
func randFmtSpec(r *rand.Rand, id int) fmtSpec {
	fs := fmtSpec{f: wb.Fmt{ID: id}}
	switch r.IntN(30) {
	case 0:
		fs.general = true
		fs.f.Code = wb.Pick(r, "General", "GENERAL", "general")
		return fs
	case 1:
		fs.general = true
		a, b := literals[r.IntN(len(literals))], literals[r.IntN(len(literals))]
		if r.IntN(3) == 0 {
			a.code, a.text = "", ""
		}
		fs.genPre, fs.genPost = a.text, b.text
		fs.f.Code = a.code + "General" + b.code
		return fs
	case 2:
		fs.frac = 1 + r.IntN(3)
		q := strings.Repeat("?", fs.frac)
		fs.f.Code = "# " + q + "/" + q
		if r.IntN(3) == 0 {
			fs.f.Code = strings.ReplaceAll(fs.f.Code, "?", "#")
		}
		if r.IntN(3) == 0 {
			l := literals[r.IntN(len(literals))]
			fs.f.Code += l.code
			fs.genPost = l.text
		}
		return fs
	case 3:
		fs.den = wb.Pick(r, 2, 4, 8, 16, 32, 10, 100, 3, 5, 12, 64, 7)
		fs.frac = len(strconv.Itoa(fs.den))
		fs.f.Code = "# " + strings.Repeat("?", fs.frac) + "/" + strconv.Itoa(fs.den)
		if r.IntN(3) == 0 {
			l := literals[r.IntN(len(literals))]
			if l.text != "7" && l.text != "0.00" {
				fs.f.Code += l.code
				fs.genPost = l.text
			}
		}
		return fs
	case 4, 5:
		return randMask(r, id)
	case 6, 7, 8:
		return randCondSpec(r, id)
	}
	n := wb.Pick(r, 1, 1, 1, 2, 2, 3)
	fs.loose = r.IntN(6) == 0
	var codes []string
	for i := 0; i < n; i++ {
		s, code := randSection(r, true)
		if fs.loose {
			s.pre, s.post = strings.ReplaceAll(s.pre, " ", ""), strings.ReplaceAll(s.post, " ", "")
			code = wb.Pick(r, "_(", "_-", "* ", "_(* ", "") + code + wb.Pick(r, "_)", "_-", "_€", "")
		}
		switch {
		case i == 1 && r.IntN(6) == 0:
			// the colour tells, or nothing does
		case i == 1 && r.IntN(8) == 0:
			l := wb.Pick(r, `"neg"`, "", `\-`, `"0"`)
			code = l
			s = numSpec{literal: true, pre: strings.Trim(l, `"\`)}
		case i == 1:
			if r.IntN(2) == 0 {
				code = wb.Pick(r, "-", `\-`, `"-"`) + code
				s.pre = "-" + s.pre
			} else {
				code = wb.Pick(r, "(", `\(`, `"("`) + code + wb.Pick(r, ")", `\)`, `")"`)
				s.pre = "(" + s.pre
				s.post += ")"
			}
		case i == 2 && r.IntN(2) == 0:
			l := wb.Pick(r, `"zero"`, `"-"`, "-", `"0"`, `\-`, `"nil"`, "", "")
			code = l
			s = numSpec{literal: true, pre: strings.Trim(l, `"\`)}
		}
		codes = append(codes, code)
		fs.secs = append(fs.secs, s)
	}
	if n == 1 && !fs.loose && r.IntN(25) == 0 { // up to the longest code there is
		t := strings.Repeat(wb.Pick(r, "units ", "km, ", "ein langer Text; "), 60)[:60+r.IntN(150)] + "."
		codes[0] += `"` + t + `"`
		fs.secs[0].post += t
	}
	fs.f.Code = strings.Join(codes, ";")
	if n == 3 && r.IntN(4) == 0 {
		fs.f.Code += wb.Pick(r, ";@", ";", `;"text: "@`)
	}
	return fs
}

// localIDs are the ids of the formats that depend on the locale of the author,
// whose codes are part of the file ([MS-XLS] 2.4.126).
var localIDs = []int{5, 6, 7, 8, 23, 24, 25, 26, 41, 42, 43, 44, 41, 42, 43, 44, 63, 64, 65, 66}

// accountingCodes are the codes of localIDs in the US.
var accountingCodes = map[int]string{
	41: `_(* #,##0_);_(* \(#,##0\);_(* "-"_);_(@_)`,
	42: `_("$"* #,##0_);_("$"* \(#,##0\);_("$"* "-"_);_(@_)`,
	43: `_(* #,##0.00_);_(* \(#,##0.00\);_(* "-"??_);_(@_)`,
	44: `_("$"* #,##0.00_);_("$"* \(#,##0.00\);_("$"* "-"??_);_(@_)`,
}

// localSpec makes the format of an amount of money for a locale.
func localSpec(r *rand.Rand, id int) fmtSpec {
	fs := fmtSpec{f: wb.Fmt{ID: id}, loose: true}
	num, s := "#,##0", spec(4, 1, 0, true, 0, "")
	if r.IntN(2) == 0 {
		num, s = "#,##0.00", spec(4, 1, 2, true, 0, "")
	}
	sym := wb.Pick(r, "£", "€", "zł", "¥", "kr", "CHF", "$", "Kč", "₹", "R$")
	q := `"` + sym + `"`
	dash := wb.Pick(r, `"-"`, `"-"??`)
	neg, zero := s, numSpec{literal: true}
	switch r.IntN(5) {
	case 0, 1:
		fs.f.Code = "_-" + q + "* " + num + `_-;\-` + q + "* " + num + "_-;_-" + q + "* " + dash + "_-;_-@_-"
		s.pre, neg.pre, zero.pre = sym, "-"+sym, sym+"-"
	case 2, 3:
		q = `\ ` + q
		fs.f.Code = "_-* " + num + q + `_-;\-* ` + num + q + "_-;_-* " + dash + q + "_-;_-@_-"
		s.post, neg.pre, neg.post, zero.pre = sym, "-", sym, "-"+sym
	default:
		red := wb.Pick(r, "", "[Red]")
		fs.f.Code = q + num + ";" + red + `\-` + q + num
		s.pre, neg.pre = sym, "-"+sym
		fs.secs = []numSpec{s, neg}
		return fs
	}
	fs.secs = []numSpec{s, neg, zero}
	return fs
}

var groupRe = regexp.MustCompile(`^\d{1,3}(,\d{3})*$`)
var digitsRe = regexp.MustCompile(`^\d*$`)

// checkNumber tells what is wrong with text as the display of |v| by a section; sign says whether
// a minus sign is wanted (0: none allowed; 1: wanted unless the digits are all zero).
func (s *numSpec) check(text string, v *big.Rat, sign int) string {
	if s.literal {
		if text != s.pre {
			return fmt.Sprintf("want the literal %q", s.pre)
		}
		return ""
	}
	minus := false
	t := text
	if sign == 1 && strings.HasPrefix(t, "-") {
		minus = true
		t = t[1:]
	}
	if !strings.HasPrefix(t, s.pre) {
		return fmt.Sprintf("want the literal %q first", s.pre)
	}
	t = t[len(s.pre):]
	if sign == 1 && !minus && strings.HasPrefix(t, "-") {
		minus = true
		t = t[1:]
	}
	if !strings.HasSuffix(t, s.post) {
		return fmt.Sprintf("want the literal %q last", s.post)
	}
	t = t[:len(t)-len(s.post)]
	exp := 0
	if s.exp {
		i := strings.IndexAny(t, "Ee")
		if i < 0 {
			return "no exponent"
		}
		e, err := strconv.Atoi(t[i+1:])
		if err != nil {
			return "bad exponent"
		}
		exp = e
		t = t[:i]
	}
	whole, dec := t, ""
	if i := strings.IndexByte(t, '.'); i >= 0 {
		whole, dec = t[:i], t[i+1:]
	}
	plain := whole
	if s.group {
		if whole != "" && !groupRe.MatchString(whole) {
			return "digits are not grouped by three"
		}
		plain = strings.ReplaceAll(whole, ",", "")
	}
	if !digitsRe.MatchString(plain) || !digitsRe.MatchString(dec) {
		return "not a decimal number"
	}
	if len(dec) < s.minDec || len(dec) > s.nDec {
		return fmt.Sprintf("want %d to %d decimals", s.minDec, s.nDec)
	}
	if len(dec) > s.minDec && strings.HasSuffix(dec, "0") {
		return "superfluous zeros in the decimals"
	}
	if len(plain) < s.minInt && !s.exp || s.exp && len(plain) < 1 && s.minInt > 0 {
		return fmt.Sprintf("want at least %d digits before the point", s.minInt)
	}
	lim := s.minInt
	if lim < 1 {
		lim = 1
	}
	if len(plain) > lim && plain[0] == '0' {
		return "superfluous leading zeros"
	}
	shown, ok := new(big.Rat).SetString("0" + plain + "." + dec + "0")
	if !ok {
		return "not a number"
	}
	isZero := shown.Sign() == 0
	if s.exp {
		if v.Sign() != 0 {
			if strings.Trim(plain, "0") == "" {
				return "no significant digit before the point"
			}
			if n := s.nInt; len(plain) > n && len(plain) > 1 {
				return "too many digits before the point"
			}
		}
		shown.Mul(shown, pow10(exp))
	}
	want := new(big.Rat).Mul(new(big.Rat).Abs(v), pow10(s.scale))
	diff := new(big.Rat).Sub(shown, want)
	tol := pow10(exp - s.nDec)
	if v.Cmp(rat1e15) >= 0 || v.Cmp(ratm1e15) <= 0 {
		// fifteen significant digits are enough
		if t15 := new(big.Rat).Mul(new(big.Rat).Abs(want), pow10(-14)); t15.Cmp(tol) > 0 {
			tol = t15
		}
	}
	if diff.Abs(diff).Cmp(tol) >= 0 {
		return fmt.Sprintf("off by %s", diff.FloatString(12))
	}
	if sign == 1 && minus != (v.Sign() < 0) && !(isZero && v.Sign() < 0) {
		return "wrong sign"
	}
	return ""
}

var rat1e15, ratm1e15 = pow10(15), new(big.Rat).Neg(pow10(15))

func pow10(n int) *big.Rat {
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(max(n, -n))), nil)
	if n < 0 {
		return new(big.Rat).SetFrac(big.NewInt(1), p)
	}
	return new(big.Rat).SetInt(p)
}

// check tells what is wrong with the text shown for x ("" if nothing).
func (fs *fmtSpec) check(text string, x float64) string {
	if fs.loose {
		text = strings.ReplaceAll(text, " ", "")
	}
	if fs.general {
		t := text
		minus := strings.HasPrefix(t, "-")
		if minus {
			t = t[1:]
		}
		if !strings.HasPrefix(t, fs.genPre) || !strings.HasSuffix(t[len(fs.genPre):], fs.genPost) {
			return fmt.Sprintf("want General between %q and %q", fs.genPre, fs.genPost)
		}
		t = t[len(fs.genPre) : len(t)-len(fs.genPost)]
		if minus {
			t = "-" + t
		}
		if !generalText(x)(t) {
			return "General does not show this number"
		}
		return ""
	}
	v := new(big.Rat)
	v.SetFloat64(x)
	if fs.mask != nil {
		return fs.checkMask(text, v)
	}
	if fs.conds != nil {
		return fs.checkConds(text, x, v)
	}
	if fs.frac > 0 {
		if !strings.HasSuffix(text, fs.genPost) {
			return fmt.Sprintf("want the literal %q last", fs.genPost)
		}
		return checkFraction(strings.TrimSuffix(text, fs.genPost), v, fs.frac, fs.den)
	}
	if fs.signStyle {
		t := text
		if x == 0 && fs.accounts && (t == "-" || fs.dollar && t == "$-") {
			return ""
		}
		neg := false
		if fs.dollar {
			t = strings.Replace(t, "$", "", 1)
		}
		if strings.HasPrefix(t, "(") && strings.HasSuffix(t, ")") {
			neg = true
			t = t[1 : len(t)-1]
		} else if strings.HasPrefix(t, "-") {
			neg = true
			t = t[1:]
		}
		t = strings.TrimSpace(t)
		if e := fs.secs[0].check(t, v, 0); e != "" {
			return e
		}
		if neg != (x < 0) && !(x < 0 && strings.Trim(t, "0.,") == "") {
			return "wrong sign"
		}
		return ""
	}
	switch {
	case len(fs.secs) == 1:
		return fs.secs[0].check(text, v, 1)
	case x == 0 && len(fs.secs) == 3:
		return fs.secs[2].check(text, v, 0)
	case x < 0:
		e := fs.secs[1].check(text, v, 0)
		if e != "" && fs.secs[0].check(text, v, 0) == "" && !strings.ContainsAny(text, "123456789") {
			e = "" // rounds to zero
		}
		return e
	}
	return fs.secs[0].check(text, v, 0)
}

var fracRe = regexp.MustCompile(`^(-?)(?:(\d+)(?: +|$))?(?:(-?\d+)/(\d+))?$`)

func checkFraction(text string, v *big.Rat, n, fixed int) string {
	m := fracRe.FindStringSubmatch(strings.TrimSpace(text))
	if m == nil || m[2] == "" && m[3] == "" {
		return "not a whole number and fraction"
	}
	shown := new(big.Rat)
	if m[2] != "" {
		shown.SetString(m[2])
	}
	if m[3] != "" {
		num, ok1 := new(big.Int).SetString(m[3], 10)
		den, ok2 := new(big.Int).SetString(m[4], 10)
		if !ok1 || !ok2 || den.Sign() == 0 {
			return "bad fraction"
		}
		if strings.HasPrefix(m[3], "-") && m[2] != "" {
			return "two numbers"
		}
		if len(m[4]) > n || len(strings.TrimPrefix(m[3], "-")) > n {
			return fmt.Sprintf("more than %d digits", n)
		}
		if fixed > 0 && (!den.IsInt64() || den.Int64() != int64(fixed)) {
			return fmt.Sprintf("want the denominator %d", fixed)
		}
		shown.Add(shown, new(big.Rat).SetFrac(num, den))
	}
	if m[1] == "-" {
		shown.Neg(shown)
	}
	d := new(big.Rat).Sub(shown, v)
	lim := new(big.Rat).Mul(pow10(-n), big.NewRat(1000000001, 1000000000))
	if fixed > 0 {
		lim = new(big.Rat).Mul(big.NewRat(1, int64(2*fixed)), big.NewRat(1000000001, 1000000000))
	}
	if v.Cmp(rat1e15) >= 0 || v.Cmp(ratm1e15) <= 0 { // fifteen significant digits are enough
		lim.Add(lim, new(big.Rat).Mul(new(big.Rat).Abs(v), pow10(-14)))
	}
	if d.Abs(d).Cmp(lim) > 0 {
		return "off by " + d.FloatString(6)
	}
	return ""
}

// fmtNumber makes a number whose display is interesting, below 1e23 in magnitude.
func fmtNumber(r *rand.Rand) float64 {
	var v float64
	switch r.IntN(14) {
	case 0:
		v = float64(r.IntN(20)) / 2
	case 1:
		v = math.Pow10(r.IntN(30) - 15)
	case 2: // just below or above a power of ten
		v = math.Pow10(r.IntN(16))
		if r.IntN(2) == 0 {
			v = math.Nextafter(v, 0)
		} else {
			v -= math.Pow10(-r.IntN(8))
		}
	case 3: // ties
		v = float64(r.IntN(100000))*math.Pow10(-r.IntN(6)) + 0.5*math.Pow10(-r.IntN(11))
	case 4:
		v = float64(r.Int64N(999999999999999))
	case 5:
		v = float64(r.IntN(10000)) / 10000
	case 6:
		v = float64(r.IntN(1000000)) / 100
	case 7:
		v = float64(1+r.IntN(999)) * math.Pow10(3*r.IntN(5))
	case 8:
		v = r.Float64() * math.Pow10(r.IntN(15))
	case 9:
		v = float64(r.IntN(200)) + float64(r.IntN(100))/float64(1+r.IntN(99))
	case 10:
		v = math.Ldexp(1+r.Float64(), -r.IntN(60))
	case 11:
		v, _ = strconv.ParseFloat(strings.Repeat("9", 1+r.IntN(14))+"."+strings.Repeat("9", r.IntN(6))+"5", 64)
	case 12:
		v = [...]float64{0, 1e-300, 5e-324, 0.005, 0.015, 1.005, 2.675, 0.285, 999.995, 999999.5, 0.29, 1.15, 4.35, 1e14, 999999999999999, 0.07, 1234567, 1000, 999, 0.99999999999, 123456789012, 12345678901, 99999999999.5}[r.IntN(23)]
	default:
		v = randNum(r)
	}
	if r.IntN(5) < 2 {
		v = -v
	}
	if r.IntN(12) == 0 { // more than fifteen digits
		v = (1 + 9*r.Float64()) * math.Pow10(15+r.IntN(8))
		if r.IntN(2) == 0 {
			v = math.Pow10(15 + r.IntN(8))
		}
		if r.IntN(2) == 0 {
			v = -v
		}
	} else if !(math.Abs(v) < 1e15) {
		v = math.Mod(v, 1e15)
	}
	if v == 0 {
		v = 0
	}
	return v
}

func caseC05(c *mon.Ctx) {
	r := c.Rand
	var specs []fmtSpec
	for _, i := range r.Perm(len(builtinSpecs))[:3] {
		specs = append(specs, builtinSpecs[i])
	}
	local := map[int]bool{}
	id := 164 + r.IntN(20)
	for i, n := 0, 1+r.IntN(6); i < n; i++ {
		specs = append(specs, randFmtSpec(r, id))
		id += 1 + r.IntN(3)
	}
	if r.IntN(3) == 0 {
		for n := 1 + r.IntN(3); n > 0; n-- {
			id, used := localIDs[r.IntN(len(localIDs))], false
			for _, fs := range specs {
				used = used || fs.f.ID == id
			}
			if used {
				continue
			}
			if r.IntN(4) == 0 {
				specs = append(specs, randFmtSpec(r, id))
			} else {
				specs = append(specs, localSpec(r, id))
			}
			local[id] = true
		}
	}
	if r.IntN(10) == 0 {
		fs := randFmtSpec(r, 60000)
		specs = append(specs, fs)
	}
	var nums []float64
	for i := 0; i < 40; i++ {
		nums = append(nums, fmtNumber(r))
	}
	nums[0] = 0
	for i := range specs {
		for _, c := range specs[i].conds {
			if c != nil { // about the limits
				nums = append(nums, c.val, math.Nextafter(c.val, c.val+1), c.val-1, math.Nextafter(c.val, c.val-1))
			}
		}
	}
	var xf commonxl.Formatter
	for i := range specs {
		fs := &specs[i]
		if fs.f.Code != "" {
			if err := xf.Add(uint16(fs.f.ID), fs.f.Code); err != nil {
				c.Fatal("add", "Add(%d, %q): %v", fs.f.ID, fs.f.Code, err)
			}
			c.Key(fs.f.Code)
		} else {
			c.Key(fs.f.ID)
		}
	}
	report := func(how string, fs *fmtSpec, x float64, text string) bool {
		switch {
		case fs.f.Code == "":
			c.Count("builtin", 1)
		default:
			c.Count("custom", 1)
		}
		if fs.general {
			c.Count("general", 1)
		}
		if fs.frac > 0 {
			c.Count("fraction", 1)
		}
		for k, b := range map[string]bool{"conditions": fs.conds != nil, "masks": fs.mask != nil, "denominators": fs.den > 0, "currencies": strings.Contains(fs.f.Code, "[$"), "widths": fs.loose, "affixed_general": fs.genPre+fs.genPost != "", "localized": local[fs.f.ID]} {
			if b {
				c.Count(k, 1)
			}
		}
		if len(fs.secs) > 0 {
			s := fs.secs[0]
			if s.exp {
				c.Count("scientific", 1)
			}
			if s.scale > 0 {
				c.Count("percent", 1)
			}
			if s.scale < 0 {
				c.Count("thousands", 1)
			}
			if math.Abs(x) >= 1e15 {
				c.Count("over_15_digits", 1)
			}
			if s.nDec > s.minDec+4 {
				c.Count("optional_decimals", 1)
			}
			if s.group && math.Abs(x) >= 1000 {
				c.Count("grouped", 1)
			}
			if s.nDec > 5 {
				c.Count("long_decimals", 1)
			}
			if len(fs.secs) > 1 && x < 0 {
				c.Count("negative_section", 1)
			}
			if len(fs.secs) > 2 && x == 0 {
				c.Count("zero_section", 1)
			}
		}
		if e := fs.check(text, x); e != "" {
			c.Bad("number", "%s: format %d %q shows %s as %q: %s", how, fs.f.ID, fs.f.Code, strconv.FormatFloat(x, 'g', -1, 64), text, e)
			return false
		}
		return true
	}
	for i := range specs {
		fs := &specs[i]
		for _, x := range nums {
			s, ok := xf.Apply(uint16(fs.f.ID), x)
			if !ok {
				c.Fatal("unknown", "Apply does not know format %d %q", fs.f.ID, fs.f.Code)
			}
			c.Count("applied", 1)
			report("Apply(float64)", fs, x, s)
			if x == math.Trunc(x) && math.Abs(x) < 1<<63 {
				s, _ = xf.Apply(uint16(fs.f.ID), int64(x))
				c.Count("applied", 1)
				report("Apply(int64)", fs, x, s)
			}
			if c.NBad() > 0 {
				return
			}
		}
	}
	if r.IntN(2) == 0 {
		return
	}
	// through a file
	xls := r.IntN(2) == 0
	w := &wb.Workbook{Fmts: []wb.Fmt{{}}}
	byCell := map[pos]*fmtSpec{}
	vals := map[pos]float64{}
	s := wb.Sheet{Name: "n", DimRows: -1, DimCols: -1}
	for i := range specs {
		fi := 0
		if specs[i].f.ID != 0 {
			f := specs[i].f
			if f.Code == "" && r.IntN(2) == 0 {
				f.Code = accountingCodes[f.ID] // in every XLS file of Excel
			}
			w.Fmts = append(w.Fmts, f)
			fi = len(w.Fmts) - 1
		}
		for k := 0; k < 10; k++ {
			cell := wb.Cell{Row: k, Col: i, Kind: wb.Pick(r, wb.Num, wb.Num, wb.FNum), Fmt: fi, Num: nums[r.IntN(len(nums))]}
			if xls && cell.Kind == wb.Num && r.IntN(2) == 0 {
				for {
					cell.RK = randRK(r)
					cell.Num = rkValue(cell.RK)
					if math.Abs(cell.Num) < 1e15 {
						break
					}
				}
				cell.Enc = wb.Pick(r, wb.EncRK, wb.EncMulRk)
			}
			cell.NumText = numText(r, cell.Num)
			p := pos{k, i}
			byCell[p], vals[p] = &specs[i], cell.Num
			s.Cells = append(s.Cells, cell)
		}
	}
	sortCells(s.Cells)
	w.Sheets = []wb.Sheet{s}
	var p string
	if xls {
		b, _ := wb.BuildXLS(w, randXLSOpts(r), randCFBOpts(r))
		c.Artifact("book.xls", b)
		p = c.File(".xls", b)
	} else {
		b, _, _ := wb.BuildXLSX(w, wb.RandXLSXOpts(r))
		c.Artifact("book.xlsx", b)
		p = c.File(".xlsx", b)
	}
	src := mustOpen(c, p)
	defer src.Close()
	rows, _ := readAll(mustGet(c, src, "n"))
	how := "XLSX"
	if xls {
		how = "XLS"
	}
	for at, fs := range byCell {
		x := vals[at]
		if at.R >= len(rows) || at.C >= rows[at.R].N || rows[at.R].Blank || rows[at.R].SErr != nil {
			c.Bad("missing", "%s cell %s is missing", how, wb.Ref(at.R, at.C))
			return
		}
		row := rows[at.R]
		c.Count("cells", 1)
		report(how+" "+wb.Ref(at.R, at.C), fs, x, row.S[at.C])
		if !numEq(row.V[at.C], x) {
			c.Bad("value", "%s %s format %d %q: the stored number is %v, Scan gives %v (type %s)", how, wb.Ref(at.R, at.C), fs.f.ID, fs.f.Code, x, row.V[at.C], row.T[at.C])
		}
		if c.NBad() > 0 {
			return
		}
	}
}
