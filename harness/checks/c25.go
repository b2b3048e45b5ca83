package checks

import (
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"strconv"

	"github.com/pbnjay/grate/commonxl"
	"github.com/pbnjay/grate/xls"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C25", Quick: 40000, Thorough: 3000000, CPUSec: 20,
		Rule:      "each case takes 30 numbers (fractions of small and large numbers, numbers next to such fractions, whole and tiny ones, random ones up to 1e9, negative ones) through DecimalToFraction and DecimalToWholeFraction with 0 to 6 digits of numerator and denominator, and 60 RK values (random, and the edges of each of the four encodings) through the RKNumber methods, and compares the results with exact rational arithmetic; distinct = distinct arguments",
		Assume:    []string{"numbers up to 1e9", "0 digits mean the default of two"},
		MinEvents: map[string]int{"fractions": 500000, "exact": 100000, "limited": 100000, "negative": 100000, "improper": 100000, "whole": 300000, "rk": 1000000, "rk_integer": 200000, "rk_cents": 200000, "rk_float": 200000},
		Case:      caseC25,
	})
}

// fracNumber returns a number, and the fraction it is the nearest one to if any.
func fracNumber(r *rand.Rand, k int) (x float64, p, q int) {
	m := int(math.Pow10(k))
	switch r.IntN(8) {
	case 0, 1, 2: // a fraction that can be shown
		q = 1 + r.IntN(wb.Pick(r, m-1, min(m-1, 20)))
		p = r.IntN(wb.Pick(r, m, q+1))
		x = float64(p) / float64(q)
	case 3: // close to one
		q := 1 + r.IntN(m-1)
		x = float64(r.IntN(q+1))/float64(q) + r.NormFloat64()*math.Pow10(-1-r.IntN(9))
	case 4:
		x = float64(r.IntN(1000))
	case 5:
		x = float64(r.IntN(3)) + math.Pow10(-r.IntN(15))*r.Float64()
	case 6:
		x = r.Float64()
	default:
		x = r.Float64() * math.Pow10(r.IntN(10))
	}
	return
}

func caseC25(c *mon.Ctx) {
	r := c.Rand
	for i := 0; i < 30; i++ {
		nn, nd := r.IntN(7), r.IntN(7)
		if r.IntN(3) == 0 {
			nn = nd
		}
		n, d := nn, nd
		if n == 0 {
			n = 2
		}
		if d == 0 {
			d = 2
		}
		x, p, q := fracNumber(r, min(n, d))
		if x >= 1e9 || x < 0 {
			continue
		}
		if r.IntN(3) == 0 {
			x, p = -x, -p
			c.Count("negative", 1)
		}
		num, den := commonxl.DecimalToFraction(x, nn, nd)
		c.Count("fractions", 1)
		what := fmt.Sprintf("DecimalToFraction(%v, %d, %d) = %d/%d", x, nn, nd, num, den)
		checkFrac(c, what, x, num, den, n, d)
		if q > 0 && d <= 4 && n <= 4 {
			c.Count("exact", 1)
			if num*q != p*den {
				c.Fatal("exact", "%s, not %d/%d", what, p, q)
			}
		}
		if math.Abs(x) > 1 {
			c.Count("improper", 1)
		}
		c.Key("frac", x, nn, nd)

		whole, num, den := commonxl.DecimalToWholeFraction(x, nn, nd)
		c.Count("whole", 1)
		w, part := math.Modf(x)
		what = fmt.Sprintf("DecimalToWholeFraction(%v, %d, %d) = %d %d/%d", x, nn, nd, whole, num, den)
		if float64(whole) != w {
			c.Fatal("whole", "%s", what)
		}
		checkFrac(c, what, math.Abs(part), num, den, n, d)
	}
	for i := 0; i < 60; i++ {
		rk := r.Uint32()
		switch r.IntN(4) {
		case 0:
			rk = uint32(int32(r.IntN(2001)-1000)<<2) | rk&3
		case 1:
			rk = wb.Pick[uint32](r, 0, 0x7FFFFFFC, 0x80000000, 0xFFFFFFFC, 0x3FF00000, 0xBFF00000, 0x40590000, 0x7FEFFFFC, 0x00000004, 0x00100000) | rk&3
		}
		f := math.Float64frombits(uint64(rk&^3) << 32)
		if rk&2 == 0 && (math.IsNaN(f) || math.IsInf(f, 0)) {
			continue
		}
		c.Count("rk", 1)
		v := xls.RKNumber(rk)
		if isInt := rk&3 == 2; v.IsInteger() != isInt {
			c.Fatal("rk", "RK %08x: IsInteger is %v", rk, v.IsInteger())
		}
		want := ""
		switch rk & 3 {
		case 2:
			c.Count("rk_integer", 1)
			n := int(int32(rk) >> 2)
			if v.Int() != n {
				c.Fatal("rk", "RK %08x is %d, Int returns %d", rk, n, v.Int())
			}
			want = strconv.Itoa(n)
		case 3:
			c.Count("rk_cents", 1)
			f, _ := new(big.Rat).SetFrac64(int64(int32(rk)>>2), 100).Float64()
			if v.Float64() != f {
				c.Fatal("rk", "RK %08x is %v, Float64 returns %v", rk, f, v.Float64())
			}
			want = fmt.Sprint(f)
		default:
			c.Count("rk_float", 1)
			if rk&1 != 0 {
				f /= 100
			}
			if v.Float64() != f {
				c.Fatal("rk", "RK %08x is %v, Float64 returns %v", rk, f, v.Float64())
			}
			want = fmt.Sprint(f)
		}
		got := v.String()
		a, err1 := strconv.ParseFloat(got, 64)
		b, _ := strconv.ParseFloat(want, 64)
		if err1 != nil || a != b {
			c.Fatal("rk", "RK %08x is %s, String returns %q", rk, want, got)
		}
	}
}

// checkFrac checks the sign, the digits and the error of a fraction.
func checkFrac(c *mon.Ctx, what string, x float64, num, den, nn, nd int) {
	ax, an := math.Abs(x), num
	if x < 0 {
		an = -num
	}
	maxn, maxd := math.Pow10(nn), math.Pow10(nd)
	if den < 1 || an < 0 {
		c.Fatal("sign", "%s", what)
	}
	if float64(den) >= maxd || float64(an) >= maxn && den != 1 {
		c.Fatal("digits", "%s: too many digits", what)
	}
	diff := new(big.Rat).SetFrac64(int64(an), int64(den))
	diff.Sub(diff, new(big.Rat).SetFloat64(ax)).Abs(diff)
	e, _ := diff.Float64()
	if e > 1e-9 {
		c.Count("limited", 1)
	}
	if lim := math.Max(1/maxd, ax/maxn)/float64(den) + 1.1e-9; e > lim {
		c.Fatal("error", "%s: off by %g, more than %g", what, e, lim)
	}
}
