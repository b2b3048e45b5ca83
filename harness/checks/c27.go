package checks

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/pbnjay/grate/commonxl"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Subs["fmt27"] = subFmt27
	mon.Register(&mon.Check{
		ID: "C27", Quick: 40000, Thorough: 600000, CPUSec: 20,
		Rule:      "each case runs a random history of Add (new, repeated and built-in ids), Mode1904, Get and Apply over up to four Formatters at the same time, and compares every text with that of a new Formatter that only knows the one format; for every 50th history a new process shows the same texts in another order, each by a new Formatter; distinct = distinct histories",
		Assume:    []string{"ids 41 to 44 may be redefined once (they depend on the locale)", "adding General to an id that has a format already has no effect, with or without an error"},
		MinEvents: map[string]int{"adds": 200000, "refused_built_in": 15000, "refused_repeated": 25000, "localized": 8000, "applied": 300000, "custom": 80000, "built_in": 40000, "unknown": 20000, "toggles": 20000, "kept_funcs": 10000, "shown_1904": 20000, "processes": 300, "texts_of_processes": 5000},
		Case:      caseC27,
	})
	x := &commonxl.Formatter{}
	for id := 0; id < 1<<16; id++ {
		_, builtIn[id] = x.Get(uint16(id))
	}
}

// builtIn tells which ids a Formatter knows without any Add.
var builtIn [1 << 16]bool

type fmtModel struct {
	f     *commonxl.Formatter
	codes map[uint16]string
	mac   bool
}

type keptFunc struct {
	m    *fmtModel
	id   uint16
	code string // if custom
	ff   commonxl.FmtFunc
}

func fmtValue(r *rand.Rand) interface{} {
	switch r.IntN(7) {
	case 0:
		return int64(r.IntN(200000) - 50000)
	case 1:
		return wb.Pick(r, "text", "12", "TRUE", "", "a;b", "1.5")
	case 2:
		return r.IntN(2) == 0
	case 3:
		return time.Date(1900+r.IntN(200), time.Month(1+r.IntN(12)), 1+r.IntN(28), r.IntN(24), r.IntN(60), r.IntN(60), 0, time.UTC)
	case 4:
		return float64(100+r.IntN(60000)) + float64(r.IntN(86400))/86400
	}
	return randNum(r)
}

func caseC27(c *mon.Ctx) {
	r := c.Rand
	var ms []*fmtModel
	for i, n := 0, 1+r.IntN(4); i < n; i++ {
		ms = append(ms, &fmtModel{f: &commonxl.Formatter{}, codes: map[uint16]string{}})
	}
	// a small pool of ids, so that they meet
	ids := []uint16{164, 165, 166, 50, uint16(r.IntN(256)), uint16(r.IntN(1 << 16)), 65535, 41 + uint16(r.IntN(4)), wb.Pick[uint16](r, 1, 2, 14, 22, 37, 45, 49), 0}
	var pool []string
	for i := 0; i < 8; i++ {
		if i > 0 && r.IntN(3) == 0 { // a code that is almost the same
			pool = append(pool, nearCode(r, pool[r.IntN(i)]))
			continue
		}
		if r.IntN(3) == 0 {
			pool = append(pool, randDateFmt(r, 0).f.Code)
		} else {
			pool = append(pool, randFmtSpec(r, 0).f.Code)
		}
	}
	var trace []string
	say := func(f string, a ...interface{}) { trace = append(trace, fmt.Sprintf(f, a...)) }
	fail := func(sig, f string, a ...interface{}) {
		c.Artifact("history.txt", []byte(strings.Join(trace, "\n")))
		c.Fatal(sig, "%s\nlast operations: %s", fmt.Sprintf(f, a...), strings.Join(trace[max(0, len(trace)-10):], "; "))
	}
	var asked []fmtQuery
	var texts []string
	ask := func(code string, id uint16, mac bool, v interface{}, text string) {
		if q, ok := newFmtQuery(code, id, mac, v); ok {
			asked, texts = append(asked, q), append(texts, text)
		}
	}
	var kept []keptFunc
	expect := func(code string, id uint16, mac bool, v interface{}) string {
		s, err := expectText(code, id, mac, v)
		c.Must(err)
		return s
	}
	for n := 20 + r.IntN(60); n > 0; n-- {
		k := r.IntN(len(ms))
		m := ms[k]
		id := ids[r.IntN(len(ids))]
		switch op := r.IntN(20); {
		case op < 6:
			code := pool[r.IntN(len(pool))]
			if !(id >= 41 && id <= 44) && r.IntN(10) == 0 {
				code = wb.Pick(r, "General", "GENERAL", "general")
			}
			if code == "" {
				continue
			}
			say("%d.Add(%d,%q)", k, id, code)
			err := m.f.Add(id, code)
			c.Count("adds", 1)
			_, known := m.codes[id]
			localized := id >= 41 && id <= 44
			switch {
			case builtIn[id] && !localized:
				c.Count("refused_built_in", 1)
				if err == nil && !strings.EqualFold(code, "general") {
					fail("built-in", "format %d was replaced by %q", id, code)
				}
			case known:
				c.Count("refused_repeated", 1)
				if err == nil && !strings.EqualFold(code, "general") {
					fail("repeated", "format %d was %q, and is replaced by %q", id, m.codes[id], code)
				}
			default:
				if localized {
					c.Count("localized", 1)
					if err != nil { // may be the code it has anyway
						continue
					}
				}
				if err != nil {
					fail("refused", "Add(%d, %q): %v", id, code, err)
				}
				m.codes[id] = code
			}
		case op == 6:
			m.mac = r.IntN(2) == 0
			say("%d.Mode1904(%v)", k, m.mac)
			m.f.Mode1904(m.mac)
			c.Count("toggles", 1)
		case op == 7:
			ff, ok := m.f.Get(id)
			say("%d.Get(%d)", k, id)
			code, custom := m.codes[id]
			if ok != (custom || builtIn[id]) {
				fail("known", "Get(%d) returns %v", id, ok)
			}
			kept = append(kept, keptFunc{m, id, code, ff})
		case op == 8 && len(kept) > 0:
			x := kept[r.IntN(len(kept))]
			v := fmtValue(r)
			c.Count("kept_funcs", 1)
			got, want := x.ff(x.m.f, v), expect(x.code, x.id, x.m.mac, v)
			ask(x.code, x.id, x.m.mac, v, got)
			if got != want {
				fail("kept", "the function for format %d (%q) shows %v as %q, not %q", x.id, x.code, v, got, want)
			}
		default:
			v := fmtValue(r)
			say("%d.Apply(%d,%v)", k, id, v)
			c.Count("applied", 1)
			got, ok := m.f.Apply(id, v)
			code, custom := m.codes[id]
			switch {
			case custom:
				c.Count("custom", 1)
			case builtIn[id]:
				c.Count("built_in", 1)
			default:
				c.Count("unknown", 1)
			}
			if m.mac {
				c.Count("shown_1904", 1)
			}
			if ok != (custom || builtIn[id]) {
				fail("known", "Apply(%d) returns %v", id, ok)
			}
			ask(code, id, m.mac, v, got)
			if want := expect(code, id, m.mac, v); got != want {
				fail("text", "format %d (%q) shows %v as %q, not %q (1904: %v)", id, code, v, got, want, m.mac)
			}
		}
	}
	c.Key(strings.Join(trace, ";"))
	if r.IntN(50) > 0 {
		return
	}
	// a process that has seen nothing else
	perm := r.Perm(len(asked))
	qs := make([]fmtQuery, len(asked))
	for i, k := range perm {
		qs[i] = asked[k]
	}
	b, err := json.Marshal(qs)
	c.Must(err)
	f := filepath.Join(c.Dir, "queries")
	c.Must(os.WriteFile(f, b, 0o644))
	out, es, err := mon.RunSub(5*time.Minute, "fmt27", f)
	if err != nil {
		fail("process", "a new process that shows the same values ends with %v: %s", err, es)
	}
	var res []string
	c.Must(json.Unmarshal([]byte(out), &res))
	c.Count("processes", 1)
	for i, k := range perm {
		c.Count("texts_of_processes", 1)
		if q := asked[k]; res[i] != texts[k] {
			c.Artifact("queries.json", b)
			fail("process", "format %d (%q) shows %s %s as %q, and as %q in a new process (1904: %v)", q.ID, q.Code, q.Kind, q.Val, texts[k], res[i], q.Mac)
		}
	}
}

// nearCode is a code with the letters of one literal in the other case, or
// with another section, which must not be taken for the same code.
func nearCode(r *rand.Rand, code string) string {
	switch r.IntN(4) {
	case 0:
		parts := strings.Split(code, `"`)
		if len(parts) > 2 {
			k := 1 + 2*r.IntN(len(parts)/2)
			if x := strings.ToUpper(parts[k]); x != parts[k] {
				parts[k] = x
			} else {
				parts[k] = strings.ToLower(x)
			}
			return strings.Join(parts, `"`)
		}
		return code + wb.Pick(r, `"x"`, `"X"`)
	case 1:
		return code + `" "`
	case 2:
		return wb.Pick(r, `"a"`, `"A"`, `\a`, `\A`) + code
	}
	if strings.Contains(code, ";") {
		return code
	}
	return code + wb.Pick(r, `;"neg"`, `;"NEG"`, `;0;"Zero"`, `;0;"zero"`)
}

// fmtQuery is one value to be shown by one format.
type fmtQuery struct {
	Code string
	ID   uint16
	Mac  bool
	Kind string
	Val  string
}

func newFmtQuery(code string, id uint16, mac bool, v interface{}) (q fmtQuery, ok bool) {
	q = fmtQuery{Code: code, ID: id, Mac: mac, Kind: fmt.Sprintf("%T", v)}
	switch v := v.(type) {
	case int64:
		q.Val = strconv.FormatInt(v, 10)
	case float64:
		q.Val = strconv.FormatFloat(v, 'x', -1, 64)
	case bool:
		q.Val = strconv.FormatBool(v)
	case string:
		q.Val = v
	case time.Time:
		q.Val = v.Format(time.RFC3339Nano)
	default:
		return q, false
	}
	return q, true
}

func (q *fmtQuery) value() (v interface{}) {
	switch q.Kind {
	case "int64":
		v, _ = strconv.ParseInt(q.Val, 10, 64)
	case "float64":
		v, _ = strconv.ParseFloat(q.Val, 64)
	case "bool":
		v = q.Val == "true"
	case "string":
		v = q.Val
	case "time.Time":
		t, _ := time.Parse(time.RFC3339Nano, q.Val)
		v = t.UTC()
	}
	return v
}

// expectText is the text of v for a Formatter that only knows this format.
func expectText(code string, id uint16, mac bool, v interface{}) (string, error) {
	x := &commonxl.Formatter{}
	x.Mode1904(mac)
	if code != "" {
		id = 60001
		if err := x.Add(id, code); err != nil {
			return "", err
		}
	} else if _, ok := x.Get(id); !ok {
		id = 0
	}
	s, _ := x.Apply(id, v)
	return s, nil
}

// subFmt27 answers the queries in a file.
func subFmt27(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var qs []fmtQuery
	if err := json.Unmarshal(b, &qs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	res := []string{}
	for i := range qs {
		s, err := expectText(qs[i].Code, qs[i].ID, qs[i].Mac, qs[i].value())
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		res = append(res, s)
	}
	json.NewEncoder(os.Stdout).Encode(res)
	return 0
}
