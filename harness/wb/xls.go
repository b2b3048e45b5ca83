package wb

import (
	"bytes"
	"crypto/md5"
	"crypto/rc4"
	"encoding/binary"
	"math"
	"math/rand/v2"
	"strconv"
	"unicode/utf16"
)

// Rec is one BIFF record.
type Rec struct {
	Type uint16
	Data []byte
	Tag  string // what it is, for field-aware corruption
}

// XLSOpts controls the BIFF serialisation.
type XLSOpts struct {
	Rand       *rand.Rand
	Noise      int  // chance (percent) of an unrelated record between records
	SSTSplit   int  // 0: split at 8224 only; n>0: also split records at random every ~n bytes
	FlipWidth  bool // re-choose the 8/16-bit width at every split inside characters
	Encrypt    bool
	Password   string
	Salt       []byte
	SheetOrder []int // order of sheet substreams in the stream (BoundSheet order stays)
	CellOrder  int   // 0 row-major; 1 shuffled
	DupSST     bool  // do not deduplicate strings
	ExtraSST   int   // unused strings in front of the table
	XFPad      int   // unused XFs in front
	NoIndex    bool
	First      []Rec // records before FilePass
	Pre        []Rec // records after FilePass
	Last       []Rec // records before the last EOF
	ClearNoise bool  // noise includes the records which are never encrypted
}

var le = binary.LittleEndian

func u16(v int) []byte { return []byte{byte(v), byte(v >> 8)} }
func u32(v uint32) []byte {
	b := make([]byte, 4)
	le.PutUint32(b, v)
	return b
}
func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

func is8(u []uint16) bool {
	for _, c := range u {
		if c > 0xFF {
			return false
		}
	}
	return true
}

func chars(u []uint16, wide bool) []byte {
	if !wide {
		b := make([]byte, len(u))
		for i, c := range u {
			b[i] = byte(c)
		}
		return b
	}
	b := make([]byte, 2*len(u))
	for i, c := range u {
		le.PutUint16(b[2*i:], c)
	}
	return b
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// XLUnicode (16-bit count) and short (8-bit count) strings.
func xlUnicode(s string, wide bool) []byte {
	u := utf16.Encode([]rune(s))
	wide = wide || !is8(u)
	return cat(u16(len(u)), []byte{byte(b2i(wide))}, chars(u, wide))
}
func xlShort(s string, wide bool) []byte {
	u := utf16.Encode([]rune(s))
	wide = wide || !is8(u)
	return cat([]byte{byte(len(u)), byte(b2i(wide))}, chars(u, wide))
}

type sstItem struct {
	s    string
	wide bool
	runs int
	phon int
}

// sstWriter emits SST + CONTINUE records with legal splits.
type sstWriter struct {
	recs  [][]byte
	cur   []byte
	limit int
	o     *XLSOpts
	r     *rand.Rand
	// Stats
	SplitChars, SplitRuns, SplitPhon, SplitHdr, Flips int
}

func (w *sstWriter) newLimit() {
	w.limit = 8224
	if w.o.SSTSplit > 0 {
		w.limit = 12 + w.r.IntN(2*w.o.SSTSplit)
		if w.limit > 8224 {
			w.limit = 8224
		}
	}
}
func (w *sstWriter) room() int { return w.limit - len(w.cur) }
func (w *sstWriter) flush() {
	w.recs = append(w.recs, w.cur)
	w.cur = nil
	w.newLimit()
}
func (w *sstWriter) item(it sstItem) {
	u := utf16.Encode([]rune(it.s))
	wide := it.wide || !is8(u)
	hdr := 3
	flags := byte(b2i(wide))
	if it.runs > 0 {
		hdr += 2
		flags |= 8
	}
	if it.phon > 0 {
		hdr += 4
		flags |= 4
	}
	if w.room() < hdr {
		if len(w.cur) > 0 {
			w.SplitHdr++
			w.flush()
		}
	}
	if w.room() < hdr {
		w.limit = hdr + 8
	}
	w.cur = append(w.cur, u16(len(u))...)
	w.cur = append(w.cur, flags)
	if it.runs > 0 {
		w.cur = append(w.cur, u16(it.runs)...)
	}
	if it.phon > 0 {
		w.cur = append(w.cur, u32(uint32(it.phon))...)
	}
	for len(u) > 0 {
		sz := 1 + b2i(wide)
		n := w.room() / sz
		if n <= 0 {
			w.flush()
			w.SplitChars++
			nw := wide
			if w.o.FlipWidth {
				nw = !is8(u) || w.r.IntN(2) == 0
			} else if !wide {
				nw = !is8(u)
			}
			if nw != wide {
				w.Flips++
			}
			wide = nw
			w.cur = append(w.cur, byte(b2i(wide)))
			continue
		}
		if n > len(u) {
			n = len(u)
		}
		if !wide {
			// only take leading 8-bit characters; the rest is wide after a split.
			k := 0
			for k < n && u[k] <= 0xFF {
				k++
			}
			if k < n {
				// force a split here
				w.cur = append(w.cur, chars(u[:k], false)...)
				u = u[k:]
				w.limit = len(w.cur)
				continue
			}
		}
		w.cur = append(w.cur, chars(u[:n], wide)...)
		u = u[n:]
	}
	for k := 0; k < it.runs; k++ {
		if w.room() < 4 {
			w.SplitRuns++
			w.flush()
		}
		w.cur = append(w.cur, byte(k), 0, byte(w.r.IntN(5)), 0)
	}
	for k := 0; k < it.phon; {
		n := w.room() &^ 1
		if n <= 0 {
			w.SplitPhon++
			w.flush()
			continue
		}
		if n > it.phon-k {
			n = it.phon - k
		}
		for j := 0; j < n; j++ {
			w.cur = append(w.cur, byte(w.r.IntN(256)))
		}
		k += n
	}
}

// XLSStats reports what the writer exercised.
type XLSStats struct {
	SplitChars, SplitRuns, SplitPhon, SplitHdr, Flips int
	Records                                           int
	FormulaSplits                                     int
	Noise                                             int
	MulRk                                             int
	NestedCharts                                      int
	ZeroTail                                          int
}

// BuildXLSRecords turns the model into the record list (positions patched).
func BuildXLSRecords(w *Workbook, o XLSOpts) ([]Rec, XLSStats) {
	r := o.Rand
	if r == nil {
		r = rand.New(rand.NewPCG(1, 1))
		o.Rand = r
	}
	var st XLSStats
	build, year := Pick(r, 0x0DBB, 0x1FD2, 0x4F5A, r.IntN(65536)), Pick(r, 0x07CC, 0x07CC, 0x07CD)
	bof := func(dt int) []byte {
		return cat(u16(0x0600), u16(dt), u16(build), u16(year), []byte{byte(r.IntN(256)), byte(r.IntN(4)), byte(r.IntN(2)), 0, 6, byte(r.IntN(8)), 0, 0})
	}
	noiseTypes := []uint16{0x023E, 0x0208, 0x00D7, 0x0055, 0x007D, 0x01B6, 0, 0x005D, 0x00EC, 0x0012, 0x00A1, 0x0014, 0x0015, 0x0083, 0x0084, 0x0026, 0x0867, 0x088B}
	if o.ClearNoise {
		noiseTypes = append(noiseTypes, 0x0194, 0x0195, 0x00E1, 0x0196, 0x0138, 0x00E1, 0x0194)
	}
	var recs []Rec
	add := func(t uint16, tag string, d []byte) { recs = append(recs, Rec{t, d, tag}) }
	noise := func() {
		if o.Noise > 0 && r.IntN(100) < o.Noise {
			t := noiseTypes[r.IntN(len(noiseTypes))]
			if t == 0 {
				t = 0x0208
			}
			d := make([]byte, r.IntN(40))
			for i := range d {
				d[i] = byte(r.IntN(256))
			}
			add(t, "noise", d)
			st.Noise++
		}
	}
	// ---- globals
	add(0x0809, "bof", bof(5))
	recs = append(recs, o.First...)
	if o.Encrypt {
		pw := o.Password
		if pw == "" {
			pw = "VelvetSweatshop"
		}
		add(0x002F, "filepass", FilePass(pw, o.Salt, r))
	}
	recs = append(recs, o.Pre...)
	noise()
	add(0x0042, "codepage", u16(Pick(r, 1200, 1200, 1200, 1252, 932, 0x8000)))
	add(0x0022, "date1904", u16(b2i(w.Date1904)))
	noise()
	for _, f := range w.Fmts {
		if f.Code != "" {
			add(0x041E, "format", cat(u16(f.ID), xlUnicode(f.Code, r.IntN(3) == 0)))
			noise()
		}
	}
	style := 0 // 1: not for cells
	xf := func(fid int) {
		d := make([]byte, 20)
		for i := range d { // font, alignment, borders, colors
			d[i] = byte(r.IntN(256))
		}
		le.PutUint16(d[2:], uint16(fid))
		le.PutUint16(d[4:], uint16(1+4*style+16*Pick(r, 0, 0, r.IntN(4095), 4095*style)))
		add(0x00E0, "xf", d)
	}
	for i := 0; i < o.XFPad; i++ {
		style = r.IntN(2)
		xf(Pick(r, 0, 2, 9, 14, 49))
	}
	style = 0
	nf := len(w.Fmts)
	if nf == 0 {
		xf(0)
	}
	for _, f := range w.Fmts {
		xf(f.ID)
	}
	noise()
	boundAt := map[int]int{}
	for i, s := range w.Sheets {
		boundAt[i] = len(recs)
		add(0x0085, "boundsheet", cat(u32(0), []byte{byte(s.Hidden) | byte(r.IntN(2)*r.IntN(64)<<2), s.Type}, xlShort(s.Name, s.Wide)))
	}
	noise()
	// ---- SST
	var items []sstItem
	index := map[sstItem]int{}
	for i := 0; i < o.ExtraSST; i++ {
		items = append(items, sstItem{"unused" + strconv.Itoa(i), r.IntN(2) == 0, r.IntN(3), 2 * r.IntN(4)})
	}
	refs := map[[2]int]int{}
	for si, s := range w.Sheets {
		for ci, c := range s.Cells {
			if c.Kind != Str {
				continue
			}
			it := sstItem{c.Str, c.Wide, c.Runs, c.Phon}
			k, ok := index[it]
			if !ok || o.DupSST {
				k = len(items)
				items = append(items, it)
				index[it] = k
			}
			refs[[2]int{si, ci}] = k
		}
	}
	if len(items) > 0 {
		sw := &sstWriter{o: &o, r: r}
		sw.newLimit()
		if sw.limit < 20 {
			sw.limit = 20
		}
		sw.cur = cat(u32(uint32(len(items)+r.IntN(100))), u32(uint32(len(items))))
		for _, it := range items {
			sw.item(it)
		}
		sw.flush()
		for i, d := range sw.recs {
			if i == 0 {
				add(0x00FC, "sst", d)
			} else {
				add(0x003C, "sstcont", d)
			}
		}
		st.SplitChars, st.SplitRuns, st.SplitPhon, st.SplitHdr, st.Flips = sw.SplitChars, sw.SplitRuns, sw.SplitPhon, sw.SplitHdr, sw.Flips
		add(0x00FF, "extsst", cat(u16(8), make([]byte, 8)))
	}
	noise()
	add(0x000A, "eof", nil)

	// ---- sheets
	order := o.SheetOrder
	if len(order) != len(w.Sheets) {
		order = nil
		for i := range w.Sheets {
			order = append(order, i)
		}
	}
	start := map[int]int{}
	last := order[len(order)-1]
	for _, si := range order {
		s := &w.Sheets[si]
		start[si] = len(recs)
		if s.Type == 2 { // chart sheet
			add(0x0809, "bof", bof(0x20))
			noise()
			add(0x1002, "chartrec", make([]byte, 16))
			add(0x1033, "chartrec", nil)
			add(0x1034, "chartrec", nil)
			add(0x000A, "eof", nil)
			continue
		}
		add(0x0809, "bof", bof(0x10))
		noise()
		wsb := []byte{0xC1, 0x04}
		if r.IntN(3) == 0 {
			wsb = []byte{byte(r.IntN(256)) &^ 0x10, byte(r.IntN(256))}
		}
		if s.Dialog {
			wsb[0] |= 0x10
		}
		add(0x0081, "wsbool", wsb)
		dr, dc := s.Dim()
		add(0x0200, "dimensions", cat(u32(0), u32(uint32(dr)), u16(0), u16(dc), u16(0)))
		noise()
		idx := make([]int, len(s.Cells))
		for i := range idx {
			idx[i] = i
		}
		if o.CellOrder == 1 {
			r.Shuffle(len(idx), func(i, j int) { idx[i], idx[j] = idx[j], idx[i] })
		}
		// a chart is a substream of its own, and may hold further charts
		var chart func(depth int)
		chart = func(depth int) {
			add(0x0809, "bof", bof(0x20))
			bogus := func() {
				for k, n := 0, 1+r.IntN(4); k < n; k++ {
					// records that would be cells if they were taken for the sheet's own
					add(0x0203, "chartcell", cat(u16(r.IntN(4)), u16(r.IntN(4)), u16(0), u64(math.Float64bits(-77777.25))))
				}
			}
			bogus()
			if r.IntN(2) == 0 {
				add(0x1001, "chartrec", []byte{1, 2})
			}
			if depth < 4 && r.IntN(3) == 0 {
				for n := 1 + r.IntN(2); n > 0; n-- {
					chart(depth + 1)
					st.NestedCharts++
				}
				bogus()
			}
			add(0x000A, "eof", nil)
		}
		for k := 0; k < len(idx); k++ {
			c := &s.Cells[idx[k]]
			ixfe := u16(o.XFPad + c.Fmt)
			rc := cat(u16(c.Row), u16(c.Col), ixfe)
			switch c.Kind {
			case Blank:
				add(0x0201, "blank", rc)
			case Num:
				switch c.Enc {
				case EncNumber:
					add(0x0203, "number", cat(rc, u64(math.Float64bits(c.Num))))
				case EncRK:
					add(0x027E, "rk", cat(rc, u32(c.RK)))
				case EncMulRk:
					d := cat(u16(c.Row), u16(c.Col))
					last := c.Col
					n := 0
					for {
						cc := &s.Cells[idx[k]]
						d = append(d, u16(o.XFPad+cc.Fmt)...)
						d = append(d, u32(cc.RK)...)
						last = cc.Col
						n++
						if k+1 < len(idx) {
							nx := &s.Cells[idx[k+1]]
							if nx.Kind == Num && nx.Enc == EncMulRk && nx.Row == c.Row && nx.Col == last+1 {
								k++
								continue
							}
						}
						break
					}
					d = append(d, u16(last)...)
					add(0x00BD, "mulrk", d)
					st.MulRk++
				}
			case Str:
				add(0x00FD, "labelsst", cat(rc, u32(uint32(refs[[2]int{si, idx[k]}]))))
			case Bool:
				add(0x0205, "boolerr", cat(rc, []byte{byte(b2i(c.Bool)), 0}))
			case Err:
				add(0x0205, "boolerr", cat(rc, []byte{c.Err, 1}))
			default: // formulas
				var v []byte
				switch c.Kind {
				case FNum:
					v = u64(math.Float64bits(c.Num))
				case FBool:
					v = []byte{1, 0, byte(b2i(c.Bool)), 0, 0, 0, 0xFF, 0xFF}
				case FErr:
					v = []byte{2, 0, c.Err, 0, 0, 0, 0xFF, 0xFF}
				case FStr:
					v = []byte{0, 0, 0, 0, 0, 0, 0xFF, 0xFF}
					if c.Str == "" {
						v[0] = 3
					}
				}
				add(0x0006, "formula", cat(rc, v, u16(0), u32(0), u16(5), []byte{0x1E, 1, 0, 0x1E, 2}))
				if c.Kind == FStr && c.Str != "" {
					if r.IntN(8) == 0 {
						add(0x04BC, "shrfmla", make([]byte, 10)) // SHRFMLA may sit between
					}
					u := utf16.Encode([]rune(c.Str))
					parts := [][]uint16{}
					p := 0
					for _, sp := range c.Splits {
						if sp > p && sp < len(u) {
							parts = append(parts, u[p:sp])
							p = sp
						}
					}
					parts = append(parts, u[p:])
					// enforce the record size limit
					var pp [][]uint16
					for _, q := range parts {
						for len(q) > 4000 {
							pp = append(pp, q[:4000])
							q = q[4000:]
						}
						pp = append(pp, q)
					}
					for i, q := range pp {
						wd := c.Wide || !is8(q)
						if i < len(c.SplitW) {
							wd = !is8(q) || c.SplitW[i]
						}
						if i == 0 {
							add(0x0207, "string", cat(u16(len(u)), []byte{byte(b2i(wd))}, chars(q, wd)))
						} else {
							add(0x003C, "strcont", cat([]byte{byte(b2i(wd))}, chars(q, wd)))
							st.FormulaSplits++
						}
					}
				}
			}
			noise()
			if s.Charts > 0 && r.IntN(len(s.Cells)+1) == 0 {
				chart(0)
			}
		}
		for k := 0; k < s.Charts; k++ {
			chart(0)
			noise()
		}
		if len(s.Merges) > 0 {
			for i := 0; i < len(s.Merges); i += 1026 {
				ms := s.Merges[i:]
				if len(ms) > 1026 {
					ms = ms[:1026]
				}
				if len(ms) > 1 && r.IntN(3) == 0 { // several MergeCells records
					cut := 1 + r.IntN(len(ms)-1)
					add(0x00E5, "mergecells", mergeRec(ms[:cut]))
					ms = ms[cut:]
				}
				add(0x00E5, "mergecells", mergeRec(ms))
			}
		}
		noise()
		for _, l := range s.Links {
			add(0x01B8, "hlink", hlinkRec(l))
			noise()
		}
		if si == last {
			recs = append(recs, o.Last...)
		}
		add(0x000A, "eof", nil)
	}
	// patch positions
	pos := make([]int, len(recs)+1)
	for i, rc := range recs {
		pos[i+1] = pos[i] + 4 + len(rc.Data)
	}
	for si := range w.Sheets {
		le.PutUint32(recs[boundAt[si]].Data, uint32(pos[start[si]]))
	}
	st.Records = len(recs)
	return recs, st
}

func u64(v uint64) []byte {
	b := make([]byte, 8)
	le.PutUint64(b, v)
	return b
}

func mergeRec(ms []Merge) []byte {
	d := u16(len(ms))
	for _, m := range ms {
		d = append(d, cat(u16(m.R1), u16(m.R2), u16(m.C1), u16(m.C2))...)
	}
	return d
}

var (
	stdLinkCLSID = []byte{0xD0, 0xC9, 0xEA, 0x79, 0xF9, 0xBA, 0xCE, 0x11, 0x8C, 0x82, 0x00, 0xAA, 0x00, 0x4B, 0xA9, 0x0B}
	urlMoniker   = []byte{0xE0, 0xC9, 0xEA, 0x79, 0xF9, 0xBA, 0xCE, 0x11, 0x8C, 0x82, 0x00, 0xAA, 0x00, 0x4B, 0xA9, 0x0B}
	fileMoniker  = []byte{0x03, 0x03, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0xc0, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x46}
)

// hlString is a HyperlinkString: 32-bit count of UTF-16 units including the terminator.
func hlString(s string) []byte {
	u := append(utf16.Encode([]rune(s)), 0)
	return cat(u32(uint32(len(u))), chars(u, true))
}

func hlinkRec(l Link) []byte {
	flags := uint32(0)
	var body []byte
	if l.Display != "" {
		flags |= 0x14
		body = append(body, hlString(l.Display)...)
	}
	if l.Frame != "" {
		flags |= 0x80
		body = append(body, hlString(l.Frame)...)
	}
	if l.Target != "" {
		flags |= 0x1
		switch l.Moniker {
		case 0, 4:
			flags |= 0x2
			u := append(utf16.Encode([]rune(l.Target)), 0)
			b := chars(u, true)
			if l.Moniker == 4 {
				b = append(b, []byte{0xA5, 0xAB, 0x00, 0x00, 0xC0, 0xA4, 0x4B, 0x43, 0xBA, 0x8A, 0x6F, 0x9E, 0x2B, 0x1C, 0x33, 0x11}...) // serialGUID
				b = append(b, u32(0)...)                                                                                                 // serialVersion
				b = append(b, u32(0x2)...)                                                                                               // uriFlags
			}
			body = append(body, cat(urlMoniker, u32(uint32(len(b))), b)...)
		case 1, 3:
			ansi := append([]byte(asciiOnly(l.Target)), 0)
			body = append(body, cat(fileMoniker, u16(0), u32(uint32(len(ansi))), ansi, []byte{0xFF, 0xFF}, []byte{0xAD, 0xDE}, make([]byte, 20))...)
			if l.Moniker == 1 {
				body = append(body, u32(0)...)
			} else {
				path := chars(utf16.Encode([]rune(l.Target)), true)
				body = append(body, cat(u32(uint32(6+len(path))), u32(uint32(len(path))), u16(3), path)...)
			}
		case 2:
			flags |= 0x100
			body = append(body, hlString(l.Target)...)
		}
	}
	if l.Location != "" {
		flags |= 0x8
		body = append(body, hlString(l.Location)...)
	}
	if l.GUID {
		flags |= 0x20
		body = append(body, 0xA5, 0xAB, 0, 0, 0xC0, 0xA4, 0x4B, 0x43, 0xBA, 0x8A, 0x6F, 0x9E, 0x2B, 0x1C, 0x33, 0x11)
	}
	if l.Time {
		flags |= 0x40
		body = append(body, 0x80, 0x3E, 0xD5, 0xDE, 0xB1, 0x9D, 0x01, 0)
	}
	return cat(u16(l.R1), u16(l.R2), u16(l.C1), u16(l.C2), stdLinkCLSID, u32(2), u32(flags), body)
}

func asciiOnly(s string) string {
	b := []byte{}
	for _, r := range s {
		if r < 128 {
			b = append(b, byte(r))
		} else {
			b = append(b, '?')
		}
	}
	return string(b)
}

// JoinRecs serialises records.
func JoinRecs(recs []Rec) []byte {
	var b bytes.Buffer
	for _, r := range recs {
		b.Write(u16(int(r.Type)))
		b.Write(u16(len(r.Data)))
		b.Write(r.Data)
	}
	return b.Bytes()
}

// ---- RC4 (MS-OFFCRYPTO 2.3.6), written from the specification.

func rc4Key(pw string, salt []byte) []byte {
	u := utf16.Encode([]rune(pw))
	h0 := md5.Sum(chars(u, true))
	var inter []byte
	for i := 0; i < 16; i++ {
		inter = append(inter, h0[:5]...)
		inter = append(inter, salt...)
	}
	h1 := md5.Sum(inter)
	return h1[:5]
}

func rc4Block(key []byte, n uint32) *rc4.Cipher {
	h := md5.Sum(cat(key, u32(n)))
	c, _ := rc4.NewCipher(h[:])
	return c
}

// FilePass builds the record payload for basic RC4 encryption.
func FilePass(pw string, salt []byte, r *rand.Rand) []byte {
	key := rc4Key(pw, salt)
	ver := make([]byte, 16)
	for i := range ver {
		ver[i] = byte(r.IntN(256))
	}
	h := md5.Sum(ver)
	c := rc4Block(key, 0)
	ev := make([]byte, 16)
	eh := make([]byte, 16)
	c.XORKeyStream(ev, ver)
	c.XORKeyStream(eh, h[:])
	return cat(u16(1), u16(1), u16(1), salt, ev, eh)
}

// EncryptStream encrypts a BIFF8 stream per MS-XLS 2.2.10.
func EncryptStream(raw []byte, pw string, salt []byte) []byte {
	if pw == "" {
		pw = "VelvetSweatshop"
	}
	key := rc4Key(pw, salt)
	ks := make([]byte, len(raw))
	for i := 0; i < len(ks); i += 1024 {
		e := i + 1024
		if e > len(ks) {
			e = len(ks)
		}
		rc4Block(key, uint32(i/1024)).XORKeyStream(ks[i:e], ks[i:e])
	}
	out := append([]byte{}, raw...)
	for p := 0; p+4 <= len(raw); {
		t := le.Uint16(raw[p:])
		n := int(le.Uint16(raw[p+2:]))
		p += 4
		from := 0
		switch t {
		case 0x0809, 0x002F, 0x0194, 0x0195, 0x00E1, 0x0196, 0x0138:
			from = n
		case 0x0085:
			from = 4
		}
		for i := from; i < n && p+i < len(raw); i++ {
			out[p+i] ^= ks[p+i]
		}
		p += n
	}
	return out
}

// BuildXLS makes the whole file.
func BuildXLS(w *Workbook, o XLSOpts, c CFBOpts) ([]byte, XLSStats) {
	recs, st := BuildXLSRecords(w, o)
	stream := JoinRecs(recs)
	if o.Encrypt {
		stream = EncryptStream(stream, o.Password, o.Salt)
	} else if o.Rand != nil && o.Rand.IntN(6) == 0 { // some writers fill the stream up with zeros
		n := 1 + o.Rand.IntN(600)
		if len(stream) < 4096 && o.Rand.IntN(2) == 0 {
			n = 4096 - len(stream)
		}
		stream = append(stream, make([]byte, n)...)
		st.ZeroTail = n
	}
	ents := []CFBEntry{{Name: "Workbook", Data: stream}}
	if o.Rand != nil {
		ents = XLSEntries(stream, o.Rand)
	}
	b, _ := WriteCFB(ents, c)
	return b, st
}

// XLSEntries surrounds the workbook stream with the usual companions.
func XLSEntries(stream []byte, r *rand.Rand) []CFBEntry {
	junk := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.IntN(256))
		}
		return b
	}
	ents := []CFBEntry{{Name: "Workbook", Data: stream}}
	switch r.IntN(5) {
	case 0:
	case 4: // readable by older versions, too
		ents = []CFBEntry{{Name: "Book", Data: junk(r.IntN(6000))}, {Name: "Workbook", Data: stream}, {Name: "_SX_DB_CUR", Storage: true}, {Name: "0001", Data: junk(r.IntN(500)), Parent: 3}, {Name: "Revision Log", Data: junk(50)}, {Name: "User Names", Data: junk(30)}}
	case 1:
		ents = append(ents, CFBEntry{Name: "\x05SummaryInformation", Data: junk(4096)}, CFBEntry{Name: "\x05DocumentSummaryInformation", Data: junk(r.IntN(4096))})
	case 2:
		ents = append([]CFBEntry{{Name: "\x05SummaryInformation", Data: junk(200)}, {Name: "\x01CompObj", Data: junk(110)}}, ents...)
	case 3:
		n := r.IntN(8)
		var pre []CFBEntry
		for i := 0; i < n; i++ {
			pre = append(pre, CFBEntry{Name: "VBA" + string(rune('a'+i)), Storage: i%3 == 0, Data: junk(r.IntN(700))})
			if pre[i].Storage {
				pre[i].Data = nil
			}
		}
		ents = append(pre, ents...)
		ents = append(ents, CFBEntry{Name: "\x05SummaryInformation", Data: junk(r.IntN(5000))})
	}
	if r.IntN(6) == 0 { // an embedded workbook
		for i := range ents {
			if ents[i].Parent > 0 {
				ents[i].Parent += 3
			}
		}
		ents = append([]CFBEntry{{Name: "MBD0018D4CE", Storage: true}, {Name: "Workbook", Data: junk(r.IntN(6000)), Parent: 1}, {Name: "\x01CompObj", Data: junk(50), Parent: 1}}, ents...)
	}
	return ents
}
