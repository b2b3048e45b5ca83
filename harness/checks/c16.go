package checks

import (
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xls"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C16", Quick: 3000, Thorough: 70000, CPUSec: 40, AllocMB: 3000,
		Rule:      "each case writes a random workbook with everything in it and makes malformed files of it: cut off; random byte, field and block changes; every header field, FAT, mini FAT and DIFAT entries (loops, out of range), and every field of directory entries set to hostile values; every offset of one record set to every hostile value of 1, 2 and 4 bytes; records dropped, repeated, moved, inserted, resized, retyped, with and without corrected sheet positions; the same below RC4 encryption; and size bombs (counts, nested substreams, merged ranges, sheets, formats). Opening, listing, getting and reading is watched for panics, CPU time and bytes allocated (against file size and declared area); distinct = distinct (mutation, outcome)",
		Fuzz:      []string{"FuzzStream", "FuzzCFB"},
		Assume:    []string{"up to 2 million cells per sheet are read back", "memory limits are only tight where the change cannot enlarge the declared sheet area"},
		MinEvents: map[string]int{"files": 150000, "open_errors": 30000, "get_errors": 5000, "opened": 50000, "rows": 200000},
		Case:      caseC16,
	})
}

// areaRecs are the records which declare the area of a sheet.
func areaRec(t uint16) bool {
	switch t {
	case 0x0200, 0x0203, 0x027E, 0x00BD, 0x00FD, 0x0205, 0x0006, 0x0201, 0x00BE, 0x00E5, 0x01B8, 0x0208, 0x0809, 0x000A, 0x0085, 0x0204, 0x00D6:
		return true
	}
	return false
}

// fixPositions makes the BoundSheet records point at the substreams again.
func fixPositions(recs []wb.Rec) {
	var starts []uint32
	p, depth := uint32(0), 0
	for _, rc := range recs {
		switch rc.Type {
		case 0x0809:
			if depth == 0 {
				starts = append(starts, p)
			}
			depth++
		case 0x000A:
			if depth > 0 {
				depth--
			}
		}
		p += 4 + uint32(len(rc.Data))
	}
	k := 1
	for i := range recs {
		if recs[i].Type == 0x0085 && len(recs[i].Data) >= 4 && k < len(starts) {
			d := append([]byte{}, recs[i].Data...)
			binary.LittleEndian.PutUint32(d, starts[k])
			recs[i].Data = d
			k++
		}
	}
}

func cloneRecs(recs []wb.Rec) []wb.Rec {
	return append([]wb.Rec{}, recs...)
}

func bookArea(w *wb.Workbook) int {
	n := 0
	for i := range w.Sheets {
		s := &w.Sheets[i]
		er, ec := s.Extent()
		dr, dc := s.Dim()
		er, ec = max(er, dr), max(ec, dc)
		for _, m := range s.Merges {
			er, ec = max(er, m.R2+1), max(ec, m.C2+1)
		}
		for _, l := range s.Links {
			er, ec = max(er, l.R2+1), max(ec, l.C2+1)
		}
		n += (er + 1) * (ec + 1)
	}
	return n
}

func caseC16(c *mon.Ctx) {
	r := c.Rand
	w := richBook(r, true, 14)
	o := randXLSOpts(r)
	area := bookArea(w)
	open := grate.Open
	if r.IntN(3) == 0 {
		open = func(f string) (grate.Source, error) { return xls.Open(f) }
	}
	run := func(b []byte, what string, area int) usage {
		return hostile(c, ".xls", b, what, area, open)
	}
	recs, _ := wb.BuildXLSRecords(w, o)
	class := r.IntN(13)
	enc := class == 7 || class == 8 && r.IntN(3) == 0
	salt := randBytes(r, 16)
	if enc {
		o.Encrypt, o.Salt = true, salt
		recs, _ = wb.BuildXLSRecords(w, o)
	}
	cfb := randCFBOpts(r)
	pack := func(stream []byte) ([]byte, *wb.CFBInfo) {
		return wb.WriteCFB([]wb.CFBEntry{{Name: "Workbook", Data: stream}}, cfb)
	}
	build := func(recs []wb.Rec) []byte {
		s := wb.JoinRecs(recs)
		if enc {
			s = wb.EncryptStream(s, "", salt)
		}
		b, _ := pack(s)
		return b
	}
	base := build(recs)
	c.Note("class %d enc=%v %s", class, enc, describe(w))
	c.Count(fmt.Sprint("class_", class), 1)
	if u := run(base, "base", area); strings.HasPrefix(u.outcome, "open:") || strings.Contains(u.outcome, "get:") {
		c.Fatal("base", "the well-formed file is not read: %s", u.outcome)
	}
	switch class {
	case 0: // anything anywhere
		for i := 0; i < 60; i++ {
			run(mutateRaw(r, base), "raw", -1)
		}
	case 1: // cut off
		for i := 0; i < 60; i++ {
			n := r.IntN(len(base))
			if i < 20 {
				n = r.IntN(1600) % len(base)
			}
			run(base[:n], "cut", area)
		}
	case 2: // header fields
		for _, f := range [][2]int{{0x18, 2}, {0x1A, 2}, {0x1C, 2}, {0x1E, 2}, {0x20, 2}, {0x28, 4}, {0x2C, 4}, {0x30, 4}, {0x34, 4}, {0x38, 4}, {0x3C, 4}, {0x40, 4}, {0x44, 4}, {0x48, 4}, {0x4C, 4}, {0x50, 4}, {0x54, 4}} {
			for i := 0; i < 12; i++ {
				b := append([]byte{}, base...)
				v := hostileValue(r, getField(b, f[0], f[1]), f[1])
				if r.IntN(3) == 0 {
					v = uint64(r.IntN(len(base)/512 + 2))
				}
				setField(b, f[0], f[1], v)
				if r.IntN(3) == 0 {
					setField(b, 0x44, 4, uint64(r.IntN(len(base)/512+2)))
					setField(b, 0x48, 4, hostileValue(r, 1, 4))
				}
				run(b, fmt.Sprintf("header %#x", f[0]), area)
			}
		}
	case 3, 4: // allocation tables
		s := wb.JoinRecs(recs)
		if r.IntN(2) == 0 {
			cfb.ExtraFAT = wb.Pick(r, 0, 1, 110)
		}
		ents := wb.XLSEntries(s, r)
		base, info := wb.WriteCFB(ents, cfb)
		secs := append(append(append([]int{}, info.FATSectors...), info.DIFSectors...), info.MiniFAT...)
		if class == 4 {
			secs = info.DirSectors
		}
		for i := 0; i < 80; i++ {
			b := append([]byte{}, base...)
			for n := 1 + r.IntN(3); n > 0; n-- {
				if class == 4 {
					off := info.DirEntryOff[r.IntN(len(info.DirEntryOff))]
					f := wb.Pick(r, [2]int{0x40, 2}, [2]int{0x42, 1}, [2]int{0x43, 1}, [2]int{0x44, 4}, [2]int{0x48, 4}, [2]int{0x4C, 4}, [2]int{0x74, 4}, [2]int{0x74, 4}, [2]int{0x78, 4}, [2]int{0x78, 4}, [2]int{0x7C, 4}, [2]int{0x78, 8}, [2]int{2 * r.IntN(32), 2})
					v := hostileValue(r, getField(b, off+f[0], f[1]), f[1])
					if f[0] == 0x78 && r.IntN(3) == 0 {
						v = uint64(r.IntN(2 * len(b)))
					}
					if f[0] == 0x74 && r.IntN(3) == 0 {
						v = uint64(r.IntN(info.NumSectors + 2))
					}
					setField(b, off+f[0], f[1], v)
					continue
				}
				if len(secs) == 0 {
					break
				}
				sec := secs[r.IntN(len(secs))]
				off := (sec+1)*info.SectorSize + 4*r.IntN(info.SectorSize/4)
				if r.IntN(2) == 0 { // near the used entries
					off = (sec+1)*info.SectorSize + 4*r.IntN(min(info.SectorSize/4, info.NumSectors+1))
				}
				v := hostileValue(r, getField(b, off, 4), 4)
				if r.IntN(2) == 0 {
					v = uint64(r.IntN(info.NumSectors + 2))
				}
				setField(b, off, 4, v)
			}
			run(b, fmt.Sprintf("table %d", class), -1)
		}
	case 5: // every field of one record
		i := r.IntN(len(recs))
		d := recs[i].Data
		if len(d) == 0 {
			break
		}
		a := area
		if areaRec(recs[i].Type) {
			a = -1
		}
		what := fmt.Sprintf("record %04x", recs[i].Type)
		offs := r.Perm(len(d))
		if len(d) <= 40 {
			for k := range offs {
				offs[k] = k
			}
		} else {
			offs = offs[:40]
			for k := 0; k < 16; k++ {
				offs[k] = k
			}
		}
		for _, off := range offs {
			for _, wd := range []int{1, 2, 4} {
				vals := [][]uint64{hostile1, hostile2, nil, hostile4}[wd-1]
				for _, v := range vals {
					if r.IntN(3) > 0 {
						continue
					}
					m := cloneRecs(recs)
					m[i].Data = append([]byte{}, d...)
					setField(m[i].Data, off, wd, v)
					run(build(m), fmt.Sprintf("%s+%d", what, min(off, 40)), a)
				}
			}
		}
	case 6, 7: // records as a whole
		for i := 0; i < 60; i++ {
			m, what, neutral := mutateRecs(r, cloneRecs(recs), 1)
			a := -1
			if neutral {
				a = area
			}
			run(build(m), what, a)
		}
	case 8: // several changes at once
		for i := 0; i < 60; i++ {
			m, _, _ := mutateRecs(r, cloneRecs(recs), 2+r.IntN(6))
			if r.IntN(2) == 0 {
				fixPositions(m)
			}
			run(build(m), "several", -1)
		}
	case 9: // record sizes in the joined stream
		s := wb.JoinRecs(recs)
		for i := 0; i < 60; i++ {
			k, off := r.IntN(len(recs)), 0
			for _, rc := range recs[:k] {
				off += 4 + len(rc.Data)
			}
			t := append([]byte{}, s...)
			v := hostileValue(r, uint64(len(recs[k].Data)), 2)
			if r.IntN(3) == 0 {
				v = uint64(len(s) - off - 4 + r.IntN(9) - 4)
			}
			setField(t, off+2, 2, v)
			b, _ := pack(t)
			run(b, fmt.Sprintf("size of %04x", recs[k].Type), -1)
		}
	case 10: // the stream, cut off or changed anywhere
		s := wb.JoinRecs(recs)
		for i := 0; i < 60; i++ {
			t := s[:r.IntN(len(s))]
			a, what := area, "stream cut"
			if i%2 == 0 {
				t, a, what = mutateRaw(r, s), -1, "stream changed"
			}
			b, _ := pack(t)
			run(b, what, a)
		}
	case 12:
		for i := 0; i < 4; i++ {
			w := soupBook(r)
			b, _ := wb.BuildXLS(w, randXLSOpts(r), cfb)
			run(b, "format codes", bookArea(w))
			c.Count("format_codes", len(w.Fmts))
		}
	case 11:
		bombs(c, r, w, recs, build, run)
	}
}

var recTypes = []uint16{0x0809, 0x000A, 0x0085, 0x00FC, 0x003C, 0x0200, 0x0203, 0x027E, 0x00BD, 0x00FD, 0x0205, 0x0006, 0x0207, 0x0201, 0x00BE, 0x00E5, 0x01B8, 0x0208, 0x002F, 0x041E, 0x00E0, 0x0022, 0x0042, 0x0018, 0x00FF, 0x0031, 0x023E, 0x0204, 0x0012, 0x0086, 0x005B, 0x0221, 0x04BC, 0x0236}

// mutateRecs makes n changes; neutral: none of them can enlarge the declared area.
func mutateRecs(r *rand.Rand, recs []wb.Rec, n int) (_ []wb.Rec, what string, neutral bool) {
	neutral = true
	fix := r.IntN(3) > 0
	for ; n > 0; n-- {
		i := r.IntN(len(recs))
		if r.IntN(2) == 0 { // prefer those with meaning
			for k := 0; k < 10 && (recs[i].Tag == "noise" || recs[i].Tag == "pad"); k++ {
				i = r.IntN(len(recs))
			}
		}
		d := append([]byte{}, recs[i].Data...)
		t := recs[i].Type
		kind := r.IntN(10)
		neutral = neutral && !areaRec(t)
		what = fmt.Sprintf("%d of %04x fix=%v", kind, t, fix)
		switch kind {
		case 0:
			recs = append(recs[:i:i], recs[i+1:]...)
		case 1:
			for k := 1 + r.IntN(4); k > 0; k-- {
				recs = append(recs[:i+1:i+1], recs[i:]...)
			}
		case 2:
			j := r.IntN(len(recs))
			recs[i], recs[j] = recs[j], recs[i]
			neutral = false
		case 3:
			recs[i].Data = d[:r.IntN(len(d)+1)]
		case 4:
			if len(d) > 0 {
				recs[i].Data = d[:len(d)-1-r.IntN(min(len(d), 4))]
			}
		case 5:
			recs[i].Data = append(d, randBytes(r, 1+r.IntN(wb.Pick(r, 4, 100, 9000)))...)
		case 6:
			neutral = false
			rc := wb.Rec{Type: recTypes[r.IntN(len(recTypes))], Data: randBytes(r, r.IntN(60))}
			if r.IntN(3) == 0 {
				rc.Data = append([]byte{}, recs[r.IntN(len(recs))].Data...)
			}
			recs = append(recs[:i:i], append([]wb.Rec{rc}, recs[i:]...)...)
			what = fmt.Sprintf("insert %04x fix=%v", rc.Type, fix)
		case 7:
			recs[i].Type = recTypes[r.IntN(len(recTypes))]
			neutral = neutral && !areaRec(recs[i].Type)
		case 8, 9:
			for k := 1 + r.IntN(3); k > 0 && len(d) > 0; k-- {
				w := wb.Pick(r, 1, 2, 4, 8)
				off := r.IntN(len(d))
				setField(d, off, w, hostileValue(r, getField(d, off, w), w))
			}
			recs[i].Data = d
		}
		if len(recs) == 0 {
			break
		}
	}
	if fix {
		fixPositions(recs)
	}
	for i := range recs {
		if len(recs[i].Data) > 65535 {
			recs[i].Data = recs[i].Data[:65535]
		}
	}
	return recs, what, neutral
}

// bombs are small files which ask for a lot.
func bombs(c *mon.Ctx, r *rand.Rand, w *wb.Workbook, recs []wb.Rec, build func([]wb.Rec) []byte, run func([]byte, string, int) usage) {
	u16, u32 := binary.LittleEndian.AppendUint16, binary.LittleEndian.AppendUint32
	find := func(t uint16) int {
		for i, rc := range recs {
			if rc.Type == t {
				return i
			}
		}
		return -1
	}
	insert := func(i int, xs ...wb.Rec) []wb.Rec {
		m := append(cloneRecs(recs[:i]), append(xs, recs[i:]...)...)
		fixPositions(m)
		return m
	}
	bof := recs[0]
	eof := wb.Rec{Type: 0x000A}
	dim := find(0x0200) // of the first sheet
	area := bookArea(w)
	const full = 65536 * 256
	for i := 0; i < 6; i++ {
		switch r.IntN(13) {
		case 0: // nested substreams
			n := wb.Pick(r, 10, 1000, 20000)
			var xs []wb.Rec
			for k := 0; k < n; k++ {
				xs = append(xs, bof)
			}
			if r.IntN(2) == 0 {
				for k := 0; k < n; k++ {
					xs = append(xs, eof)
				}
			}
			at := wb.Pick(r, 1, dim, dim+1, len(recs)-1, len(recs))
			run(build(insert(at, xs...)), fmt.Sprint("nested ", n), area)
		case 1: // sheet area
			m := cloneRecs(recs)
			var d []byte
			d = u32(u32(nil, 0), wb.Pick[uint32](r, 65536, 65535, 0x7FFFFFFF, 0xFFFFFFFF, 0x10000000))
			d = u16(u16(u16(d, 0), wb.Pick[uint16](r, 256, 255, 0x7FFF, 0xFFFF)), 0)
			m[dim].Data = d
			run(build(m), "dimension", area+full)
		case 2: // the same area for many sheets
			n := wb.Pick(r, 50, 500)
			b := find(0x0085)
			var xs []wb.Rec
			for k := 0; k < n; k++ {
				d := append([]byte{}, recs[b].Data...)
				d = append(append(d[:6:6], 3, 0), fmt.Sprintf("%03d", k)...)
				xs = append(xs, wb.Rec{Type: 0x0085, Data: d})
			}
			m := insert(b+1, xs...)
			// all of them point at the first sheet
			pos := uint32(0)
			depth := 0
			for _, rc := range m {
				if rc.Type == 0x0809 && depth == 0 && pos > 0 {
					break
				}
				if rc.Type == 0x0809 {
					depth++
				} else if rc.Type == 0x000A {
					depth--
				}
				pos += 4 + uint32(len(rc.Data))
			}
			for k := range m {
				if m[k].Type == 0x0085 {
					m[k].Data = append([]byte{}, m[k].Data...)
					binary.LittleEndian.PutUint32(m[k].Data, pos)
				}
			}
			run(build(m), "many sheets", area*(n+1))
		case 3: // string counts
			s := find(0x00FC)
			if s < 0 {
				continue
			}
			m := cloneRecs(recs)
			m[s].Data = append([]byte{}, m[s].Data...)
			binary.LittleEndian.PutUint32(m[s].Data[r.IntN(2)*4:], wb.Pick[uint32](r, 0x7FFFFFFF, 0xFFFFFFFF, 0x10000000, 1<<20, 0x80000000))
			if r.IntN(3) == 0 {
				m[s].Data = m[s].Data[:8]
			}
			fixPositions(m)
			run(build(m), "string count", area)
		case 4: // a huge string
			d := u32(u32(nil, 1), 1)
			d = append(u16(d, 0xFFFF), wb.Pick[byte](r, 0, 1, 4, 8, 0xC, 0xD, 0xFF))
			d = append(d, randBytes(r, 200)...)
			if s := find(0x00FC); s >= 0 {
				m := cloneRecs(recs)
				m[s].Data = d
				fixPositions(m)
				run(build(m), "huge string", area)
			} else {
				run(build(insert(find(0x0085), wb.Rec{Type: 0x00FC, Data: d})), "huge string", area)
			}
		case 5, 6: // merged ranges
			n := wb.Pick(r, 1, 20, 1027, 8000)
			var xs []wb.Rec
			for n > 0 {
				k := min(n, 1026)
				d := u16(nil, uint16(k))
				if r.IntN(8) == 0 {
					d = u16(nil, 0xFFFF)
				}
				for j := 0; j < k; j++ {
					d = u16(u16(u16(u16(d, uint16(r.IntN(3))), wb.Pick[uint16](r, 65535, 65534, uint16(r.IntN(65536)), 3)), uint16(r.IntN(3))), wb.Pick[uint16](r, 255, 254, 0xFFFF, uint16(r.IntN(256))))
				}
				xs = append(xs, wb.Rec{Type: 0x00E5, Data: d})
				n -= k
			}
			run(build(insert(dim+1, xs...)), "merged ranges", 5*area+100000)
		case 7: // links over everything
			var xs []wb.Rec
			for n := wb.Pick(r, 1, 50, 500); n > 0; n-- {
				d := u16(u16(u16(u16(nil, 0), 65535), 0), 255)
				src := find(0x01B8)
				if src >= 0 {
					d = append(d, recs[src].Data[8:]...)
				} else {
					d = append(d, randBytes(r, 60)...)
				}
				xs = append(xs, wb.Rec{Type: 0x01B8, Data: d})
			}
			run(build(insert(dim+1, xs...)), "links", 5*area+100000)
		case 8: // far cells
			var xs []wb.Rec
			for n := wb.Pick(r, 1, 100, 2000); n > 0; n-- {
				d := append(u16(u16(u16(nil, uint16(65535-r.IntN(9))), wb.Pick[uint16](r, 0, 255, 256, 0x7FFF, 0xFFFF, uint16(r.IntN(300)))), uint16(r.IntN(40))), randBytes(r, 8)...)
				xs = append(xs, wb.Rec{Type: wb.Pick[uint16](r, 0x0203, 0x027E, 0x00FD, 0x0205, 0x0006, 0x0201, 0x00BE, 0x00BD), Data: d})
			}
			run(build(insert(dim+1, xs...)), "far cells", area+2*full)
		case 9: // formats
			var xs []wb.Rec
			codes := []string{strings.Repeat("0", 200), strings.Repeat("#,", 120), strings.Repeat("?/", 100), strings.Repeat("[", 200), strings.Repeat("\"", 199), strings.Repeat("\\", 199), strings.Repeat(";", 200), strings.Repeat("%", 200), strings.Repeat("E+0", 80), strings.Repeat("y", 255), strings.Repeat("[h]", 80), strings.Repeat("General", 30), "0." + strings.Repeat("0", 250), strings.Repeat("AM/PM", 50), strings.Repeat("_", 199), strings.Repeat("*", 199), "[", "]", "[$-", "[<", "E", "E+", "/", "?/", "/?", "0/0", "#/0", ".", ",", "@@@", "", "[h", "m", "\\", "\"", "_", "*", "0.0.0", "E+E+", randRunes(r, r.IntN(40))}
			for id := 164; id < 164+len(w.Fmts)+60; id++ {
				u := []rune(codes[r.IntN(len(codes))])
				d := u16(u16(nil, uint16(id)), uint16(len(u)))
				d = append(d, 1)
				for _, x := range u {
					d = u16(d, uint16(x))
				}
				xs = append(xs, wb.Rec{Type: 0x041E, Data: d})
			}
			m := insert(find(0x0085), xs...)
			// the cell formats use them
			for k := range m {
				if m[k].Type == 0x00E0 && len(m[k].Data) >= 4 {
					m[k].Data = append([]byte{}, m[k].Data...)
					binary.LittleEndian.PutUint16(m[k].Data[2:], uint16(164+r.IntN(60)))
				}
			}
			run(build(m), "formats", area)
		case 10: // continue records without end
			var xs []wb.Rec
			for n := wb.Pick(r, 10, 1000, 5000); n > 0; n-- {
				xs = append(xs, wb.Rec{Type: 0x003C, Data: randBytes(r, r.IntN(3))})
			}
			run(build(insert(1+r.IntN(len(recs)-1), xs...)), "continue", area)
		case 11: // hyperlink string lengths
			h := find(0x01B8)
			if h < 0 {
				continue
			}
			m := cloneRecs(recs)
			d := append([]byte{}, m[h].Data...)
			for k := 0; k < 3 && len(d) > 36; k++ {
				off := 28 + r.IntN(len(d)-32)
				setField(d, off, 4, wb.Pick[uint64](r, 0x7FFFFFFF, 0xFFFFFFFF, 0x3FFFFFFF, 0x80000000, 0x40000000, 1<<24))
			}
			m[h].Data = d
			run(build(m), "link lengths", -1)
		case 12: // numbers that no format expects
			m := cloneRecs(recs)
			for k := range m {
				if m[k].Type == 0x0203 && len(m[k].Data) == 14 {
					m[k].Data = append([]byte{}, m[k].Data...)
					binary.LittleEndian.PutUint64(m[k].Data[6:], wb.Pick[uint64](r, 0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000001, 0x7FEFFFFFFFFFFFFF, 0xFFEFFFFFFFFFFFFF, 1, 0x8000000000000000, 0x43E0000000000000, 0xC3E0000000000000, r.Uint64()))
				}
			}
			run(build(m), "numbers", area)
		}
	}
}
