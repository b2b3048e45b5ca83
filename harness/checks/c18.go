package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"strings"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xlsx"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C18", Quick: 3000, Thorough: 80000,
		Rule:      "each case writes a random workbook (XLS plain or encrypted, any sector layout, or XLSX stored or compressed), records everything the complete file returns, and then reads it cut off at many places (every place for small files in some cases; otherwise sector, record, part and tag boundaries and their neighbours, and random ones), with a workbook stream that ends early inside of a complete compound file, with a stream size that does not match its sectors, and with parts or ZIP entries that end early: every sheet must be refused or be exactly the complete one; distinct = distinct (kind, outcome, place class)",
		Assume:    []string{"files cut to less than 8 bytes are only given to their own reader"},
		MinEvents: map[string]int{"cuts": 100000, "refused_open": 50000, "refused_get": 1000, "complete_sheets": 1000, "stream_cuts": 15000, "part_cuts": 20000, "record_cuts": 5000, "sweeps": 50, "chain_cuts": 2000},
		Case:      caseC18,
	})
}

type sheetSnap struct {
	name string
	text string
}

// snapshot is everything a source returns, per sheet.
func snapshot(src grate.Source) (list string, sheets map[string]string, err error) {
	names, err := src.List()
	if err != nil {
		return "", nil, err
	}
	list = fmt.Sprintf("%q", names)
	if h, ok := src.(interface{ ListHidden() ([]string, error) }); ok {
		hn, err := h.ListHidden()
		if err != nil {
			return "", nil, err
		}
		list += fmt.Sprintf("%q", hn)
		names = append(names, hn...)
	}
	sheets = map[string]string{}
	for _, n := range names {
		col, err := src.Get(n)
		if err != nil { // an error once, an error always
			first := err
			if col, err = src.Get(n); err != nil {
				sheets[n] = "error: " + first.Error()
				continue
			}
		}
		sheets[n] = collectionText(col)
	}
	return list, sheets, nil
}

// collectionText is everything a collection returns.
func collectionText(col grate.Collection) string {
	var b strings.Builder
	fmt.Fprintln(&b, col.IsEmpty())
	rows, _ := readAll(col)
	for _, r := range rows {
		fmt.Fprintf(&b, "%d %v %q %q %q %v %v\n", r.N, r.Blank, r.S, r.T, r.F, r.V, r.SErr)
	}
	if err := col.Err(); err != nil {
		return "error: " + err.Error()
	}
	return b.String()
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) || la[i] != lb[i] {
			x := "nothing"
			if i < len(lb) {
				x = lb[i]
			}
			return fmt.Sprintf("line %d: complete %s, cut %s", i+1, q(la[i]), q(x))
		}
	}
	return fmt.Sprintf("%d lines more", len(lb)-len(la))
}

func caseC18(c *mon.Ctx) {
	r := c.Rand
	isXLS := r.IntN(2) == 0
	cells := 25
	sweep := r.IntN(25) == 0
	if sweep {
		cells = 6
	}
	w := richBook(r, isXLS, cells)
	open := grate.Open
	ext := wb.Pick(r, ".xls", ".xlsx", ".csv", "")
	if r.IntN(3) == 0 {
		open = func(f string) (grate.Source, error) { return xls.Open(f) }
		if !isXLS {
			open = func(f string) (grate.Source, error) { return xlsx.Open(f) }
		}
	}
	var full []byte
	var stream []byte
	var recs []wb.Rec
	var parts []wb.Part
	var info *wb.CFBInfo
	o := randXLSOpts(r)
	cfb := randCFBOpts(r)
	xo := wb.RandXLSXOpts(r)
	salt := randBytes(r, 16)
	var ents []wb.CFBEntry
	at := 0
	enc := false
	if isXLS {
		enc = r.IntN(5) == 0
		if enc {
			o.Encrypt, o.Salt = true, salt
		}
		recs, _ = wb.BuildXLSRecords(w, o)
		stream = wb.JoinRecs(recs)
		if enc {
			stream = wb.EncryptStream(stream, "", salt)
		}
		ents = wb.XLSEntries(stream, r)
		for i, e := range ents {
			if e.Name == "Workbook" && e.Parent == 0 {
				at = i
			}
		}
		full, info = wb.WriteCFB(ents, cfb)
	} else {
		parts, _ = wb.XLSXParts(w, xo)
		full = wb.ZipParts(parts, xo)
	}
	c.Note("xls=%v enc=%v sweep=%v %d bytes %s", isXLS, enc, sweep, len(full), describe(w))
	p := c.Dir + "/cut" + ext
	write := func(b []byte) {
		c.Must(os.WriteFile(p, b, 0o644))
	}
	write(full)
	src := mustOpen(c, p)
	list, sheets, err := snapshot(src)
	if err != nil {
		c.Fatal("base", "the complete file cannot be listed: %v", err)
	}
	src.Close()
	for n, s := range sheets {
		if strings.HasPrefix(s, "error:") {
			c.Fatal("base", "sheet %s of the complete file: %s", q(n), s)
		}
	}

	// check reads a cut file
	check := func(b []byte, f string, a ...interface{}) {
		c.Count("cuts", 1)
		write(b)
		op := open
		if len(b) < 8 {
			op = func(f string) (grate.Source, error) { return xls.Open(f) }
			if !isXLS {
				op = func(f string) (grate.Source, error) { return xlsx.Open(f) }
			}
		}
		src, err := op(p)
		if err != nil {
			c.Count("refused_open", 1)
			c.Key(isXLS, enc, fmt.Sprintf(f, a...), errClass(err), len(full)/512)
			return
		}
		defer src.Close()
		fail := func(sig, g string, x ...interface{}) {
			c.Artifact("cut"+ext, append([]byte{}, b...))
			c.Artifact("complete"+ext, full)
			c.Fatal(sig, "%s (%d of %d bytes): %s", fmt.Sprintf(f, a...), len(b), len(full), fmt.Sprintf(g, x...))
		}
		l2, s2, err := snapshot(src)
		if err != nil {
			c.Count("refused_list", 1)
			return
		}
		if l2 != list {
			fail("list", "the sheets are %s, those of the complete file %s", l2, list)
		}
		bad := 0
		for n, s := range s2 {
			if strings.HasPrefix(s, "error:") {
				c.Count("refused_get", 1)
				bad++
				continue
			}
			if s != sheets[n] {
				fail("sheet", "sheet %s is read without an error, but differs: %s", q(n), firstDiff(sheets[n], s))
			}
			c.Count("complete_sheets", 1)
		}
		c.Key(isXLS, enc, fmt.Sprintf(f, a...), bad, len(w.Sheets), len(list))
	}

	if sweep {
		c.Count("sweeps", 1)
		step := 1 + len(full)/6000
		for n := r.IntN(step); n < len(full); n += step {
			check(full[:n], "file cut")
		}
	}
	for i := 0; i < 15; i++ {
		n := r.IntN(len(full))
		switch r.IntN(4) {
		case 0:
			n = len(full) - 1 - r.IntN(min(len(full), 600))
		case 1:
			n = n/512*512 + r.IntN(3) - 1
		case 2:
			n = r.IntN(min(len(full), 1200))
		}
		if n >= 0 && n < len(full) {
			check(full[:n], "file cut")
		}
	}
	if isXLS {
		offs := []int{0}
		for _, rc := range recs {
			offs = append(offs, offs[len(offs)-1]+4+len(rc.Data))
		}
		cutStream := func(n int, f string, a ...interface{}) {
			es := append([]wb.CFBEntry{}, ents...)
			es[at].Data = stream[:n]
			b, _ := wb.WriteCFB(es, wb.CFBOpts{V4: cfb.V4})
			c.Count("stream_cuts", 1)
			check(b, f, a...)
		}
		for i := 0; i < 14; i++ {
			if i%2 == 0 {
				k := r.IntN(len(recs))
				for n := 0; n < 5 && recs[k].Type != 0x000A; n++ { // prefer the ends of substreams
					k = r.IntN(len(recs))
				}
				k += r.IntN(2)
				c.Count("record_cuts", 1)
				cutStream(offs[k], "stream cut between records")
				continue
			}
			cutStream(r.IntN(len(stream)), "stream cut")
		}
		// sizes in the directory which do not match
		off := info.DirEntryOff[at+1] + 0x78
		for i := 0; i < 6; i++ {
			b := append([]byte{}, full...)
			n := r.IntN(len(stream))
			if r.IntN(2) == 0 {
				n = offs[r.IntN(len(offs)-1)]
			}
			if r.IntN(4) == 0 {
				n = len(stream) + 1 + r.IntN(3*info.SectorSize)
				if r.IntN(2) == 0 && (n-1)/info.SectorSize == (len(stream)-1)/info.SectorSize {
					continue
				}
			}
			if (n < 4096) != (len(stream) < 4096) {
				continue
			}
			binary.LittleEndian.PutUint32(b[off:], uint32(n))
			c.Count("size_cuts", 1)
			if n < len(stream) {
				check(b, "stream size reduced")
			} else {
				check(b, "stream size enlarged")
			}
		}
		// a chain of sectors ends early
		per := info.SectorSize / 4
		chainCut := func(tab, chain []int, what string) {
			if len(chain) < 2 {
				return
			}
			for n := 0; n < 2; n++ {
				s := chain[r.IntN(len(chain)-1)]
				if s/per >= len(tab) {
					return
				}
				b := append([]byte{}, full...)
				fo := (tab[s/per]+1)*info.SectorSize + s%per*4
				binary.LittleEndian.PutUint32(b[fo:], wb.Pick[uint32](r, 0xFFFFFFFE, 0xFFFFFFFE, 0xFFFFFFFF))
				c.Count("chain_cuts", 1)
				check(b, "%s cut", what)
			}
		}
		chainCut(info.FATSectors, info.StreamSecs[at], "sector chain")
		chainCut(info.MiniFAT, info.MiniSecs[at], "mini sector chain")
		if len(info.MiniSecs[at]) > 0 {
			// the stream that holds the small streams: a chain or a size that stops before
			// the last of the workbook's mini sectors
			last := 0
			for _, m := range info.MiniSecs[at] {
				last = max(last, m)
			}
			if k := last * 64 / info.SectorSize; k > 0 {
				chainCut(info.FATSectors, info.MiniStream[:k+1], "mini stream chain")
			}
			b := append([]byte{}, full...)
			ro := info.DirEntryOff[0] + 0x78
			binary.LittleEndian.PutUint32(b[ro:], uint32(r.IntN(last*64+1)))
			c.Count("size_cuts", 1)
			check(b, "mini stream size reduced")
		}
		return
	}
	for i := 0; i < 24; i++ {
		k := r.IntN(len(parts))
		for n := 0; n < 4 && !bytes.Contains(parts[k].Data, []byte("sheetData")); n++ {
			k = r.IntN(len(parts))
		}
		d := parts[k].Data
		// styles, themes and relationships of other parts do not hold a sheet
		holds := bytes.Contains(d, []byte("sheetData")) || bytes.Contains(d, []byte("<si")) || bytes.Contains(d, []byte(":si>")) || bytes.Contains(d, []byte("sheets>"))
		if !holds || len(d) == 0 {
			continue
		}
		n := r.IntN(len(d))
		switch r.IntN(4) {
		case 0: // after a tag
			if j := bytes.LastIndexByte(d[:n], '>'); j >= 0 {
				n = j + 1
			}
		case 1:
			n = len(d) - 1 - r.IntN(min(len(d), 60))
		case 2:
			n = bytes.LastIndexByte(d, '<')
		}
		if n < 0 || len(bytes.TrimSpace(d[n:])) == 0 {
			continue
		}
		m := cloneParts(parts)
		m[k].Data = d[:n]
		c.Count("part_cuts", 1)
		check(wb.ZipParts(m, xo), "part cut")
	}
	// ZIP entries that declare another size
	for i := 0; i < 8; i++ {
		b := append([]byte{}, full...)
		p := bytes.Index(b, []byte("PK\x01\x02"))
		var at []int
		for p >= 0 && p+46 < len(b) && bytes.HasPrefix(b[p:], []byte("PK\x01\x02")) {
			at = append(at, p)
			p += 46 + int(getField(b, p+28, 2)+getField(b, p+30, 2)+getField(b, p+32, 2))
		}
		if len(at) == 0 {
			break
		}
		a := at[r.IntN(len(at))]
		f := wb.Pick(r, 20, 24, 24)
		v := getField(b, a+f, 4)
		if v == 0 {
			continue
		}
		setField(b, a+f, 4, r.Uint64N(v))
		if r.IntN(3) == 0 {
			setField(b, a+20, 4, getField(b, a+24, 4))
		}
		c.Count("part_cuts", 1)
		check(b, "entry size reduced")
	}
}
