package checks

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"sort"
	"strings"
	"unicode/utf16"

	"github.com/pbnjay/grate/xls/cfb"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C11", Quick: 40000, Thorough: 1500000,
		Rule:      "each case writes a compound file (512 or 4096 byte sectors, permuted or ordered sectors with free ones in between, 1-150 directory entries with unused slots and nested storages, stream sizes around every boundary: 0, 1, multiples of 64, 512 and 4096, the 4096 byte cutoff, and files with more FAT sectors than the header holds) and compares List and the bytes of every stream, read in several ways, with what was written; distinct = distinct (sector size, layout, stream sizes) tuples",
		Assume:    []string{"of two streams with one name either may be returned if neither is in the root storage", "sectors at the end of the file are complete"},
		MinEvents: map[string]int{"streams": 20000, "mini_streams": 8000, "regular_streams": 4000, "empty_streams": 300, "v4": 1000, "shuffled": 2000, "difat": 40, "many_difat": 5, "boundary": 5000, "seeks": 10000, "nested": 1000, "unused_slots": 1000, "same_name": 200},
		Case:      caseC11,
	})
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	i := 0
	for ; i+8 <= n; i += 8 {
		v := r.Uint64()
		for k := 0; k < 8; k++ {
			b[i+k] = byte(v >> (8 * k))
		}
	}
	for ; i < n; i++ {
		b[i] = byte(r.IntN(256))
	}
	return b
}

func streamName(r *rand.Rand, used map[string]bool) string {
	for {
		var s string
		switch r.IntN(5) {
		case 0:
			s = wb.Pick(r, "Workbook", "Book", "\x05SummaryInformation", "\x01CompObj", "a", "A", "_VBA_PROJECT", "Ctls")
		case 1:
			s = randRunes(r, 1+r.IntN(31))
		case 2:
			s = strings.Repeat("x", 30) + string(rune('0'+r.IntN(10)))
		default:
			s = fmt.Sprintf("Stream %d", r.IntN(1000))
		}
		s = strings.Map(func(c rune) rune {
			if strings.ContainsRune("/\\:!", c) {
				return '_'
			}
			return c
		}, s)
		for len(utf16.Encode([]rune(s))) > 31 {
			rs := []rune(s)
			s = string(rs[:len(rs)-1])
		}
		if s == "" || used[s] {
			continue
		}
		used[s] = true
		return s
	}
}

func streamSize(r *rand.Rand) int {
	switch r.IntN(12) {
	case 0:
		return wb.Pick(r, 0, 1, 63, 64, 65, 128, 127, 129)
	case 1:
		return 64 * (1 + r.IntN(63))
	case 2:
		return 4096 + r.IntN(3) - 1
	case 3:
		return 512 * (8 + r.IntN(40))
	case 4:
		return 512*(8+r.IntN(40)) + r.IntN(3) - 1
	case 5:
		return 4096*(1+r.IntN(8)) + r.IntN(3) - 1
	case 6:
		return 4096 * (1 + r.IntN(8))
	case 7, 8:
		return 1 + r.IntN(4095)
	case 9:
		return 4096 + r.IntN(60000)
	default:
		return 1 + r.IntN(600)
	}
}

func caseC11(c *mon.Ctx) {
	r := c.Rand
	used := map[string]bool{}
	n := 1 + r.IntN(8)
	switch r.IntN(10) {
	case 0:
		n = 1 + r.IntN(150)
	case 1:
		n = 3 + 4*r.IntN(8) // the root and these fill directory sectors exactly
	}
	var ents []wb.CFBEntry
	var storages []int
	want := map[string][][]byte{}
	inRoot := map[string][]byte{}
	o := wb.CFBOpts{Rand: r, V4: r.IntN(4) == 0, Shuffle: r.IntN(2) == 0, Holes: wb.Pick(r, 0, 0, 1, 5, 40), HighSize: r.IntN(4) == 0, Tree: r.IntN(2) == 0}
	bigStream := -1
	switch r.IntN(120) {
	case 0: // more FAT sectors than the header lists, all of them needed
		if !o.V4 {
			bigStream = 7200000 + r.IntN(1000000)
		}
	case 1:
		o.V4, o.Shuffle, o.Holes = false, true, 15000+r.IntN(2000)
	case 2:
		o.ExtraFAT = 100 + r.IntN(20)
	case 3:
		if r.IntN(3) == 0 {
			o.V4, o.Shuffle, o.Holes = false, true, 31000+r.IntN(4000)
		}
	case 4:
		switch r.IntN(20) {
		case 0: // more mini sectors than two bytes count
			n = 1340 + r.IntN(40)
		case 1: // more sectors than two bytes count
			if !o.V4 {
				bigStream = 65536<<9 + r.IntN(1<<20)
				c.Count("over_65535_sectors", 1)
			}
		}
	}
	for i := 0; i < n; i++ {
		e := wb.CFBEntry{}
		if len(storages) > 0 && r.IntN(3) == 0 {
			e.Parent = storages[r.IntN(len(storages))]
		}
		switch {
		case r.IntN(12) == 0 && i+1 < n:
			e.Storage = true
			e.Name = streamName(r, used)
			storages = append(storages, i+1)
		case r.IntN(12) == 0 && i+1 < n:
			e = wb.CFBEntry{Unused: true}
			c.Count("unused_slots", 1)
		default:
			e.Name = streamName(r, used)
			if r.IntN(10) == 0 && len(want) > 0 { // the name of another stream
				for k := range ents {
					taken := false
					for _, x := range ents {
						taken = taken || x.Parent == e.Parent && x.Name == ents[k].Name
					}
					if !ents[k].Storage && !ents[k].Unused && !taken {
						e.Name = ents[k].Name
					}
				}
			}
			size := streamSize(r)
			if n > 1000 {
				size = 4030 + r.IntN(64)
			} else if n > 40 {
				size %= 9000
			}
			if bigStream >= 0 {
				size, bigStream = bigStream, -1
			}
			e.Data = randBytes(r, size)
			want[e.Name] = append(want[e.Name], e.Data)
			if e.Parent > 0 {
				c.Count("nested", 1)
			} else {
				inRoot[e.Name] = e.Data
			}
		}
		ents = append(ents, e)
	}
	b, info := wb.WriteCFB(ents, o)
	if o.V4 {
		c.Count("v4", 1)
	}
	if o.Shuffle {
		c.Count("shuffled", 1)
	}
	if len(info.MiniFAT)*(map[bool]int{false: 512, true: 4096}[o.V4]/4) > 65536+8 {
		c.Count("over_65535_mini", 1)
	}
	if len(info.DIFSectors) > 0 && len(info.FATSectors) > 109 {
		c.Count("difat", 1)
		if len(info.DIFSectors) > 1 {
			c.Count("many_difat", 1)
		}
	}
	var sizes []int
	for _, e := range ents {
		sizes = append(sizes, len(e.Data))
	}
	c.Key(o.V4, o.Shuffle, o.Holes, len(info.FATSectors), sizes)
	c.Note("v4=%v shuffle=%v holes=%d fat=%d dif=%d minifat=%d dir=%d entries=%d", o.V4, o.Shuffle, o.Holes, len(info.FATSectors), len(info.DIFSectors), len(info.MiniFAT), len(info.DirSectors), len(ents))
	if len(b) < 1<<20 {
		c.Artifact("doc.cfb", b)
	}
	doc, err := cfb.Open(c.File(".doc", b))
	if err != nil {
		c.Fatal("open", "a well-formed compound file does not open: %v", err)
	}
	list, err := doc.List()
	if err != nil {
		c.Fatal("list", "List: %v", err)
	}
	var names []string
	for k, ds := range want {
		for range ds {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	got := append([]string{}, list...)
	sort.Strings(got)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", names) {
		c.Fatal("list", "streams %q are listed as %q", names, got)
	}
	var readers []io.ReadSeeker
	var datas [][]byte
	for _, k := range r.Perm(len(list)) {
		name := list[k]
		rd, err := doc.Open(name)
		if err != nil {
			c.Fatal("stream", "Open(%s) of %d bytes: %v", q(name), len(want[name][0]), err)
		}
		c.Count("streams", 1)
		data, err := io.ReadAll(rd)
		if err != nil {
			c.Fatal("read", "reading %s of %d bytes: %v", q(name), len(want[name][0]), err)
		}
		match := -1
		for i, d := range want[name] {
			if bytes.Equal(d, data) {
				match = i
			}
		}
		if d, ok := inRoot[name]; ok && len(want[name]) > 1 {
			c.Count("same_name", 1)
			if !bytes.Equal(d, data) {
				c.Fatal("root", "Open(%s) gives the stream of that name inside of another storage, not the one in the root", q(name))
			}
		}
		d := want[name][0]
		switch {
		case len(d) == 0:
			c.Count("empty_streams", 1)
		case len(d) < 4096:
			c.Count("mini_streams", 1)
		default:
			c.Count("regular_streams", 1)
		}
		if len(d)%64 <= 1 || len(d)%64 == 63 {
			c.Count("boundary", 1)
		}
		if match < 0 {
			at := 0
			for at < len(d) && at < len(data) && d[at] == data[at] {
				at++
			}
			c.Fatal("bytes", "stream %s: %d bytes written, %d read, first difference at %d", q(name), len(d), len(data), at)
		}
		d = want[name][match]
		// the same stream again, in pieces and out of order
		if len(readers) < 6 {
			rd, err := doc.Open(name)
			if err != nil {
				c.Fatal("stream", "second Open(%s): %v", q(name), err)
			}
			readers = append(readers, rd)
			datas = append(datas, d)
		}
	}
	for k := 0; k < 20 && len(readers) > 0; k++ {
		i := r.IntN(len(readers))
		d := datas[i]
		if len(d) == 0 {
			continue
		}
		off := r.IntN(len(d) + 1)
		if r.IntN(2) == 0 {
			off = off / 64 * 64
		}
		p, err := readers[i].Seek(int64(off), io.SeekStart)
		if err != nil || p != int64(off) {
			c.Fatal("seek", "Seek(%d) in %d bytes: %d %v", off, len(d), p, err)
		}
		c.Count("seeks", 1)
		buf := make([]byte, 1+r.IntN(len(d)+10))
		m, err := io.ReadFull(readers[i], buf)
		rest := d[off:]
		if len(rest) > len(buf) {
			rest = rest[:len(buf)]
		}
		if !bytes.Equal(buf[:m], rest) || (m < len(buf)) != (err != nil) {
			c.Fatal("bytes", "reading %d bytes at %d of %d: %d bytes, %v", len(buf), off, len(d), m, err)
		}
	}
	if _, err := doc.Open("no such stream \x02"); err == nil {
		c.Fatal("missing", "opening a stream that does not exist succeeds")
	}
}
