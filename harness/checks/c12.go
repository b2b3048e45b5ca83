package checks

import (
	"bytes"
	"io"
	"sync"

	"github.com/pbnjay/grate/xls/cfb"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C12", Quick: 300000, Thorough: 15000000, CPUSec: 20,
		Rule:      "each case makes a SliceReader over 0-12 slices (empty ones anywhere, sizes 0-1000) or over several GB of slices that share their memory, or opens a stream of a compound file, and runs 30-300 Read and Seek calls (buffers of 0 to twice the stream, offsets around 0, the ends of the slices, the end, far negative, far beyond, the extremes of int64, all origins and invalid ones), comparing every result with a contiguous byte reader; distinct = distinct (slice sizes, operations) histories",
		Assume:    []string{"the position after a refused seek is not specified, the next valid seek restores it", "a seek beyond the end may be refused or be followed by end-of-file"},
		MinEvents: map[string]int{"ops": 1500000, "reads": 500000, "eof": 50000, "seeks": 500000, "refused": 100000, "empty_slices": 20000, "slice_edges": 50000, "past_end": 40000, "negative": 40000, "streams": 1000, "large": 1000},
		Case:      caseC12,
	})
}

// largeBase returns 64 MB of varied bytes.
var largeBase = sync.OnceValue(func() []byte {
	b := make([]byte, 1<<26)
	for i := range b {
		b[i] = byte(uint32(i) * 2654435761 >> 24)
	}
	return b
})

func caseC12(c *mon.Ctx) {
	r := c.Rand
	var rd io.ReadSeeker
	var all []byte
	var edges []int64
	var large [][]byte
	if r.IntN(60) == 0 { // beyond what 32 bits count; the slices share their memory
		base := largeBase()
		total := int64(0)
		for want := wb.Pick[int64](r, 1<<31, 1<<32, 1<<32+1<<31); total <= want; {
			a := r.IntN(1 << 20)
			l := len(base) - a - r.IntN(1<<20)
			if r.IntN(10) == 0 {
				l = r.IntN(10)
			}
			large = append(large, base[a:a+l])
			edges = append(edges, total)
			total += int64(l)
		}
		rd = &cfb.SliceReader{Data: append([][]byte{}, large...)}
		c.Count("large", 1)
		c.Key("large", total)
	} else if r.IntN(15) == 0 {
		size := streamSize(r)
		all = randBytes(r, size)
		b, _ := wb.WriteCFB([]wb.CFBEntry{{Name: "s", Data: all}, {Name: "t", Data: randBytes(r, 5000)}}, randCFBOpts(r))
		doc, err := cfb.Open(c.File(".cfb", b))
		if err != nil {
			c.Fatal("open", "a well-formed compound file does not open: %v", err)
		}
		rd, err = doc.Open("s")
		if err != nil {
			c.Fatal("stream", "%v", err)
		}
		for e := int64(0); e <= int64(size); e += 512 {
			edges = append(edges, e)
		}
		c.Count("streams", 1)
		c.Key("stream", size)
	} else {
		var data [][]byte
		n := r.IntN(12)
		max := wb.Pick(r, 3, 20, 1000)
		key := []interface{}{n}
		for i := 0; i < n; i++ {
			l := r.IntN(max + 1)
			if r.IntN(4) == 0 {
				l = 0
			}
			if l == 0 {
				c.Count("empty_slices", 1)
			}
			d := randBytes(r, l)
			if l == 0 && r.IntN(2) == 0 {
				d = nil
			}
			data = append(data, d)
			edges = append(edges, int64(len(all)))
			all = append(all, d...)
			key = append(key, l)
		}
		key = append(key, r.Uint64())
		c.Key(key...)
		rd = &cfb.SliceReader{Data: data}
	}
	size := int64(len(all))
	if large != nil {
		size = edges[len(edges)-1] + int64(len(large[len(large)-1]))
	}
	// content returns up to n bytes at off
	content := func(off int64, n int) []byte {
		if large == nil {
			return all[off:min(size, off+int64(n))]
		}
		var b []byte
		for i, d := range large {
			if k := off + int64(len(b)) - edges[i]; k >= 0 && k < int64(len(d)) && len(b) < n {
				b = append(b, d[k:min(int64(len(d)), k+int64(n-len(b)))]...)
			}
		}
		return b
	}
	edges = append(edges, size)
	maxRead := 2 * int(min(size, 1<<14))
	cur := int64(0)
	known := true // false after a refused seek or one beyond the end
	nops := 30 + r.IntN(270)
	read := func(n int) {
		buf := make([]byte, n)
		m, err := rd.Read(buf)
		c.Count("reads", 1)
		if m < 0 || m > n {
			c.Fatal("count", "Read of %d bytes returns %d", n, m)
		}
		if !known {
			// all that is certain: bytes from somewhere within
			return
		}
		rest := int64(0)
		if cur < size {
			rest = size - cur
		}
		switch {
		case n == 0:
			if m != 0 || err != nil && err != io.EOF || err == io.EOF && rest > 0 {
				c.Fatal("zero", "Read into an empty buffer at %d of %d returns %d %v", cur, size, m, err)
			}
		case rest == 0:
			if m != 0 || err != io.EOF {
				c.Fatal("eof", "Read at the end (%d of %d) returns %d %v", cur, size, m, err)
			}
			c.Count("eof", 1)
		default:
			if err == io.EOF && int64(m) == rest {
				err = nil // together with the last bytes
			}
			if m == 0 || err != nil || int64(m) > rest || !bytes.Equal(buf[:m], content(cur, m)) {
				c.Fatal("bytes", "Read of %d bytes at %d of %d returns %d bytes, %v (right bytes: %v)", n, cur, size, m, err, int64(m) <= rest && bytes.Equal(buf[:m], content(cur, m)))
			}
			cur += int64(m)
		}
	}
	for op := 0; op < nops; op++ {
		c.Count("ops", 1)
		if r.IntN(2) == 0 {
			read(wb.Pick(r, 0, 1, 1, 2, 3, 7, 64, 512, 1+r.IntN(maxRead+2)))
			continue
		}
		var target int64
		edge := false
		switch r.IntN(8) {
		case 0:
			target = -1 - r.Int64N(5)
		case 1:
			target = size + 1 + r.Int64N(5)
		case 2:
			target = edges[r.IntN(len(edges))] + r.Int64N(3) - 1
			edge = true
		case 3:
			target = wb.Pick(r, int64(-1)<<63, int64(1)<<62, -(int64(1) << 62), 1<<31, -(1 << 31), 1<<32, 1<<32+1)
		case 4:
			target = cur
		default:
			target = r.Int64N(size + 1)
		}
		whence := r.IntN(3)
		if !known && whence == io.SeekCurrent {
			whence = io.SeekStart
		}
		off := target
		switch whence {
		case io.SeekCurrent:
			off = target - cur
		case io.SeekEnd:
			off = target - size
		}
		if r.IntN(20) == 0 { // extremes of the offset itself
			off = wb.Pick(r, int64(-1)<<63, int64(1<<63-1), int64(-1)<<63+1)
			base := []int64{0, cur, size}[whence]
			target = base + off
			if off > 0 && target < 0 {
				target = 1<<63 - 1
			}
		}
		if whence == io.SeekCurrent && off == 0 || whence != io.SeekCurrent {
			// fine: a position query or an absolute seek
			_ = off
		}
		if r.IntN(40) == 0 {
			whence = wb.Pick(r, 3, -1, 100)
			if off == 0 && whence == io.SeekCurrent {
				continue
			}
			p, err := rd.Seek(off, whence)
			if err == nil {
				c.Fatal("whence", "Seek(%d, %d) returns %d and no error", off, whence, p)
			}
			// a refused seek leaves the position as it was
			c.Count("refused", 1)
			continue
		}
		p, err := rd.Seek(off, whence)
		c.Count("seeks", 1)
		switch {
		case target < 0:
			c.Count("negative", 1)
			if err == nil {
				// must be end-of-file, then
				var one [1]byte
				if m, e := rd.Read(one[:]); m != 0 || e == nil {
					c.Fatal("negative", "Seek(%d, %d) from %d of %d, to %d, returns %d, and Read %d %v", off, whence, cur, size, target, p, m, e)
				}
			} else {
				// the position stays as it was
				c.Count("refused", 1)
				continue
			}
			known = false
		case target > size:
			c.Count("past_end", 1)
			if err == nil {
				var one [1]byte
				if m, e := rd.Read(one[:]); m != 0 || e == nil {
					c.Fatal("beyond", "Seek(%d, %d) from %d of %d, to %d, returns %d, and Read %d %v", off, whence, cur, size, target, p, m, e)
				}
			} else {
				// the position stays as it was
				c.Count("refused", 1)
				continue
			}
			known = false
		default:
			if err != nil || p != target {
				c.Fatal("seek", "Seek(%d, %d) from %d of %d, to %d, returns %d %v", off, whence, cur, size, target, p, err)
			}
			cur, known = target, true
			if edge {
				c.Count("slice_edges", 1)
			}
		}
	}
	if large != nil {
		return
	}
	// and the whole once more
	if p, err := rd.Seek(0, io.SeekStart); err != nil || p != 0 {
		c.Fatal("seek", "Seek(0, 0) returns %d %v", p, err)
	}
	got, err := io.ReadAll(rd)
	if err != nil || !bytes.Equal(got, all) {
		c.Fatal("bytes", "the whole stream of %d bytes reads as %d bytes, %v", size, len(got), err)
	}
}
