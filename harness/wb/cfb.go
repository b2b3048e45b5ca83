// Package wb holds independent writers for the file formats grate reads:
// compound files, BIFF8 workbooks (plain and RC4-encrypted) and XLSX packages,
// all driven by one logical workbook model. Nothing here uses grate.
package wb

import (
	"encoding/binary"
	"math/rand/v2"
	"sort"
	"strings"
	"unicode/utf16"
)

// CFBEntry is a directory entry to be written: a stream, a storage or an unused slot.
type CFBEntry struct {
	Name    string
	Data    []byte
	Storage bool
	Unused  bool
	Parent  int // 0: root storage, n: entry n-1 (a storage)
}

// CFBOpts controls the physical layout.
type CFBOpts struct {
	V4        bool
	Shuffle   bool       // permute all sectors and mini sectors
	Holes     int        // number of free sectors sprinkled in
	ExtraFAT  int        // FAT sectors beyond the need (forces DIFAT chains cheaply)
	Rand      *rand.Rand // needed for Shuffle/Holes
	NoMini    bool       // (testing aid) never used for well-formed output
	MiniOrder []int      // order in which mini streams are laid out (indices into entries), optional
	HighSize  bool       // version 3: the upper half of stream sizes is not zero
	Tree      bool       // sorted red-black style sibling trees instead of lists
}

// CFBInfo tells where things ended up, for field-aware corruption.
type CFBInfo struct {
	SectorSize  int
	NumSectors  int
	DirSectors  []int
	FATSectors  []int
	DIFSectors  []int
	MiniFAT     []int
	MiniStream  []int
	StreamSecs  map[int][]int // entry index -> sectors
	MiniSecs    map[int][]int // entry index -> mini sectors
	DirEntryOff []int         // file offset of each directory entry (root first)
}

const (
	secFree = 0xFFFFFFFF
	secEOC  = 0xFFFFFFFE
	secFAT  = 0xFFFFFFFD
	secDIF  = 0xFFFFFFFC
)

func ceil(a, b int) int { return (a + b - 1) / b }

// WriteCFB lays out a compound file.
func WriteCFB(entries []CFBEntry, o CFBOpts) ([]byte, *CFBInfo) {
	ss := 512
	if o.V4 {
		ss = 4096
	}
	per := ss / 4
	info := &CFBInfo{SectorSize: ss, StreamSecs: map[int][]int{}, MiniSecs: map[int][]int{}}

	// mini stream layout
	var miniIdx []int
	for i, e := range entries {
		if !e.Storage && !e.Unused && len(e.Data) < 4096 && len(e.Data) > 0 {
			miniIdx = append(miniIdx, i)
		}
	}
	if o.Shuffle && o.Rand != nil {
		o.Rand.Shuffle(len(miniIdx), func(i, j int) { miniIdx[i], miniIdx[j] = miniIdx[j], miniIdx[i] })
	}
	type slot struct{ ent, k int }
	var minis []slot
	for _, i := range miniIdx {
		for k := 0; k < ceil(len(entries[i].Data), 64); k++ {
			minis = append(minis, slot{i, k})
		}
	}
	if o.Shuffle && o.Rand != nil {
		o.Rand.Shuffle(len(minis), func(i, j int) { minis[i], minis[j] = minis[j], minis[i] })
	}
	miniData := make([]byte, len(minis)*64)
	for pos, s := range minis {
		d := entries[s.ent].Data
		copy(miniData[pos*64:pos*64+64], d[s.k*64:])
		m := info.MiniSecs[s.ent]
		for len(m) <= s.k {
			m = append(m, 0)
		}
		m[s.k] = pos
		info.MiniSecs[s.ent] = m
	}
	minifat := make([]uint32, len(minis))
	for _, m := range info.MiniSecs {
		for k, pos := range m {
			if k+1 < len(m) {
				minifat[pos] = uint32(m[k+1])
			} else {
				minifat[pos] = secEOC
			}
		}
	}
	nMiniFAT := ceil(len(minifat), per)
	nMiniStream := ceil(len(miniData), ss)
	nDir := ceil((1+len(entries))*128, ss)
	nStream := 0
	for _, e := range entries {
		if !e.Storage && !e.Unused && len(e.Data) >= 4096 {
			nStream += ceil(len(e.Data), ss)
		}
	}
	base := nMiniFAT + nMiniStream + nDir + nStream + o.Holes
	nFAT, nDIF := 1, 0
	for {
		total := base + nFAT + nDIF
		f := ceil(total, per) + o.ExtraFAT
		d := 0
		if f > 109 {
			d = ceil(f-109, per-1)
		}
		if f <= nFAT && d <= nDIF {
			break
		}
		if f > nFAT {
			nFAT = f
		}
		if d > nDIF {
			nDIF = d
		}
	}
	total := base + nFAT + nDIF
	info.NumSectors = total
	ids := make([]int, total)
	for i := range ids {
		ids[i] = i
	}
	if o.Shuffle && o.Rand != nil {
		o.Rand.Shuffle(total, func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	} else if o.Holes > 0 && o.Rand != nil {
		// monotone order with holes: move the hole ids (last o.Holes) randomly
		h := map[int]bool{}
		for len(h) < o.Holes {
			h[o.Rand.IntN(total)] = true
		}
		var used, holes []int
		for i := 0; i < total; i++ {
			if h[i] {
				holes = append(holes, i)
			} else {
				used = append(used, i)
			}
		}
		ids = append(used, holes...)
	}
	next := 0
	take := func(n int) []int {
		r := ids[next : next+n]
		next += n
		return append([]int{}, r...)
	}
	info.FATSectors = take(nFAT)
	info.DIFSectors = take(nDIF)
	info.DirSectors = take(nDir)
	info.MiniFAT = take(nMiniFAT)
	info.MiniStream = take(nMiniStream)
	fat := make([]uint32, nFAT*per)
	for i := range fat {
		fat[i] = secFree
	}
	chain := func(s []int) uint32 {
		if len(s) == 0 {
			return secEOC
		}
		for i, x := range s {
			if i+1 < len(s) {
				fat[x] = uint32(s[i+1])
			} else {
				fat[x] = secEOC
			}
		}
		return uint32(s[0])
	}
	out := make([]byte, ss*(1+total))
	put := func(secs []int, data []byte) {
		for i, x := range secs {
			lo := i * ss
			if lo >= len(data) {
				break
			}
			hi := lo + ss
			if hi > len(data) {
				hi = len(data)
			}
			copy(out[ss*(1+x):], data[lo:hi])
		}
	}
	for _, x := range info.FATSectors {
		fat[x] = secFAT
	}
	for _, x := range info.DIFSectors {
		fat[x] = secDIF
	}
	dirStart := chain(info.DirSectors)
	mfStart := chain(info.MiniFAT)
	msStart := chain(info.MiniStream)
	put(info.MiniStream, miniData)
	le := binary.LittleEndian
	mf := make([]byte, nMiniFAT*ss)
	for i := 0; i < len(mf)/4; i++ {
		v := uint32(secFree)
		if i < len(minifat) {
			v = minifat[i]
		}
		le.PutUint32(mf[4*i:], v)
	}
	put(info.MiniFAT, mf)

	// directory
	dir := make([]byte, nDir*ss)
	for i := 0; i < len(dir)/128; i++ {
		d := dir[i*128:]
		le.PutUint32(d[68:], secFree)
		le.PutUint32(d[72:], secFree)
		le.PutUint32(d[76:], secFree)
	}
	wname := func(d []byte, s string) {
		u := utf16.Encode([]rune(s))
		for i, c := range u {
			le.PutUint16(d[2*i:], c)
		}
		le.PutUint16(d[64:], uint16(2*len(u)+2))
	}
	root := dir[0:128]
	wname(root, "Root Entry")
	root[66] = 5
	root[67] = 1
	le.PutUint32(root[116:], msStart)
	le.PutUint64(root[120:], uint64(len(miniData)))
	kids := make([][]int, len(entries)+1)
	for i, e := range entries {
		if !e.Unused {
			kids[e.Parent] = append(kids[e.Parent], i+1)
		}
	}
	for par, ids := range kids {
		if len(ids) == 0 {
			continue
		}
		if !o.Tree {
			le.PutUint32(dir[par*128+76:], uint32(ids[0]))
			for k := range ids[1:] {
				le.PutUint32(dir[ids[k]*128+72:], uint32(ids[k+1]))
			}
			continue
		}
		sort.SliceStable(ids, func(a, b int) bool {
			x, y := strings.ToUpper(entries[ids[a]-1].Name), strings.ToUpper(entries[ids[b]-1].Name)
			if n, m := len(utf16.Encode([]rune(x))), len(utf16.Encode([]rune(y))); n != m {
				return n < m
			}
			return x < y
		})
		var build func(ids []int) uint32
		build = func(ids []int) uint32 {
			if len(ids) == 0 {
				return secFree
			}
			m := len(ids) / 2
			d := dir[ids[m]*128:]
			le.PutUint32(d[68:], build(ids[:m]))
			le.PutUint32(d[72:], build(ids[m+1:]))
			return uint32(ids[m])
		}
		le.PutUint32(dir[par*128+76:], build(ids))
	}
	for i, e := range entries {
		d := dir[(i+1)*128 : (i+2)*128]
		if e.Unused {
			continue
		}
		wname(d, e.Name)
		d[67] = 1
		if e.Storage {
			d[66] = 1
			le.PutUint32(d[116:], 0)
			continue
		}
		d[66] = 2
		le.PutUint64(d[120:], uint64(len(e.Data)))
		if o.HighSize && !o.V4 {
			le.PutUint32(d[124:], uint32(0xCAFE0000+i))
		}
		switch {
		case len(e.Data) == 0:
			le.PutUint32(d[116:], secEOC)
		case len(e.Data) < 4096:
			le.PutUint32(d[116:], uint32(info.MiniSecs[i][0]))
		default:
			secs := take(ceil(len(e.Data), ss))
			info.StreamSecs[i] = secs
			le.PutUint32(d[116:], chain(secs))
			put(secs, e.Data)
		}
	}
	put(info.DirSectors, dir)
	for i := 0; i <= len(entries); i++ {
		off := i * 128
		info.DirEntryOff = append(info.DirEntryOff, ss*(1+info.DirSectors[off/ss])+off%ss)
	}

	// FAT + DIFAT
	for i, x := range info.FATSectors {
		for j := 0; j < per; j++ {
			le.PutUint32(out[ss*(1+x)+4*j:], fat[i*per+j])
		}
	}
	difStart := uint32(secEOC)
	if nDIF > 0 {
		difStart = uint32(info.DIFSectors[0])
		k := 109
		for i, x := range info.DIFSectors {
			b := out[ss*(1+x) : ss*(2+x)]
			for j := 0; j < per-1; j++ {
				v := uint32(secFree)
				if k < nFAT {
					v = uint32(info.FATSectors[k])
					k++
				}
				le.PutUint32(b[4*j:], v)
			}
			nx := uint32(secEOC)
			if i+1 < nDIF {
				nx = uint32(info.DIFSectors[i+1])
			}
			le.PutUint32(b[4*(per-1):], nx)
		}
	}
	// header
	copy(out, []byte{0xD0, 0xCF, 0x11, 0xE0, 0xA1, 0xB1, 0x1A, 0xE1})
	le.PutUint16(out[24:], 0x3E)
	if o.V4 {
		le.PutUint16(out[26:], 4)
		le.PutUint16(out[30:], 12)
		le.PutUint32(out[40:], uint32(nDir))
	} else {
		le.PutUint16(out[26:], 3)
		le.PutUint16(out[30:], 9)
	}
	le.PutUint16(out[28:], 0xFFFE)
	le.PutUint16(out[32:], 6)
	le.PutUint32(out[44:], uint32(nFAT))
	le.PutUint32(out[48:], dirStart)
	le.PutUint32(out[56:], 4096)
	le.PutUint32(out[60:], mfStart)
	le.PutUint32(out[64:], uint32(nMiniFAT))
	le.PutUint32(out[68:], difStart)
	le.PutUint32(out[72:], uint32(nDIF))
	for i := 0; i < 109; i++ {
		v := uint32(secFree)
		if i < nFAT {
			v = uint32(info.FATSectors[i])
		}
		le.PutUint32(out[76+4*i:], v)
	}
	return out, info
}
