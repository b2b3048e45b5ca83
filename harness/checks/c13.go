package checks

import (
	"bytes"
	"crypto/md5"
	"crypto/rc4"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand/v2"
	"unicode/utf16"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xls/crypto"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C13", Quick: 60000, Thorough: 2500000,
		Rule:      "each case writes a workbook plainly and RC4-encrypted (padding records aim at every alignment to the 1024 byte blocks, records which stay in the clear occur anywhere) and compares all sheets of both with each other and the model; or encrypts it under another password, or declares another scheme, and expects an error; or feeds an encrypted byte stream to the decryptor in random pieces with reads in between and compares the output with our own RC4; distinct = distinct (kind, stream length, padding) tuples",
		Assume:    []string{"passwords have at most 16 bit characters", "the stream is a whole number of records"},
		MinEvents: map[string]int{"encrypted_files": 2500, "cells": 40000, "rows_compared": 10000, "wrong_password": 600, "unsupported": 600, "chunkings": 2000, "clear_records": 1000, "aligned": 300, "long_records": 100, "blocks": 5000, "many_records": 50},
		Case:      caseC13,
	})
}

// keystream is the RC4 key stream of MS-OFFCRYPTO 2.3.6.2, block by block.
func keystream(pw string, salt []byte, n int) []byte {
	var pb []byte
	for _, u := range utf16.Encode([]rune(pw)) {
		pb = append(pb, byte(u), byte(u>>8))
	}
	h0 := md5.Sum(pb)
	m := md5.New()
	for i := 0; i < 16; i++ {
		m.Write(h0[:5])
		m.Write(salt)
	}
	h1 := m.Sum(nil)[:5]
	out := make([]byte, n)
	for b := 0; b*1024 < n; b++ {
		k := md5.Sum(binary.LittleEndian.AppendUint32(append([]byte{}, h1...), uint32(b)))
		c, _ := rc4.NewCipher(k[:])
		e := min(n, (b+1)*1024)
		c.XORKeyStream(out[b*1024:e], out[b*1024:e])
	}
	return out
}

const defaultPassword = "VelvetSweatshop"

func padRec(r *rand.Rand, n int) wb.Rec {
	t := wb.Pick[uint16](r, 0x0867, 0x088B, 0x00EC, 0x01B6)
	return wb.Rec{Type: t, Data: randBytes(r, n), Tag: "pad"}
}

func caseC13(c *mon.Ctx) {
	r := c.Rand
	salt := randBytes(r, 16)
	if i := c.Index % 4096; r.IntN(3) == 0 || i >= 17 && i <= 19 {
		chunking(c, salt)
		return
	}
	w := genBook(r, GenOpts{XLS: true, MaxSheets: 3, MaxCells: 30, Formats: true, Hidden: true, Charts: true, LongText: r.IntN(4) == 0})
	w.Date1904 = r.IntN(6) == 0
	seed1, seed2 := r.Uint64(), r.Uint64()
	var pre, first, last []wb.Rec
	for k, n := 0, r.IntN(3); k < n; k++ {
		pre = append(pre, padRec(r, wb.Pick(r, r.IntN(1100), 1024, 1020, 1016, r.IntN(50), 8224)))
		if len(pre[k].Data) > 8000 {
			c.Count("long_records", 1)
		}
	}
	if r.IntN(25) == 0 { // more blocks than a byte counts
		for n := 256<<10 + r.IntN(120<<10); n > 0; n -= 8000 {
			pre = append(pre, padRec(r, 8000+r.IntN(224)))
		}
		c.Count("over_255_blocks", 1)
	}
	if r.IntN(60) == 0 {
		pre = append(pre, manyRecs(r, 100+r.IntN(5000))...)
		c.Count("many_records", 1)
	}
	if r.IntN(4) == 0 {
		first = append(first, wb.Rec{Type: 0x0086})
	}
	opts := func(enc bool) wb.XLSOpts {
		o := randXLSOpts(rand.New(rand.NewPCG(seed1, seed2)))
		o.Encrypt, o.Salt, o.ClearNoise = enc, salt, true
		if o.Noise == 0 && seed1%2 == 0 {
			o.Noise = 20
		}
		o.Pre, o.First, o.Last = pre, first, last
		o.SheetOrder = nil
		return o
	}
	// end at a chosen alignment to the blocks
	align := -1
	if r.IntN(3) == 0 {
		recs, _ := wb.BuildXLSRecords(w, opts(true))
		n := len(wb.JoinRecs(recs)) + 4
		align = wb.Pick(r, 0, 0, 1, 2, 3, 4, 1020, 1023)
		pad := ((align-n)%1024 + 1024) % 1024
		if pad+4 <= 8224 {
			last = append(last, padRec(r, pad))
		}
		c.Count("aligned", 1)
	}
	enc := opts(true)
	kind := r.IntN(4)
	wrong := ""
	if kind == 0 {
		wrong = wb.Pick(r, "velvetsweatshop", "VelvetSweatsho", "VelvetSweatshop ", "x", "Пароль", "0", "VelvetSweatshoq", "VelvetSweatshoq"[:14], string(rune('V'+256))+"elvetSweatshop", randRunes(r, 1+r.IntN(14)))
		if wrong == defaultPassword {
			wrong = "x"
		}
		enc.Password = wrong
	}
	recs, _ := wb.BuildXLSRecords(w, enc)
	stream := wb.JoinRecs(recs)
	if align >= 0 && len(stream)%1024 != align && len(last) > 0 {
		c.Count("misaligned", 1)
	}
	for _, rc := range recs {
		switch rc.Type {
		case 0x0194, 0x0195, 0x00E1, 0x0196, 0x0138:
			c.Count("clear_records", 1)
		}
	}
	c.Count("blocks", (len(stream)+1023)/1024)
	data := wb.EncryptStream(stream, wrong, salt)
	scheme := ""
	if kind == 1 && r.IntN(2) == 0 { // another scheme
		at := bytes.Index(data, []byte{0x2F, 0, 54, 0})
		fp := data[at+4 : at+58]
		switch r.IntN(6) {
		case 0:
			scheme = "CryptoAPI"
			fp[0], fp[2], fp[4] = 1, byte(2+r.IntN(3)), 2
		case 1:
			scheme = "CryptoAPI (type)"
			fp[0] = byte(2 + r.IntN(3))
		case 2:
			scheme = "XOR obfuscation"
			fp[0] = 0
		case 3:
			scheme = "unknown type"
			v := 5 + r.IntN(65000)
			fp[0], fp[1] = byte(v), byte(v>>8)
		case 4:
			scheme = "unknown minor version"
			v := r.IntN(65536)
			if v == 1 {
				v = 0
			}
			fp[4], fp[5] = byte(v), byte(v>>8)
		case 5:
			scheme = "wrong verifier"
			fp[22+r.IntN(32)] ^= byte(1 << r.IntN(8))
		}
	}
	b, _ := wb.WriteCFB(wb.XLSEntries(data, r), randCFBOpts(r))
	c.Artifact("encrypted.xls", b)
	c.Key(kind, len(stream)%1024, len(stream)/1024, len(pre), scheme, wrong)
	c.Note("%d bytes, password %q scheme %q, pads %d", len(stream), wrong, scheme, len(pre)+len(last))
	p := c.File(".xls", b)
	if wrong != "" || scheme != "" {
		if wrong != "" {
			c.Count("wrong_password", 1)
		}
		if scheme != "" {
			c.Count("unsupported", 1)
		}
		if src, err := grate.Open(p); err == nil {
			l, _ := src.List()
			c.Fatal("refuse", "a workbook encrypted with password %q, scheme %q opens without an error (sheets %q)", wrong, scheme, l)
		}
		return
	}
	src := mustOpen(c, p)
	defer src.Close()
	c.Count("encrypted_files", 1)
	plainRecs, _ := wb.BuildXLSRecords(w, opts(false))
	pb, _ := wb.WriteCFB([]wb.CFBEntry{{Name: "Workbook", Data: wb.JoinRecs(plainRecs)}}, wb.CFBOpts{})
	plain := mustOpen(c, c.File(".xls", pb))
	defer plain.Close()
	l1, err1 := src.List()
	l2, err2 := plain.List()
	if err1 != nil || err2 != nil || fmt.Sprintf("%q", l1) != fmt.Sprintf("%q", l2) {
		c.Fatal("list", "sheets of the encrypted file %q %v, of the plain file %q %v", l1, err1, l2, err2)
	}
	for i := range w.Sheets {
		s := &w.Sheets[i]
		if s.Type != 0 {
			continue
		}
		rows, _ := readAll(mustGet(c, src, s.Name))
		ref, _ := readAll(mustGet(c, plain, s.Name))
		compareSheet(c, "encrypted "+q(s.Name), rows, expSheet(w, s))
		if len(rows) != len(ref) {
			c.Fatal("rows", "sheet %s has %d rows, %d in the plain file", q(s.Name), len(rows), len(ref))
		}
		for k := range rows {
			c.Count("rows_compared", 1)
			if rowKey(rows[k]) != rowKey(ref[k]) {
				c.Fatal("rows", "sheet %s row %d is %s, %s in the plain file", q(s.Name), k+1, rowKey(rows[k]), rowKey(ref[k]))
			}
		}
	}
}

// chunking feeds a decryptor in pieces.
func chunking(c *mon.Ctx, salt []byte) {
	r := c.Rand
	n := wb.Pick(r, 0, 1, 1023, 1024, 1025, 2047, 2048, 2049, 3072, r.IntN(6000), r.IntN(6000), 20480)
	if r.IntN(30) == 0 {
		n = wb.Pick(r, 262144, 262145, 263168, 266000, 300000)
		c.Count("over_255_blocks", 1)
	}
	if i := c.Index % 4096; i == 17 || i == 18 {
		n = 1<<20 + r.IntN(1<<19)
		c.Count("over_1023_blocks", 1)
	}
	if c.Index == 19 { // more than two bytes count
		n = 65536<<10 + 5000
		c.Count("over_65535_blocks", 1)
	}
	plain := randBytes(r, n)
	ks := keystream(defaultPassword, salt, n)
	data := make([]byte, n)
	for i := range data {
		data[i] = plain[i] ^ ks[i]
	}
	fp := wb.FilePass(defaultPassword, salt, r)
	dec, err := crypto.NewBasicRC4(fp[2:])
	if err != nil {
		c.Fatal("verify", "the default password is not accepted: %v", err)
	}
	if r.IntN(4) == 0 {
		dec.SetPassword([]byte(defaultPassword))
	}
	for round, n := 0, 1+r.IntN(3); round < n; round++ {
		if round > 0 || r.IntN(5) == 0 {
			if r.IntN(2) == 0 { // leftovers of an earlier stream
				dec.Write(randBytes(r, r.IntN(3000)))
				if r.IntN(2) == 0 {
					dec.Flush()
				}
			}
			dec.Reset()
		}
		c.Count("chunkings", 1)
		max := wb.Pick(r, 1, 3, 60, 1024, 1500, 5000, 30000)
		if n > 1<<20 {
			max = 100000
		}
		var got []byte
		reads := r.IntN(2) == 0
		useBytes := !reads && r.IntN(2) == 0
		var sizes []int
		for rest := data; len(rest) > 0; {
			k := min(len(rest), r.IntN(max+1))
			if r.IntN(6) == 0 {
				k = min(len(rest), wb.Pick(r, 1024, 1023, 1025, 512))
			}
			if max == 1 && k == 0 && r.IntN(2) == 0 {
				k = 1
			}
			piece := append([]byte{}, rest[:k]...)
			m, err := dec.Write(piece)
			if m != k || err != nil {
				c.Fatal("write", "Write of %d bytes returns %d %v", k, m, err)
			}
			if !bytes.Equal(piece, rest[:k]) {
				c.Fatal("input", "Write changes its input")
			}
			if len(sizes) < 50 {
				sizes = append(sizes, k)
			}
			rest = rest[k:]
			if reads && r.IntN(3) == 0 {
				buf := make([]byte, 1+r.IntN(2000))
				m, err := dec.Read(buf)
				if err != nil && err != io.EOF {
					c.Fatal("readerr", "Read: %v", err)
				}
				got = append(got, buf[:m]...)
			}
		}
		dec.Flush()
		if useBytes {
			got = append(got, dec.Bytes()...)
		} else {
			for {
				buf := make([]byte, 1+r.IntN(3000))
				m, err := dec.Read(buf)
				got = append(got, buf[:m]...)
				if err != nil || m == 0 {
					break
				}
			}
		}
		c.Key("chunk", n, fmt.Sprint(sizes))
		if !bytes.Equal(got, plain) {
			at := 0
			for at < len(got) && at < n && got[at] == plain[at] {
				at++
			}
			c.Fatal("chunks", "%d bytes written in pieces of %v decrypt to %d bytes, first difference at %d", n, sizes, len(got), at)
		}
	}
}
