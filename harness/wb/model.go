package wb

import (
	"fmt"
	"math/rand/v2"
)

// Kind of a stored cell.
type Kind int

// Cell kinds.
const (
	Num   Kind = iota // numeric constant
	Str               // text constant
	Bool              // boolean constant
	Err               // error constant
	FNum              // formula with numeric result
	FStr              // formula with text result
	FBool             // formula with boolean result
	FErr              // formula with error result
	Blank             // formatted, no value
)

func (k Kind) String() string {
	return [...]string{"num", "str", "bool", "err", "fnum", "fstr", "fbool", "ferr", "blank"}[k]
}

// Enc is the on-disk encoding for numbers in XLS.
type Enc int

// Number encodings.
const (
	EncNumber Enc = iota
	EncRK
	EncMulRk // consecutive EncMulRk cells of a row become one record
)

// Cell is one stored cell.
type Cell struct {
	Row, Col int
	Kind     Kind
	Num      float64
	Str      string
	Bool     bool
	Err      byte // BIFF error code
	Fmt      int  // index into Workbook.Fmts (0 = General)
	Enc      Enc
	RK       uint32 // raw RK when Enc is EncRK/EncMulRk
	Wide     bool   // XLS text stored 16-bit even if it fits 8-bit
	Runs     int    // rich-text runs attached to the text
	Phon     int    // phonetic data bytes attached (XLS) / rPh element (XLSX)
	Inline   bool   // XLSX: inline string instead of shared
	NumText  string // XLSX: decimal text to write for Num (default shortest)
	Order    int    // optional ordering key
	Splits   []int  // FStr in XLS: split points (char indices) for CONTINUE
	SplitW   []bool // width (16-bit?) of each part, len = len(Splits)+1
}

// Fmt is a number format.
type Fmt struct {
	ID   int    // format id
	Code string // empty for built-ins
}

// Merge is an inclusive range.
type Merge struct{ R1, C1, R2, C2 int }

// Link is a hyperlink over an inclusive range.
type Link struct {
	R1, C1, R2, C2 int
	Target         string // URL or file; empty for internal
	Location       string // internal location
	Display        string
	Frame          string
	Moniker        int // XLS: 0 URL moniker, 1 file moniker (8-bit), 2 saved as string, 3 file moniker (unicode), 4 URL moniker with GUID tail
	MissingRel     bool
	GUID, Time     bool // XLS: fields after all others
}

// Sheet is one worksheet.
type Sheet struct {
	Name   string
	Hidden int // 0 visible 1 hidden 2 very hidden
	Type   byte
	Wide   bool // store name 16-bit
	Cells  []Cell
	Merges []Merge
	Links  []Link
	// declared dimension: exclusive maxima; -1 = tight, -2 = absent (XLSX) / tight (XLS)
	DimRows, DimCols int
	Dialog           bool
	Charts           int // embedded chart substreams (XLS)
}

// Workbook is the logical content.
type Workbook struct {
	Sheets   []Sheet
	Fmts     []Fmt // index 0 is General
	Date1904 bool
}

// Extent returns exclusive row/col maxima over cells and (clamped) nothing else.
func (s *Sheet) Extent() (rows, cols int) {
	for _, c := range s.Cells {
		if c.Row+1 > rows {
			rows = c.Row + 1
		}
		if c.Col+1 > cols {
			cols = c.Col + 1
		}
	}
	return
}

// Dim returns the declared exclusive maxima.
func (s *Sheet) Dim() (rows, cols int) {
	r, c := s.Extent()
	if s.DimRows >= 0 {
		r = s.DimRows
	}
	if s.DimCols >= 0 {
		c = s.DimCols
	}
	return r, c
}

// ErrText are the error codes shared by both formats.
var ErrText = map[byte]string{
	0x00: "#NULL!", 0x07: "#DIV/0!", 0x0F: "#VALUE!", 0x17: "#REF!",
	0x1D: "#NAME?", 0x24: "#NUM!", 0x2A: "#N/A", 0x2B: "#GETTING_DATA",
}

// ErrCodes in stable order.
var ErrCodes = []byte{0x00, 0x07, 0x0F, 0x17, 0x1D, 0x24, 0x2A, 0x2B}

// ColName is the A1 column name.
func ColName(c int) string {
	s := ""
	for c >= 0 {
		s = string(rune('A'+c%26)) + s
		c = c/26 - 1
	}
	return s
}

// Ref is the A1 reference.
func Ref(r, c int) string { return fmt.Sprintf("%s%d", ColName(c), r+1) }

// Pick chooses one element.
func Pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }
