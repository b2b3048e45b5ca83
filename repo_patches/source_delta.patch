From 81c993d4c4b01550f5b4be67353c1dab8607c372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 01/62] fix: xls: decode RK integers with two implied decimals

RKNumber.Float64 returned 0 for values stored as integer*100.
---
 xls/structs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xls/structs.go b/xls/structs.go
index c8d49a7..a19b9ca 100644
--- a/xls/structs.go
+++ b/xls/structs.go
@@ -96,6 +96,10 @@ func (r RKNumber) Float64() float64 {
 	if (r&1) != 0 && (r&2) == 0 {
 		return v2 / 100.0
 	}
+	if (r&1) != 0 && (r&2) != 0 {
+		// an integer with 2 implied decimals
+		return float64(val) / 100.0
+	}
 	return 0.0
 }
 
-- 
2.43.0


From bb8b7bb8506e5639f2137fa56fba1f3d3c0f3e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 02/62] fix: xls: decode formula string results character by
 character

8-bit results were taken as UTF-8 and surrogate pairs split over a
Continue record were broken; the character count was ignored.
---
 xls/sheets.go  | 50 +++++++++++---------------------------------------
 xls/strings.go | 21 +++++++++++++++++++++
 2 files changed, 32 insertions(+), 39 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 7f30402..79d4344 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -260,47 +260,19 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			// at each gap indicates if the encoding switches
 			// to/from 8/16-bit characters.
 
-			charCount := binary.LittleEndian.Uint16(r.Data[:2])
-			flags := r.Data[2]
-			fstr := ""
-			if (flags & 1) == 0 {
-				fstr = string(r.Data[3:])
-			} else {
-				raw := r.Data[3:]
-				if int(charCount) > cap(us) {
-					us = make([]uint16, charCount)
-				}
-				us = us[:charCount]
-				for i := 0; i < int(charCount); i++ {
-					us[i] = binary.LittleEndian.Uint16(raw)
-					raw = raw[2:]
-				}
-				fstr = string(utf16.Decode(us))
-			}
-
-			if (ridx + 1) < len(b.substreams[ss]) {
-				ridx2 := ridx + 1
-				nrecs := len(b.substreams[ss])
-				for ridx2 < nrecs {
-					r2 := b.substreams[ss][ridx2]
-					if r2.RecType != RecTypeContinue {
-						break
-					}
-					if (r2.Data[0] & 1) == 0 {
-						fstr += string(r2.Data[1:])
-					} else {
-						raw := r2.Data[1:]
-						slen := len(raw) / 2
-						us = us[:slen]
-						for i := 0; i < slen; i++ {
-							us[i] = binary.LittleEndian.Uint16(raw)
-							raw = raw[2:]
-						}
-						fstr += string(utf16.Decode(us))
-					}
-					ridx2++
+			// NB the characters are gathered before decoding them, because 8-bit
+			// characters are not UTF-8 and a surrogate pair may span a gap.
+			charCount := int(binary.LittleEndian.Uint16(r.Data[:2]))
+			us = appendXLChars(us[:0], r.Data[2:], charCount)
+
+			for ridx2 := ridx + 1; ridx2 < len(b.substreams[ss]); ridx2++ {
+				r2 := b.substreams[ss][ridx2]
+				if r2.RecType != RecTypeContinue {
+					break
 				}
+				us = appendXLChars(us, r2.Data, charCount)
 			}
+			fstr := string(utf16.Decode(us))
 			res.Set(int(formulaRow), int(formulaCol), fstr)
 			//log.Printf("String direct: %d %d '%s'", int(formulaRow), int(formulaCol), fstr)
 
diff --git a/xls/strings.go b/xls/strings.go
index ae96981..5e8142f 100644
--- a/xls/strings.go
+++ b/xls/strings.go
@@ -133,6 +133,27 @@ func decodeXLUnicodeRichExtendedString(r io.Reader) (string, error) {
 	return string(utf16.Decode(content)), nil
 }
 
+// appendXLChars appends the characters of one (partial) string record to dst
+// until it holds max characters. The first byte of raw is a flags byte that
+// selects between 8-bit and 16-bit characters.
+func appendXLChars(dst []uint16, raw []byte, max int) []uint16 {
+	if len(raw) == 0 {
+		return dst
+	}
+	flags := raw[0]
+	raw = raw[1:]
+	if (flags & 1) == 0 {
+		for ; len(raw) > 0 && len(dst) < max; raw = raw[1:] {
+			dst = append(dst, uint16(raw[0]))
+		}
+		return dst
+	}
+	for ; len(raw) > 1 && len(dst) < max; raw = raw[2:] {
+		dst = append(dst, binary.LittleEndian.Uint16(raw))
+	}
+	return dst
+}
+
 // read in an array of XLUnicodeRichExtendedString s
 func parseSST(recs []*rec) ([]string, error) {
 	// The quirky thing about this code is that when strings cross a record
-- 
2.43.0


From ac9ddf51e4b4f42025b09fad10eb2f5dd04273b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 03/62] fix: commonxl: do not allocate huge declared sheet
 areas up front

A dimension such as A1:XFD1048576, or one cell in a far corner, allocated
every cell of the rectangle. Big sheets now extend a row when it is
written. Resizing to a smaller size no longer makes reading panic.
---
 commonxl/sheet.go | 69 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 51 insertions(+), 18 deletions(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index a165334..34dd159 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -18,32 +18,54 @@ type Sheet struct {
 	CurRow int
 }
 
+// maxPrealloc is the largest number of cells to allocate ahead of their use.
+// The rows of bigger sheets are extended when their cells are written.
+const maxPrealloc = 1 << 20
+
 // Resize the sheet for the number of rows and cols given.
 // Newly added cells default to blank.
 func (s *Sheet) Resize(rows, cols int) {
-	for i := range s.Rows {
-		if i > rows {
-			break
-		}
-		n := cols - len(s.Rows[i])
-		if n <= 0 {
-			continue
-		}
-		s.Rows[i] = append(s.Rows[i], make([]Cell, n)...)
-	}
-
 	if rows <= 0 {
 		rows = 1
 	}
 	if cols <= 0 {
 		cols = 1
 	}
+	// existing content is always kept
+	if rows < s.NumRows {
+		rows = s.NumRows
+	}
+	if cols < s.NumCols {
+		cols = s.NumCols
+	}
+	prealloc := cols
+	if rows > maxPrealloc/cols {
+		prealloc = 0
+	}
+
+	if cols > s.NumCols {
+		for i := range s.Rows {
+			n := prealloc - len(s.Rows[i])
+			if n <= 0 {
+				continue
+			}
+			s.Rows[i] = append(s.Rows[i], make([]Cell, n)...)
+		}
+	}
+
 	s.CurRow = 0
 	s.NumRows = rows
 	s.NumCols = cols
 
 	for rows >= len(s.Rows) {
-		s.Rows = append(s.Rows, make([]Cell, cols))
+		s.Rows = append(s.Rows, make([]Cell, prealloc))
+	}
+}
+
+// extend the row to include the column given.
+func (s *Sheet) extend(row, col int) {
+	if n := col + 1 - len(s.Rows[row]); n > 0 {
+		s.Rows[row] = append(s.Rows[row], make([]Cell, n)...)
 	}
 }
 
@@ -58,14 +80,16 @@ func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 
 		// per the spec, this is an invalid Excel file
 		// but we'll resize in place instead of crashing out
-		if row >= s.NumRows {
-			s.NumRows = row + 1
+		rows, cols := s.NumRows, s.NumCols
+		if row >= rows {
+			rows = row + 1
 		}
-		if col >= s.NumCols {
-			s.NumCols = col + 1
+		if col >= cols {
+			cols = col + 1
 		}
-		s.Resize(s.NumRows, s.NumCols)
+		s.Resize(rows, cols)
 	}
+	s.extend(row, col)
 
 	if spec, ok := value.(string); ok {
 		if spec == grate.EndRowMerged || spec == grate.EndColumnMerged || spec == grate.ContinueRowMerged || spec == grate.ContinueColumnMerged {
@@ -152,6 +176,9 @@ func (s *Sheet) Strings() []string {
 // and special cases: "blank", "hyperlink" which are string types
 func (s *Sheet) Types() []string {
 	res := make([]string, s.NumCols)
+	for i := range res {
+		res[i] = BlankCell.String()
+	}
 	for i, cell := range s.Rows[s.CurRow-1] {
 		res[i] = cell.Type().String()
 	}
@@ -162,6 +189,9 @@ func (s *Sheet) Types() []string {
 func (s *Sheet) Formats() []string {
 	ok := true
 	res := make([]string, s.NumCols)
+	for i := range res {
+		res[i] = builtInFormats[0]
+	}
 	for i, cell := range s.Rows[s.CurRow-1] {
 		res[i], ok = builtInFormats[cell.FormatNo()]
 		if !ok {
@@ -179,7 +209,10 @@ func (s *Sheet) Scan(args ...interface{}) error {
 	row := s.Rows[s.CurRow-1]
 
 	for i, a := range args {
-		val := row[i].Value()
+		var val interface{} = ""
+		if i < len(row) {
+			val = row[i].Value()
+		}
 
 		switch v := a.(type) {
 		case bool, int64, float64, string, time.Time:
-- 
2.43.0


From f946da3511daffbd4e8e4d5f5fb689dbaa799863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 04/62] fix: commonxl: Scan with too many destinations is an
 error, not a panic

---
 commonxl/sheet.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 34dd159..f29d00b 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -207,6 +207,9 @@ func (s *Sheet) Formats() []string {
 // If invalid, returns ErrInvalidScanType
 func (s *Sheet) Scan(args ...interface{}) error {
 	row := s.Rows[s.CurRow-1]
+	if len(args) > s.NumCols {
+		return fmt.Errorf("scan expected at most %d destinations, not %d", s.NumCols, len(args))
+	}
 
 	for i, a := range args {
 		var val interface{} = ""
-- 
2.43.0


From cd2f3903bf1eabe623cf27af116f0aa04772e461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:30 +0000
Subject: [PATCH 05/62] fix: commonxl: blank cells with a format scan as empty
 strings

Blank is documented as a string type, but its value was nil unless the
cell had never been written.
---
 commonxl/cell.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 9b1c5b2..19f370e 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -56,7 +56,7 @@ type Cell []interface{}
 
 // Value returns the contents as a generic interface{}.
 func (c Cell) Value() interface{} {
-	if len(c) == 0 {
+	if len(c) == 0 || c[0] == nil {
 		return ""
 	}
 	return c[0]
-- 
2.43.0


From 2653864c6f3d781220f4fc36f45e1a96dc53f5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:31 +0000
Subject: [PATCH 06/62] fix: commonxl: IsEmpty looks for data values instead of
 dimensions

A sheet with a single value was reported empty, and one with only blank
cells was not.
---
 commonxl/sheet.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index f29d00b..41f6179 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -259,7 +259,14 @@ func (s *Sheet) Scan(args ...interface{}) error {
 
 // IsEmpty returns true if there are no data values.
 func (s *Sheet) IsEmpty() bool {
-	return (s.NumCols <= 1 && s.NumRows <= 1)
+	for _, row := range s.Rows {
+		for _, cell := range row {
+			if t := cell.Type(); t != BlankCell && t != StaticCell {
+				return false
+			}
+		}
+	}
+	return true
 }
 
 // Err returns the last error that occured.
-- 
2.43.0


From 08e7d0add376f3824ed62a79e8325dd650996fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 07/62] fix: commonxl: Set and SetURL on blank or boundary
 cells

Both indexed past the end of the grid for the first row and column beyond
it, and into cells that were never written. A second SetURL kept the old
link and the format number of a linked cell was lost.
---
 commonxl/cell.go  | 9 +++++++--
 commonxl/sheet.go | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 19f370e..7385e48 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -64,11 +64,16 @@ func (c Cell) Value() interface{} {
 
 // SetURL adds a URL hyperlink to the cell.
 func (c *Cell) SetURL(link string) {
+	if len(*c) < 2 {
+		*c = make([]interface{}, 2, 4)
+	}
 	(*c)[1] = HyperlinkStringCell
 	if len(*c) == 2 {
 		*c = append(*c, uint16(0), link)
-	} else { // len = 3 already
+	} else if len(*c) == 3 {
 		*c = append(*c, link)
+	} else { // replace the previous link
+		(*c)[3] = link
 	}
 }
 
@@ -91,7 +96,7 @@ func (c Cell) Type() CellType {
 
 // FormatNo returns the NumberFormat used for display.
 func (c Cell) FormatNo() uint16 {
-	if len(c) == 3 {
+	if len(c) >= 3 {
 		return c[2].(uint16)
 	}
 	return 0
diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 41f6179..574dfd9 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -111,22 +111,27 @@ func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 // Set changes the value in an existing cell location.
 // NB Currently only used for populating string results for formulas.
 func (s *Sheet) Set(row, col int, value interface{}) {
-	if row > s.NumRows || col > s.NumCols {
+	if row < 0 || col < 0 || row >= s.NumRows || col >= s.NumCols {
 		log.Println("grate: cell out of bounds")
 		return
 	}
 
+	s.extend(row, col)
+	if len(s.Rows[row][col]) < 2 {
+		s.Rows[row][col] = make([]interface{}, 2)
+	}
 	s.Rows[row][col][0] = value
 	s.Rows[row][col][1] = StringCell
 }
 
 // SetURL adds a hyperlink to an existing cell location.
 func (s *Sheet) SetURL(row, col int, link string) {
-	if row > s.NumRows || col > s.NumCols {
+	if row < 0 || col < 0 || row >= s.NumRows || col >= s.NumCols {
 		log.Println("grate: cell out of bounds")
 		return
 	}
 
+	s.extend(row, col)
 	s.Rows[row][col].SetURL(link)
 }
 
-- 
2.43.0


From 839ba9ef9d95b5f5d000b2d178a51776436431a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:12 +0000
Subject: [PATCH 08/62] fix: commonxl: Cell.Equal compares with the other
 cell's text

It parsed its own text instead, ignored text that is not a number, lost
the low digits of big integers and panicked on blank cells and dates.
---
 commonxl/cell.go | 59 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 7385e48..68c9113 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -321,35 +321,60 @@ func (c *Cell) SetFormatNumber(f uint16) {
 	}
 }
 
+// number returns the numeric value (int64 or float64) of the cell or its text.
+func (c Cell) number() (interface{}, bool) {
+	switch v := c.Value().(type) {
+	case int64, float64:
+		return v, true
+	case bool:
+		if v {
+			return int64(1), true
+		}
+		return int64(0), true
+	case string:
+		if n, err := strconv.ParseInt(v, 10, 64); err == nil {
+			return n, true
+		}
+		n, err := strconv.ParseFloat(v, 64)
+		return n, err == nil
+	}
+	return nil, false
+}
+
+// Equal returns true if the cells have the same value. Numbers may also be
+// compared to their text.
 func (c Cell) Equal(other Cell) bool {
 	if c.Type() == FloatCell || other.Type() == FloatCell ||
 		c.Type() == IntegerCell || other.Type() == IntegerCell {
-		v1, ok := c[0].(float64)
-		v1x, okx := c[0].(int64)
-		if okx {
-			v1 = float64(v1x)
-			ok = true
-		}
-		if !ok {
-			fmt.Sscanf(fmt.Sprint(c[0]), "%g", &v1)
+		v1, ok1 := c.number()
+		v2, ok2 := other.number()
+		if !ok1 || !ok2 {
+			return false
 		}
-		v2, ok := other[0].(float64)
-		v2x, okx := other[0].(int64)
-		if okx {
-			v2 = float64(v2x)
-			ok = true
+		i1, int1 := v1.(int64)
+		i2, int2 := v2.(int64)
+		f1, _ := convertToFloat64(v1)
+		f2, _ := convertToFloat64(v2)
+		if int1 == int2 {
+			return i1 == i2 && f1 == f2
 		}
-		if !ok {
-			fmt.Sscanf(fmt.Sprint(c[0]), "%g", &v2)
+		// compare without losing the low digits of the integer
+		if int2 {
+			i1, f1, f2 = i2, f2, f1
 		}
-		return v1 == v2
+		return f1 == f2 && math.Abs(f2) < math.MaxInt64 && i1 == int64(f2)
+	}
+	if c.Type() == DateCell || other.Type() == DateCell {
+		t1, ok1 := c.Value().(time.Time)
+		t2, ok2 := other.Value().(time.Time)
+		return ok1 && ok2 && t1.Equal(t2)
 	}
 
 	return c.Less(other) == other.Less(c)
 }
 
 func (c Cell) Less(other Cell) bool {
-	if len(c) == 0 {
+	if len(c) == 0 || len(other) == 0 {
 		return false
 	}
 	switch v1 := c[0].(type) {
-- 
2.43.0


From e93c353d1035e7f68b888dd8e3afe6647891297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:13 +0000
Subject: [PATCH 09/62] fix: commonxl: big uint values no longer turn negative

---
 commonxl/cell.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 68c9113..4b32a76 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -233,7 +233,7 @@ func NewCell(value interface{}) Cell {
 		c[1] = IntegerCell
 
 	case uint:
-		if int64(v) > int64(math.MaxInt64) {
+		if uint64(v) > math.MaxInt64 {
 			c[0] = float64(v)
 			c[1] = FloatCell
 		} else {
-- 
2.43.0


From cd941218e39c17b0f3facf3844615e05ed534f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 10/62] fix: commonxl: number formats do not alter the stored
 number

A fractional number with an integer format was truncated, and numbers
beyond the integer range became garbage.
---
 commonxl/cell.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 4b32a76..4f22b0e 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -120,6 +120,17 @@ var boolStrings = map[string]bool{
 	"NO": false, "FALSE": false, "F": false, "N": false, "0.0": false, "OFF": false,
 }
 
+// integers up to this magnitude have an exact floating point value.
+const maxExactInt = 1 << 53
+
+// wholeNumber converts to an integer if that does not change the value.
+func wholeNumber(f float64) (int64, bool) {
+	if f != math.Trunc(f) || math.Abs(f) > maxExactInt {
+		return 0, false
+	}
+	return int64(f), true
+}
+
 // NewCellWithType creates a new cell value with the given type, coercing as necessary.
 func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 	c := NewCell(value)
@@ -155,8 +166,11 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 
 	if c[1] == FloatCell {
 		if t == IntegerCell {
-			c[0] = int64(c[0].(float64))
-			c[1] = IntegerCell
+			// only whole numbers, the format must not alter the stored value
+			if i, ok := wholeNumber(c[0].(float64)); ok {
+				c[0] = i
+				c[1] = IntegerCell
+			}
 		} else if t == BooleanCell {
 			c[0] = c[0].(float64) != 0.0
 			c[1] = BooleanCell
@@ -164,8 +178,10 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 	}
 	if c[1] == IntegerCell {
 		if t == FloatCell {
-			c[0] = float64(c[0].(int64))
-			c[1] = FloatCell
+			if f := float64(c[0].(int64)); math.Abs(f) <= maxExactInt {
+				c[0] = f
+				c[1] = FloatCell
+			}
 		} else if t == BooleanCell {
 			c[0] = c[0].(int64) != 0
 			c[1] = BooleanCell
-- 
2.43.0


From 7b83d787cb9a21ea7bd1cbf311a85b512f6b3996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 11/62] fix: commonxl: number and date formats leave text alone

Text in a cell with a number format became 0, text with a date format a
"MUST BE" message, digit grouping was applied to words, and a blank
cell with a text format showed <nil>.
---
 commonxl/cell.go  | 23 ++++++++++++++---------
 commonxl/dates.go |  6 ++++--
 commonxl/fmt.go   | 24 +++++++++++++++++++-----
 3 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 4f22b0e..6714ba0 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -189,29 +189,34 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 	}
 	if c[1] == StringCell {
 		if t == IntegerCell {
-			x, _ := strconv.ParseInt(c[0].(string), 10, 64)
-			c[0] = x
-			c[1] = IntegerCell
+			x, err := strconv.ParseInt(c[0].(string), 10, 64)
+			if err == nil {
+				c[0] = x
+				c[1] = IntegerCell
+			}
 		} else if t == FloatCell {
-			x, _ := strconv.ParseFloat(c[0].(string), 64)
-			c[0] = x
-			c[1] = FloatCell
+			x, ok := parseNumber(c[0].(string))
+			if ok {
+				c[0] = x
+				c[1] = FloatCell
+			}
 		} else if t == BooleanCell {
 			c[0] = boolStrings[c[0].(string)]
 			c[1] = BooleanCell
 		}
 	}
-	if t == StringCell {
-		c[0] = fmt.Sprint(c[0])
+	if t == StringCell && c[1] != BlankCell {
+		c[0] = identFunc(f, c[0])
 		c[1] = StringCell
 	}
 	if t == DateCell {
 		if c[1] == FloatCell {
 			c[0] = f.ConvertToDate(c[0].(float64))
+			c[1] = DateCell
 		} else if c[1] == IntegerCell {
 			c[0] = f.ConvertToDate(float64(c[0].(int64)))
+			c[1] = DateCell
 		}
-		c[1] = DateCell
 	}
 	return c
 }
diff --git a/commonxl/dates.go b/commonxl/dates.go
index dad6ae9..31fa91b 100644
--- a/commonxl/dates.go
+++ b/commonxl/dates.go
@@ -50,7 +50,8 @@ func timeFmtFunc(f string) FmtFunc {
 		if !ok {
 			fval, ok := convertToFloat64(v)
 			if !ok {
-				return "MUST BE time.Time OR numeric TO FORMAT CORRECTLY"
+				// text is not affected by date formats
+				return identFunc(x, v)
 			}
 			t = x.ConvertToDate(fval)
 		}
@@ -67,7 +68,8 @@ func cnTimeFmtFunc(f string) FmtFunc {
 		if !ok {
 			fval, ok := convertToFloat64(v)
 			if !ok {
-				return "MUST BE time.Time OR numeric TO FORMAT CORRECTLY"
+				// text is not affected by date formats
+				return identFunc(x, v)
 			}
 			t = x.ConvertToDate(fval)
 		}
diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index f99e01b..4a0cb0d 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -24,7 +24,7 @@ func surround(pre string, ff FmtFunc, post string) FmtFunc {
 func addNegParens(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		s1 := ff(x, v)
-		if s1[0] == '-' {
+		if _, ok := convertToFloat64(v); ok && strings.HasPrefix(s1, "-") {
 			return "(" + s1[1:] + ")"
 		}
 		return s1
@@ -34,8 +34,12 @@ func addNegParens(ff FmtFunc) FmtFunc {
 func addCommas(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		s1 := ff(x, v)
+		if _, ok := convertToFloat64(v); !ok {
+			// text is not affected by number formats
+			return s1
+		}
 		isNeg := false
-		if s1[0] == '-' {
+		if strings.HasPrefix(s1, "-") {
 			isNeg = true
 			s1 = s1[1:]
 		}
@@ -139,13 +143,22 @@ func convertToFloat64(v interface{}) (float64, bool) {
 	case float32:
 		return float64(val), true
 	case string:
-		nf, err := strconv.ParseFloat(val, 64)
-		return nf, err == nil
+		return parseNumber(val)
 	default:
 		return 0.0, false
 	}
 }
 
+// parseNumber accepts decimal numbers only (not names such as "inf" or "nan",
+// nor hexadecimal digits), everything else is text.
+func parseNumber(s string) (float64, bool) {
+	if strings.Trim(s, "0123456789+-.eE") != "" {
+		return 0.0, false
+	}
+	nf, err := strconv.ParseFloat(s, 64)
+	return nf, err == nil
+}
+
 // replaces a zero with a dash
 func zeroDashFunc(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
@@ -165,7 +178,8 @@ func fracFmtFunc(n int) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		f, ok := convertToFloat64(v)
 		if !ok {
-			return "MUST BE numeric TO FORMAT CORRECTLY"
+			// text is not affected by number formats
+			return identFunc(x, v)
 		}
 		w, n, d := DecimalToWholeFraction(f, n, n)
 		if n == 0 {
-- 
2.43.0


From 8d6a5f1b3ba7ff6652968b0d90baa623a2677a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 12/62] fix: commonxl: percent and integer formats scale and
 round every number

---
 commonxl/fmt.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 4a0cb0d..df9b198 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -2,6 +2,8 @@ package commonxl
 
 import (
 	"fmt"
+	"math"
+	"math/big"
 	"strconv"
 	"strings"
 )
@@ -89,21 +91,30 @@ func identFunc(x *Formatter, v interface{}) string {
 
 func sprintfFunc(fs string, mul int) FmtFunc {
 	wantInt64 := strings.Contains(fs, "%d")
+	ffs := strings.Replace(fs, "%d", "%.0f", 1)
 	return func(x *Formatter, v interface{}) string {
 		switch val := v.(type) {
 		case int, uint, int64, uint64, int32, uint32, uint16, int16:
-			return fmt.Sprintf(fs, v)
+			if wantInt64 && mul == 1 {
+				return fmt.Sprintf(fs, v)
+			}
+			fval, _ := convertToFloat64(v)
+			return formatScaled(ffs, fval, mul)
 
 		case float64:
-			val *= float64(mul)
-			if wantInt64 {
-				v2 := int64(val)
-				return fmt.Sprintf(fs, v2)
-			}
-			return fmt.Sprintf(fs, val)
+			return formatScaled(ffs, val, mul)
 		}
-		return fmt.Sprint(v)
+		return identFunc(x, v)
+	}
+}
+
+// formatScaled applies a Printf format to val*mul, without rounding the product.
+func formatScaled(fs string, val float64, mul int) string {
+	if mul == 1 || math.IsNaN(val) || math.IsInf(val, 0) {
+		return fmt.Sprintf(fs, val)
 	}
+	prod := new(big.Float).SetPrec(128).SetFloat64(val)
+	return fmt.Sprintf(fs, prod.Mul(prod, big.NewFloat(float64(mul))))
 }
 
 func convertToInt64(v interface{}) (int64, bool) {
-- 
2.43.0


From 0645eed640c98df3960e75c662ffd8cdefef20f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 13/62] fix: commonxl: negative sections show their own sign
 only, tiny fractions

---
 commonxl/fmt.go     | 16 +++++++++++++++-
 commonxl/numbers.go |  8 +++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index df9b198..33d36bd 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -206,6 +206,19 @@ func fracFmtFunc(n int) FmtFunc {
 	}
 }
 
+// formats numbers without their sign
+func absFunc(ff FmtFunc) FmtFunc {
+	return func(x *Formatter, v interface{}) string {
+		if i, ok := v.(int64); ok && i < 0 && i != math.MinInt64 {
+			return ff(x, -i)
+		}
+		if fval, ok := convertToFloat64(v); ok && fval < 0.0 {
+			return ff(x, -fval)
+		}
+		return ff(x, v)
+	}
+}
+
 // handle (up to) all four format cases:
 // positive;negative;zero;other
 func switchFmtFunc(pos FmtFunc, others ...FmtFunc) FmtFunc {
@@ -213,7 +226,8 @@ func switchFmtFunc(pos FmtFunc, others ...FmtFunc) FmtFunc {
 	zeroFF := pos
 	negFF := pos
 	if len(others) > 0 {
-		negFF = others[0]
+		// the negative section supplies its own sign
+		negFF = absFunc(others[0])
 		if len(others) > 1 {
 			zeroFF = others[1]
 			if len(others) > 2 {
diff --git a/commonxl/numbers.go b/commonxl/numbers.go
index c3df4c2..6aec77b 100644
--- a/commonxl/numbers.go
+++ b/commonxl/numbers.go
@@ -29,7 +29,8 @@ func DecimalToFraction(val float64, nn, nd int) (num, den int) {
 	z := val
 	if val < 0 {
 		sign = -1
-		z = -val
+		val = -val
+		z = val
 	}
 	if nn == 0 {
 		nn = 2
@@ -45,10 +46,7 @@ func DecimalToFraction(val float64, nn, nd int) (num, den int) {
 		return int(z) * sign, 1
 	}
 	if fracPart < 1e-9 {
-		return sign, int(1e9)
-	}
-	if fracPart > 1e9 {
-		return int(1e9) * sign, 1
+		return int(z) * sign, 1
 	}
 
 	diff := 1.0
-- 
2.43.0


From 7befbce22610912e7578f7ffb028f9e6f72f2131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 14/62] fix: commonxl: values with unknown number formats show
 like General

---
 commonxl/formats.go | 1 +
 commonxl/sheet.go   | 7 ++-----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 49b58a9..87ce3f3 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -219,6 +219,7 @@ func (x *Formatter) Apply(fmtID uint16, val interface{}) (string, bool) {
 		if ok2 {
 			return fs(x, val), true
 		}
+		ff = identFunc
 	}
 	return ff(x, val), ok
 }
diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 574dfd9..3230188 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -167,11 +167,8 @@ func (s *Sheet) Strings() []string {
 			continue
 		}
 		val := cell.Value()
-		fs, ok := s.Formatter.Apply(cell.FormatNo(), val)
-		if !ok {
-			fs = fmt.Sprint(val)
-		}
-		res[i] = fs
+		// unknown formats are shown like General
+		res[i], _ = s.Formatter.Apply(cell.FormatNo(), val)
 	}
 	return res
 }
-- 
2.43.0


From 9100898f8f9047c834ed09060257a2ebb550aae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 15/62] fix: commonxl: custom and builtin formats show the
 right digits and dates

---
 commonxl/dates.go   |  29 ++-
 commonxl/fmt.go     |  44 ++--
 commonxl/formats.go | 136 +----------
 commonxl/parse.go   | 536 ++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 591 insertions(+), 154 deletions(-)
 create mode 100644 commonxl/parse.go

diff --git a/commonxl/dates.go b/commonxl/dates.go
index 31fa91b..d9ffd74 100644
--- a/commonxl/dates.go
+++ b/commonxl/dates.go
@@ -31,8 +31,7 @@ func (x *Formatter) ConvertToDate(val float64) time.Time {
 		month := time.Month(J + 2 - 12*L)
 		year := 100*(N-49) + I + L
 
-		t := time.Duration(float64(time.Hour*24) * frac)
-		return time.Date(year, month, day, 0, 0, 0, 0, time.UTC).Add(t)
+		return time.Date(year, month, day, 0, 0, 0, 0, time.UTC).Add(dayFraction(frac))
 	}
 	frac := val - float64(v)
 	date := time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC)
@@ -40,8 +39,30 @@ func (x *Formatter) ConvertToDate(val float64) time.Time {
 		date = time.Date(1899, 12, 30, 0, 0, 0, 0, time.UTC)
 	}
 
-	t := time.Duration(float64(time.Hour*24) * frac)
-	return date.AddDate(0, 0, v).Add(t)
+	return date.AddDate(0, 0, v).Add(dayFraction(frac))
+}
+
+// dayFraction converts to the time of day. Serial dates are not more precise
+// than a fraction of a millisecond.
+func dayFraction(frac float64) time.Duration {
+	return time.Duration(float64(time.Hour*24) * frac).Round(time.Millisecond)
+}
+
+// elapsedFmtFunc shows all hours since the first date before the rest.
+func elapsedFmtFunc(f string) FmtFunc {
+	rest := timeFmtFunc(f)
+	return func(x *Formatter, v interface{}) string {
+		t, ok := v.(time.Time)
+		if !ok {
+			fval, ok := convertToFloat64(v)
+			if !ok {
+				// text is not affected by date formats
+				return identFunc(x, v)
+			}
+			t = x.ConvertToDate(fval)
+		}
+		return x.elapsed(t, "h") + rest(x, t)
+	}
 }
 
 func timeFmtFunc(f string) FmtFunc {
diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 33d36bd..4ae121a 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -263,23 +263,23 @@ var goFormatters = map[uint16]FmtFunc{
 	21: timeFmtFunc(`15:04:05`),
 	22: timeFmtFunc(`1/2/06 15:04`),
 	45: timeFmtFunc(`04:05`),
-	46: timeFmtFunc(`3:04:05`),
-	47: timeFmtFunc(`0405.9`),
-	27: timeFmtFunc(`2006"年"1"月"`),
-	28: timeFmtFunc(`1"月"2"日"`),
-	29: timeFmtFunc(`1"月"2"日"`),
+	46: elapsedFmtFunc(`:04:05`),
+	47: timeFmtFunc(`0405.0`),
+	27: timeFmtFunc(`2006年1月`),
+	28: timeFmtFunc(`1月2日`),
+	29: timeFmtFunc(`1月2日`),
 	30: timeFmtFunc(`1-2-06`),
-	31: timeFmtFunc(`2006"年"1"月"2"日"`),
-	32: timeFmtFunc(`15"时"04"分"`),
-	33: timeFmtFunc(`15"时"04"分"05"秒"`),
-	36: timeFmtFunc(`2006"年"2"月"`),
-	50: timeFmtFunc(`2006"年"2"月"`),
-	51: timeFmtFunc(`1"月"2"日"`),
-	52: timeFmtFunc(`2006"年"1"月"`),
-	53: timeFmtFunc(`1"月"2"日"`),
-	54: timeFmtFunc(`1"月"2"日"`),
-	57: timeFmtFunc(`2006"年"1"月"`),
-	58: timeFmtFunc(`1"月"2"日"`),
+	31: timeFmtFunc(`2006年1月2日`),
+	32: timeFmtFunc(`15时04分`),
+	33: timeFmtFunc(`15时04分05秒`),
+	36: timeFmtFunc(`2006年1月`),
+	50: timeFmtFunc(`2006年1月`),
+	51: timeFmtFunc(`1月2日`),
+	52: timeFmtFunc(`2006年1月`),
+	53: timeFmtFunc(`1月2日`),
+	54: timeFmtFunc(`1月2日`),
+	57: timeFmtFunc(`2006年1月`),
+	58: timeFmtFunc(`1月2日`),
 	71: timeFmtFunc(`2/1/2006`),
 	72: timeFmtFunc(`2-Jan-06`),
 	73: timeFmtFunc(`2-Jan`),
@@ -288,16 +288,16 @@ var goFormatters = map[uint16]FmtFunc{
 	76: timeFmtFunc(`15:04:05`),
 	77: timeFmtFunc(`2/1/2006 15:04`),
 	78: timeFmtFunc(`04:05`),
-	79: timeFmtFunc(`15:04:05`),
-	80: timeFmtFunc(`04:05.9`),
+	79: elapsedFmtFunc(`:04:05`),
+	80: timeFmtFunc(`04:05.0`),
 	81: timeFmtFunc(`2/1/06`),
 	18: timeFmtFunc(`3:04 PM`),
 	19: timeFmtFunc(`3:04:05 PM`),
 
-	34: cnTimeFmtFunc(`PM 3"时"04"分"`),
-	35: cnTimeFmtFunc(`PM 3"时"04"分"05"秒"`),
-	55: cnTimeFmtFunc(`PM 3"时"04"分"`),
-	56: cnTimeFmtFunc(`PM 3"时"04"分"05"秒`),
+	34: cnTimeFmtFunc(`PM 3时04分`),
+	35: cnTimeFmtFunc(`PM 3时04分05秒`),
+	55: cnTimeFmtFunc(`PM 3时04分`),
+	56: cnTimeFmtFunc(`PM 3时04分05秒`),
 
 	12: fracFmtFunc(1),
 	13: fracFmtFunc(2),
diff --git a/commonxl/formats.go b/commonxl/formats.go
index 87ce3f3..0d9faf4 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -2,8 +2,6 @@ package commonxl
 
 import (
 	"errors"
-	"fmt"
-	"regexp"
 	"strings"
 )
 
@@ -63,136 +61,18 @@ func (x *Formatter) getCellType(fmtID uint16) (CellType, bool) {
 	return 0, false
 }
 
-var (
-	minsMatch = regexp.MustCompile("h.*m.*s")
-	nonEsc    = regexp.MustCompile(`([^"]|^)"`)
-	squash    = regexp.MustCompile(`[*_].`)
-	fixEsc    = regexp.MustCompile(`\\(.)`)
-
-	formatMatchBrackets    = regexp.MustCompile(`\[[^\]]*\]`)
-	formatMatchTextLiteral = regexp.MustCompile(`"[^"]*"`)
-)
-
 func makeFormatter(s string) (FmtFunc, CellType) {
 	//log.Printf("makeFormatter('%s')", s)
-	// remove any coloring marks
-	s = formatMatchBrackets.ReplaceAllString(s, "")
-	if strings.Contains(s, ";") {
-		parts := strings.Split(s, ";")
-		posFF, ctypePos := makeFormatter(parts[0])
-		rem := make([]FmtFunc, len(parts)-1)
-		for i, ps := range parts[1:] {
-			rem[i], _ = makeFormatter(ps)
-		}
-		return switchFmtFunc(posFF, rem...), ctypePos
+	sections := parseFormat(s)
+	posFF, ctypePos := sections[0].formatter()
+	if len(sections) == 1 {
+		return posFF, ctypePos
 	}
-
-	// escaped characters, and quoted text
-	s2 := fixEsc.ReplaceAllString(s, "")
-	s2 = formatMatchTextLiteral.ReplaceAllString(s, "")
-
-	if strings.ContainsAny(s2, "ymdhs") {
-		// it's a date/time format
-
-		if loc := minsMatch.FindStringIndex(s); loc != nil {
-			// m or mm in loc[0]:loc[1] is a minute format
-			inner := s[loc[0]:loc[1]]
-			inner = strings.Replace(inner, "mm", "04", 1)
-			inner = strings.Replace(inner, "m", "4", 1)
-			s = s[:loc[0]] + inner + s[loc[1]:]
-		}
-		dfreps := [][]string{
-			{"hh", "15"}, {"h", "15"},
-			{"ss", "05"}, {"s", "5"},
-			{"mmmmm", "Jan"}, // super ambiguous, replace with 3-letter month
-			{"mmmm", "January"}, {"mmm", "Jan"},
-			{"mm", "01"}, {"m", "1"},
-			{"dddd", "Monday"}, {"ddd", "Mon"},
-			{"dd", "02"}, {"d", "2"},
-			{"yyyy", "2006"}, {"yy", "06"},
-		}
-		if strings.Contains(s, "AM") || strings.Contains(s, "PM") {
-			dfreps[0][1] = "03"
-			dfreps[1][1] = "3"
-		}
-		for _, dfr := range dfreps {
-			s = strings.Replace(s, dfr[0], dfr[1], 1)
-		}
-
-		s = nonEsc.ReplaceAllString(s, `$1`)
-		s = squash.ReplaceAllString(s, ``)
-		s = fixEsc.ReplaceAllString(s, `$1`)
-
-		//log.Printf("   made time formatter '%s'", s)
-		return timeFmtFunc(s), DateCell
+	rem := make([]FmtFunc, len(sections)-1)
+	for i, sec := range sections[1:] {
+		rem[i], _ = sec.formatter()
 	}
-
-	var ff FmtFunc
-	var ctype CellType
-	if strings.ContainsAny(s, ".Ee") {
-		verb := "f"
-		if strings.ContainsAny(s, "Ee") {
-			verb = "E"
-		}
-		s = regexp.MustCompile("[eE]+[+-]0+").ReplaceAllString(s, "")
-		s2 := strings.ReplaceAll(s, ",", "")
-		i1 := strings.IndexAny(s2, "0")
-		i2 := strings.IndexByte(s2, '.')
-		i3 := strings.LastIndexAny(s2, "0.")
-		mul := 1
-		if strings.Contains(s2, "%") {
-			mul = 100
-		}
-		sf := fmt.Sprintf("%%%d.%d%s", i3-i1, i3-i2, verb)
-		//log.Printf("   made float formatter '%s'", sf)
-		ff = sprintfFunc(sf, mul)
-		ctype = FloatCell
-	} else {
-		s2 := strings.ReplaceAll(s, ",", "")
-		i1 := strings.IndexAny(s2, "0")
-		i2 := strings.LastIndexAny(s2, "0.")
-		mul := 1
-		if strings.Contains(s2, "%") {
-			mul = 100
-		}
-		sf := fmt.Sprintf("%%%dd", i2-i1)
-		if (i2 - i1) == 0 {
-			sf = "%d"
-		}
-		//log.Printf("   made int formatter '%s'", sf)
-		ff = sprintfFunc(sf, mul)
-		ctype = IntegerCell
-	}
-
-	if strings.Contains(s, ",") {
-		ff = addCommas(ff)
-		//log.Printf("   added commas")
-	}
-
-	surReg := regexp.MustCompile(`[0#?,.]+`)
-	prepost := surReg.Split(s, 2)
-	if len(prepost) > 0 && len(prepost[0]) > 0 {
-		prepost[0] = nonEsc.ReplaceAllString(prepost[0], `$1`)
-		prepost[0] = squash.ReplaceAllString(prepost[0], ``)
-		prepost[0] = fixEsc.ReplaceAllString(prepost[0], `$1`)
-	}
-	if len(prepost) == 1 {
-		if prepost[0] == "@" {
-			return identFunc, StringCell
-		}
-		//log.Printf("   added static ('%s')", prepost[0])
-		return staticFmtFunc(prepost[0]), StringCell
-	}
-	if len(prepost[0]) > 0 || len(prepost[1]) > 0 {
-		prepost[1] = nonEsc.ReplaceAllString(prepost[1], `$1`)
-		prepost[1] = squash.ReplaceAllString(prepost[1], ``)
-		prepost[1] = fixEsc.ReplaceAllString(prepost[1], `$1`)
-
-		ff = surround(prepost[0], ff, prepost[1])
-		//log.Printf("   added surround ('%s' ... '%s')", prepost[0], prepost[1])
-	}
-
-	return ff, ctype
+	return switchFmtFunc(posFF, rem...), ctypePos
 }
 
 // Get the number format func to use for formatting values,
diff --git a/commonxl/parse.go b/commonxl/parse.go
new file mode 100644
index 0000000..ca2d73e
--- /dev/null
+++ b/commonxl/parse.go
@@ -0,0 +1,536 @@
+package commonxl
+
+import (
+	"fmt"
+	"math"
+	"math/big"
+	"strconv"
+	"strings"
+	"time"
+)
+
+// tokenKind classifies the parts of a number format code.
+type tokenKind int
+
+const (
+	literalToken tokenKind = iota // text to show as is
+	digitToken                    // one of the placeholders 0 # ?
+	pointToken                    // decimal point
+	commaToken                    // thousands separator or scaling
+	percentToken                  // %
+	expToken                      // E+00, the text includes the digit placeholders
+	slashToken                    // / in fractions
+	textToken                     // @
+	generalToken                  // General
+	dateToken                     // a run of y, m, d, h or s, seconds with their decimals
+	ampmToken                     // AM/PM, A/P or a translation
+	elapsedToken                  // a run of h, m or s in brackets
+)
+
+type fmtToken struct {
+	kind tokenKind
+	text string
+}
+
+// formatSection is one of the parts of a format code separated by semicolons.
+type formatSection []fmtToken
+
+// keyword returns the kind and length of the special word rs starts with.
+func keyword(rs []rune) (tokenKind, int) {
+	hasPrefix := func(word string) bool {
+		n := len([]rune(word))
+		return len(rs) >= n && strings.EqualFold(string(rs[:n]), word)
+	}
+	switch {
+	case hasPrefix("General"):
+		return generalToken, 7
+	case hasPrefix("AM/PM"), hasPrefix("上午/下午"):
+		return ampmToken, 5
+	case hasPrefix("A/P"):
+		return ampmToken, 3
+	}
+	return literalToken, 0
+}
+
+// parseFormat splits a format code into tokens. Conditions and colors are
+// dropped, as are the characters which only control the width of the output.
+func parseFormat(s string) []formatSection {
+	var res []formatSection
+	var sec formatSection
+
+	add := func(kind tokenKind, text string) {
+		sec = append(sec, fmtToken{kind, text})
+	}
+
+	rs := []rune(s)
+	for i := 0; i < len(rs); i++ {
+		c := rs[i]
+		switch {
+		case c == ';':
+			res = append(res, sec)
+			sec = nil
+			continue
+		case c == '"':
+			j := i + 1
+			for j < len(rs) && rs[j] != '"' {
+				j++
+			}
+			add(literalToken, string(rs[i+1:j]))
+			i = j
+			continue
+		case c == '\\':
+			if i++; i < len(rs) {
+				add(literalToken, string(rs[i]))
+			}
+			continue
+		case c == '_' || c == '*':
+			// space or fill of the width of the next character
+			i++
+			continue
+		case c == '[':
+			j := i + 1
+			for j < len(rs) && rs[j] != ']' {
+				j++
+			}
+			code := strings.ToLower(string(rs[i+1 : j]))
+			if code != "" && strings.Trim(code, code[:1]) == "" && strings.Contains("hms", code[:1]) {
+				add(elapsedToken, code)
+			}
+			i = j
+			continue
+		}
+
+		if kind, n := keyword(rs[i:]); n > 0 {
+			add(kind, string(rs[i:i+n]))
+			i += n - 1
+			continue
+		}
+
+		switch c {
+		case '0', '#', '?':
+			add(digitToken, string(c))
+		case '.':
+			// decimals of the seconds
+			n := 0
+			for i+1+n < len(rs) && rs[i+1+n] == '0' {
+				n++
+			}
+			if k := len(sec) - 1; k >= 0 && n > 0 && sec[k].text[:1] == "s" &&
+				(sec[k].kind == dateToken || sec[k].kind == elapsedToken) {
+				sec[k].text += string(rs[i : i+1+n])
+				i += n
+			} else {
+				add(pointToken, ".")
+			}
+		case ',':
+			add(commaToken, ",")
+		case '%':
+			add(percentToken, "%")
+		case '/':
+			add(slashToken, "/")
+		case '@':
+			add(textToken, "@")
+		case 'E', 'e':
+			j := i + 1
+			if j < len(rs) && (rs[j] == '+' || rs[j] == '-') {
+				for j++; j < len(rs) && (rs[j] == '0' || rs[j] == '#' || rs[j] == '?'); {
+					j++
+				}
+				add(expToken, string(rs[i:j]))
+				i = j - 1
+			} else {
+				add(literalToken, string(c))
+			}
+		case 'y', 'm', 'd', 'h', 's', 'Y', 'M', 'D', 'H', 'S':
+			j := i + 1
+			for j < len(rs) && strings.EqualFold(string(rs[j]), string(c)) {
+				j++
+			}
+			add(dateToken, strings.ToLower(string(rs[i:j])))
+			i = j - 1
+		default:
+			add(literalToken, string(c))
+		}
+	}
+	return append(res, sec)
+}
+
+// has returns true if any of the tokens is one of the kinds.
+func (sec formatSection) has(kinds ...tokenKind) bool {
+	for _, t := range sec {
+		for _, k := range kinds {
+			if t.kind == k {
+				return true
+			}
+		}
+	}
+	return false
+}
+
+// formatter returns the function to format values for the section, and the
+// type of the values (BlankCell means they can have any type).
+func (sec formatSection) formatter() (FmtFunc, CellType) {
+	switch {
+	case sec.has(dateToken, elapsedToken, ampmToken):
+		return sec.dateFormatter(), DateCell
+	case sec.has(textToken):
+		ff := sec.affixFormatter(textToken)
+		if len(sec) == 1 {
+			return ff, StringCell
+		}
+		return ff, BlankCell
+	case sec.has(generalToken):
+		return sec.affixFormatter(generalToken), BlankCell
+	case sec.has(digitToken):
+		return sec.numberFormatter()
+	}
+
+	s := sec.text()
+	return func(x *Formatter, v interface{}) string {
+		if _, ok := convertToFloat64(v); !ok {
+			// text is not affected by number formats
+			return identFunc(x, v)
+		}
+		return s
+	}, BlankCell
+}
+
+// text returns the text of all tokens.
+func (sec formatSection) text() string {
+	sb := &strings.Builder{}
+	for _, t := range sec {
+		sb.WriteString(t.text)
+	}
+	return sb.String()
+}
+
+// affixFormatter shows the text around a placeholder for the whole value.
+func (sec formatSection) affixFormatter(kind tokenKind) FmtFunc {
+	i := 0
+	for sec[i].kind != kind {
+		i++
+	}
+	pre, post := sec[:i].text(), sec[i+1:].text()
+	return func(x *Formatter, v interface{}) string {
+		s := identFunc(x, v)
+		if _, isText := v.(string); isText != (kind == textToken) {
+			return s
+		}
+		if kind == generalToken && strings.HasPrefix(s, "-") {
+			return "-" + pre + s[1:] + post
+		}
+		return pre + s + post
+	}
+}
+
+// numberFormat describes how to show the digits of a number.
+type numberFormat struct {
+	parts    []fmtToken // only literals, digits, the decimal point and exponent
+	nInt     int        // digit placeholders of the integer part
+	minInt   int        // digits of the integer part which are always shown
+	nDec     int        // digit placeholders of the decimals
+	minDec   int        // decimals which are always shown
+	grouping bool       // use thousands separators
+	hasExp   bool
+	spaces   bool // all placeholders are ? (spaces instead of zeros)
+	scale    int  // power of ten to multiply by
+}
+
+// numberFormatter shows the digits of numbers at the digit placeholders.
+func (sec formatSection) numberFormatter() (FmtFunc, CellType) {
+	nf := &numberFormat{spaces: true}
+	ctype := IntegerCell
+	hasPoint, slash := false, -1
+	commas, zeros := 0, false
+	for i, t := range sec {
+		switch t.kind {
+		case digitToken:
+			nf.spaces = nf.spaces && t.text == "?"
+			if hasPoint {
+				nf.nDec++
+				if t.text == "0" {
+					nf.minDec = nf.nDec
+				}
+			} else if !nf.hasExp {
+				if commas > 0 {
+					nf.grouping = true
+					commas = 0
+				}
+				nf.nInt++
+				zeros = zeros || t.text == "0"
+				if zeros {
+					nf.minInt++
+				}
+			}
+			if slash >= 0 {
+				n := sec[slash:].digits()
+				if n > 9 {
+					n = 9
+				}
+				return fracFmtFunc(n), FloatCell
+			}
+		case pointToken:
+			if hasPoint {
+				t.kind = literalToken
+			}
+			hasPoint = true
+		case commaToken:
+			if nf.nInt+nf.nDec > 0 {
+				commas++
+				continue
+			}
+			t.kind = literalToken
+		case percentToken:
+			nf.scale += 2
+			t.kind = literalToken
+		case expToken:
+			if nf.hasExp {
+				t.kind = literalToken
+			}
+			nf.hasExp = true
+		case slashToken:
+			if nf.nInt > 0 && !hasPoint && strings.Trim(sec[i-1].text, "?#0") == "" {
+				slash = i
+			}
+			t.kind = literalToken
+		}
+		nf.parts = append(nf.parts, t)
+	}
+	nf.scale -= 3 * commas
+	if nf.scale > 300 {
+		nf.scale = 300
+	} else if nf.scale < -300 {
+		nf.scale = -300
+	}
+
+	if hasPoint || nf.hasExp || nf.scale != 0 {
+		ctype = FloatCell
+	}
+	return nf.format, ctype
+}
+
+// digits returns the number of digit placeholders.
+func (sec formatSection) digits() int {
+	n := 0
+	for _, t := range sec {
+		if t.kind == digitToken {
+			n++
+		}
+	}
+	return n
+}
+
+// timesPow10 returns f*10^n
+func timesPow10(f *big.Float, n int) *big.Float {
+	ten := big.NewInt(10)
+	if n < 0 {
+		p := new(big.Int).Exp(ten, big.NewInt(int64(-n)), nil)
+		return new(big.Float).SetPrec(256).Quo(f, new(big.Float).SetInt(p))
+	}
+	p := new(big.Int).Exp(ten, big.NewInt(int64(n)), nil)
+	return new(big.Float).SetPrec(256).Mul(f, new(big.Float).SetInt(p))
+}
+
+func (nf *numberFormat) format(x *Formatter, v interface{}) string {
+	f := new(big.Float).SetPrec(256)
+	switch val := v.(type) {
+	case string, bool:
+		// not affected by number formats
+		return identFunc(x, v)
+	case int64:
+		f.SetInt64(val)
+	default:
+		fval, ok := convertToFloat64(v)
+		if !ok || math.IsNaN(fval) || math.IsInf(fval, 0) {
+			return identFunc(x, v)
+		}
+		f.SetFloat64(fval)
+	}
+	isNeg := f.Sign() < 0
+	f = timesPow10(f.Abs(f), nf.scale)
+
+	exp := 0
+	num := ""
+	if nf.hasExp && f.Sign() != 0 {
+		width := nf.nInt
+		if width < 1 {
+			width = 1
+		}
+		s := f.Text('e', 40)
+		exp, _ = strconv.Atoi(s[strings.IndexByte(s, 'e')+1:])
+		exp -= (exp%width + width) % width
+		num = timesPow10(f, -exp).Text('f', nf.nDec)
+		if strings.IndexByte(num+".", '.') > width {
+			// rounded up to the next power of ten
+			exp += width
+			num = timesPow10(f, -exp).Text('f', nf.nDec)
+		}
+	} else {
+		num = f.Text('f', nf.nDec)
+	}
+	if strings.Trim(num, "0.") == "" {
+		isNeg = false
+		if nf.spaces {
+			num = ""
+		}
+	}
+
+	whole, decimals := num, ""
+	if i := strings.IndexByte(num, '.'); i >= 0 {
+		whole, decimals = num[:i], num[i+1:]
+		for len(decimals) > nf.minDec && strings.HasSuffix(decimals, "0") {
+			decimals = decimals[:len(decimals)-1]
+		}
+	}
+	if n := nf.minInt - len(whole); n > 0 {
+		whole = strings.Repeat("0", n) + whole
+	}
+
+	sb := &strings.Builder{}
+	if isNeg {
+		sb.WriteByte('-')
+	}
+	// writes the digits of the integer part up to those which are left
+	writeWhole := func(left int) {
+		for len(whole) > left {
+			sb.WriteByte(whole[0])
+			whole = whole[1:]
+			if nf.grouping && len(whole) > 0 && len(whole)%3 == 0 {
+				sb.WriteByte(',')
+			}
+		}
+	}
+	left := nf.nInt
+	inDecimals := false
+	for _, t := range nf.parts {
+		switch t.kind {
+		case digitToken:
+			if !inDecimals {
+				left--
+				writeWhole(left)
+			} else if len(decimals) > 0 {
+				sb.WriteByte(decimals[0])
+				decimals = decimals[1:]
+			}
+		case pointToken:
+			writeWhole(0)
+			inDecimals = true
+			if len(decimals) > 0 {
+				sb.WriteByte('.')
+			}
+		case expToken:
+			sb.WriteString(t.text[:1])
+			e := exp
+			if e < 0 {
+				sb.WriteByte('-')
+				e = -e
+			} else if t.text[1] == '+' {
+				sb.WriteByte('+')
+			}
+			sb.WriteString(fmt.Sprintf("%0*d", len(t.text)-2, e))
+		default:
+			sb.WriteString(t.text)
+		}
+	}
+	return sb.String()
+}
+
+// dateFormatter shows a date and/or time.
+func (sec formatSection) dateFormatter() FmtFunc {
+	layouts := map[string]string{
+		"y": "06", "yy": "06", "yyy": "2006", "yyyy": "2006",
+		"m": "1", "mm": "01", "mmm": "Jan", "mmmm": "January",
+		"mmmmm": "Jan", // super ambiguous, replace with 3-letter month
+		"d":     "2", "dd": "02", "ddd": "Mon", "dddd": "Monday",
+		"h": "15", "hh": "15",
+		"s": "5", "ss": "05",
+	}
+	if sec.has(ampmToken) {
+		layouts["h"] = "3"
+		layouts["hh"] = "03"
+	}
+
+	parts := make(formatSection, len(sec))
+	copy(parts, sec)
+	codes := []int{} // indexes of dates and times
+	for i, t := range sec {
+		if t.kind == dateToken || t.kind == elapsedToken {
+			codes = append(codes, i)
+		}
+	}
+	for n, i := range codes {
+		t := sec[i]
+		if t.kind == elapsedToken {
+			continue
+		}
+		if t.text == "m" || t.text == "mm" {
+			// minutes come after hours or before seconds
+			if (n > 0 && sec[codes[n-1]].text[0] == 'h') ||
+				(n+1 < len(codes) && sec[codes[n+1]].text[0] == 's') {
+				parts[i].text = map[string]string{"m": "4", "mm": "04"}[t.text]
+				continue
+			}
+		}
+		decimals := ""
+		if p := strings.IndexByte(t.text, '.'); p > 0 {
+			t.text, decimals = t.text[:p], t.text[p:]
+		}
+		layout, ok := layouts[t.text]
+		if !ok {
+			// longer than necessary, use the longest code
+			if layout, ok = layouts[strings.Repeat(t.text[:1], 4)]; !ok {
+				layout = layouts[strings.Repeat(t.text[:1], 2)]
+			}
+		}
+		parts[i].text = layout + decimals
+	}
+
+	return func(x *Formatter, v interface{}) string {
+		t, ok := v.(time.Time)
+		if !ok {
+			fval, ok := convertToFloat64(v)
+			if _, isBool := v.(bool); isBool || !ok {
+				// text is not affected by date formats
+				return identFunc(x, v)
+			}
+			t = x.ConvertToDate(fval)
+		}
+		sb := &strings.Builder{}
+		for _, p := range parts {
+			switch p.kind {
+			case dateToken:
+				sb.WriteString(t.Format(p.text))
+			case elapsedToken:
+				sb.WriteString(x.elapsed(t, p.text))
+			case ampmToken:
+				choices := strings.SplitN(p.text, "/", 2)
+				if t.Hour() < 12 {
+					sb.WriteString(choices[0])
+				} else {
+					sb.WriteString(choices[1])
+				}
+			default:
+				sb.WriteString(p.text)
+			}
+		}
+		return sb.String()
+	}
+}
+
+// elapsed returns the number of hours, minutes or seconds since the first date.
+func (x *Formatter) elapsed(t time.Time, code string) string {
+	n := t.Unix() - x.ConvertToDate(0).Unix()
+	switch code[0] {
+	case 'h':
+		n /= 3600
+	case 'm':
+		n /= 60
+	}
+	decimals := ""
+	width := len(code)
+	if p := strings.IndexByte(code, '.'); p > 0 {
+		decimals = t.Format(code[p:])
+		width = p
+	}
+	return fmt.Sprintf("%0*d", width, n) + decimals
+}
-- 
2.43.0


From 42b8447d2258a6dd0b2c66c335bee8c101a0722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 16/62] fix: xls: bounds checks for strings and hyperlinks,
 internal links have no target

---
 xls/hyperlinks.go | 91 +++++++++++++++++++++++++++++++----------------
 xls/strings.go    | 62 ++++++++++++++++++++++++--------
 2 files changed, 108 insertions(+), 45 deletions(-)

diff --git a/xls/hyperlinks.go b/xls/hyperlinks.go
index 894bd45..0c3c0b8 100644
--- a/xls/hyperlinks.go
+++ b/xls/hyperlinks.go
@@ -8,7 +8,33 @@ import (
 	"unicode/utf16"
 )
 
+var errShortHyperlink = errors.New("xls: hyperlink data is too short")
+
+// decodeHyperlinkString reads the 32bit length of a string of 16bit characters
+// and the string. It returns the string and the remaining data.
+func decodeHyperlinkString(raw []byte) (string, []byte, error) {
+	if len(raw) < 4 {
+		return "", nil, errShortHyperlink
+	}
+	slen := binary.LittleEndian.Uint32(raw[:4])
+	raw = raw[4:]
+	if uint64(slen)*2 > uint64(len(raw)) {
+		return "", nil, errShortHyperlink
+	}
+	us := make([]uint16, slen)
+	for i := range us {
+		us[i] = binary.LittleEndian.Uint16(raw)
+		raw = raw[2:]
+	}
+	return string(utf16.Decode(us)), raw, nil
+}
+
+// decodeHyperlinks returns the display text and the target of the link. The
+// target is empty for links to a location inside of the workbook.
 func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
+	if len(raw) < 24 {
+		return "", "", errShortHyperlink
+	}
 	raw = raw[16:] // skip classid
 	slen := binary.LittleEndian.Uint32(raw[:4])
 	if slen != 2 {
@@ -18,62 +44,55 @@ func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
 	flags := binary.LittleEndian.Uint32(raw[4:8])
 	raw = raw[8:]
 	if (flags & hlstmfHasDisplayName) != 0 {
-		slen = binary.LittleEndian.Uint32(raw[:4])
-		raw = raw[4:]
-		us := make([]uint16, slen)
-		for i := 0; i < int(slen); i++ {
-			us[i] = binary.LittleEndian.Uint16(raw)
-			raw = raw[2:]
+		displayText, raw, err = decodeHyperlinkString(raw)
+		if err != nil {
+			return "", "", err
 		}
-		displayText = string(utf16.Decode(us))
 	}
 
 	if (flags & hlstmfHasFrameName) != 0 {
 		// skip a HyperlinkString containing target Frame
-		slen = binary.LittleEndian.Uint32(raw[:4])
-		raw = raw[4+(slen*2):]
+		_, raw, err = decodeHyperlinkString(raw)
+		if err != nil {
+			return "", "", err
+		}
 	}
 
 	if (flags & hlstmfHasMoniker) != 0 {
 		if (flags & hlstmfMonikerSavedAsStr) != 0 {
 			// read HyperlinkString containing the URL
-			slen = binary.LittleEndian.Uint32(raw[:4])
-			raw = raw[4:]
-			us := make([]uint16, slen)
-			for i := 0; i < int(slen); i++ {
-				us[i] = binary.LittleEndian.Uint16(raw)
-				raw = raw[2:]
-			}
-			linkText = string(utf16.Decode(us))
-
+			linkText, raw, err = decodeHyperlinkString(raw)
 		} else {
 			n := 0
-			var err error
 			linkText, n, err = parseHyperlinkMoniker(raw)
 			raw = raw[n:]
-			if err != nil {
-				return "", "", err
-			}
+		}
+		if err != nil {
+			return "", "", err
 		}
 	}
+	linkText = strings.Trim(linkText, " \v\f\t\r\n\x00")
 
 	if (flags & hlstmfHasLocationStr) != 0 {
-		slen = binary.LittleEndian.Uint32(raw[:4])
-		raw = raw[4:]
-		us := make([]uint16, slen)
-		for i := 0; i < int(slen); i++ {
-			us[i] = binary.LittleEndian.Uint16(raw)
-			raw = raw[2:]
+		var location string
+		location, _, err = decodeHyperlinkString(raw)
+		if err != nil {
+			return "", "", err
+		}
+		location = strings.Trim(location, " \v\f\t\r\n\x00")
+		if linkText != "" && location != "" {
+			linkText += "#" + location
 		}
-		linkText = string(utf16.Decode(us))
 	}
 
-	linkText = strings.Trim(linkText, " \v\f\t\r\n\x00")
 	displayText = strings.Trim(displayText, " \v\f\t\r\n\x00")
 	return
 }
 
 func parseHyperlinkMoniker(raw []byte) (string, int, error) {
+	if len(raw) < 20 {
+		return "", 0, errShortHyperlink
+	}
 	classid := raw[:16]
 	no := 16
 
@@ -92,6 +111,9 @@ func parseHyperlinkMoniker(raw []byte) (string, int, error) {
 	if isURLMoniker {
 		length := binary.LittleEndian.Uint32(raw[no:])
 		no += 4
+		if uint64(length) > uint64(len(raw)-no) {
+			return "", 0, errShortHyperlink
+		}
 		length /= 2
 		buf := make([]uint16, length)
 		for i := 0; i < int(length); i++ {
@@ -104,9 +126,15 @@ func parseHyperlinkMoniker(raw []byte) (string, int, error) {
 		return string(utf16.Decode(buf)), no, nil
 	}
 	if isFileMoniker {
+		if len(raw) < no+6 {
+			return "", 0, errShortHyperlink
+		}
 		//x := binary.LittleEndian.Uint16(raw[no:])        //cAnti
 		length := binary.LittleEndian.Uint32(raw[no+2:]) //ansiLength
 		no += 6
+		if uint64(length)+28 > uint64(len(raw)-no) {
+			return "", 0, errShortHyperlink
+		}
 		buf := raw[no : no+int(length)]
 
 		// skip 24 more bytes for misc fixed properties
@@ -115,6 +143,9 @@ func parseHyperlinkMoniker(raw []byte) (string, int, error) {
 		length = binary.LittleEndian.Uint32(raw[no:]) // cbUnicodePathSize
 		no += 4
 		if length > 0 {
+			if length < 6 || uint64(length) > uint64(len(raw)-no) {
+				return "", 0, errShortHyperlink
+			}
 			no += 6
 			length -= 6
 			buf2 := make([]uint16, length/2)
diff --git a/xls/strings.go b/xls/strings.go
index 5e8142f..71678fa 100644
--- a/xls/strings.go
+++ b/xls/strings.go
@@ -8,12 +8,20 @@ import (
 	"unicode/utf16"
 )
 
+var errShortRecord = errors.New("xls: record is too short")
+
 // 2.5.240
 func decodeShortXLUnicodeString(raw []byte) (string, int, error) {
 	// identical to decodeXLUnicodeString except for cch=8bits instead of 16
+	if len(raw) < 2 {
+		return "", 0, errShortRecord
+	}
 	cch := int(raw[0])
 	flags := raw[1]
 	raw = raw[2:]
+	if len(raw) < cch*(1+int(flags&1)) {
+		return "", 0, errShortRecord
+	}
 
 	content := make([]uint16, cch)
 	if (flags & 0x1) == 0 {
@@ -37,9 +45,15 @@ func decodeShortXLUnicodeString(raw []byte) (string, int, error) {
 // 2.5.294
 func decodeXLUnicodeString(raw []byte) (string, int, error) {
 	// identical to decodeShortXLUnicodeString except for cch=16bits instead of 8
+	if len(raw) < 3 {
+		return "", 0, errShortRecord
+	}
 	cch := int(binary.LittleEndian.Uint16(raw[:2]))
 	flags := raw[2]
 	raw = raw[3:]
+	if len(raw) < cch*(1+int(flags&1)) {
+		return "", 0, errShortRecord
+	}
 
 	content := make([]uint16, cch)
 	if (flags & 0x1) == 0 {
@@ -161,9 +175,12 @@ func parseSST(recs []*rec) ([]string, error) {
 	// from an 8-bit encoding to 16-bit or vice versa.
 
 	//totalRefs := binary.LittleEndian.Uint32(recs[0].Data[0:4])
+	if len(recs[0].Data) < 8 {
+		return nil, errShortRecord
+	}
 	numStrings := binary.LittleEndian.Uint32(recs[0].Data[4:8])
 
-	all := make([]string, 0, numStrings)
+	all := make([]string, 0, 64)
 	current := make([]uint16, 32*1024)
 
 	buf := recs[0].Data[8:]
@@ -173,6 +190,13 @@ func parseSST(recs []*rec) ([]string, error) {
 		var cbExtRs uint32
 
 		for len(buf) > 0 {
+			if len(buf) < 3 {
+				if uint32(len(all)) >= numStrings {
+					// only padding
+					return all, nil
+				}
+				return nil, errShortRecord
+			}
 			slen := binary.LittleEndian.Uint16(buf)
 			buf = buf[2:]
 			flags = buf[0]
@@ -180,26 +204,22 @@ func parseSST(recs []*rec) ([]string, error) {
 
 			if (flags & 0x8) != 0 {
 				// rich formating data is present
+				if len(buf) < 2 {
+					return nil, errShortRecord
+				}
 				cRun := binary.LittleEndian.Uint16(buf)
 				cRunBytes = int(cRun) * 4
 				buf = buf[2:]
 			}
 			if (flags & 0x4) != 0 {
 				// phonetic string data is present
+				if len(buf) < 4 {
+					return nil, errShortRecord
+				}
 				cbExtRs = binary.LittleEndian.Uint32(buf)
 				buf = buf[4:]
 			}
 
-			///////
-			blx := len(buf)
-			bly := len(buf) - 5
-			if blx > 5 {
-				blx = 5
-			}
-			if bly < 0 {
-				bly = 0
-			}
-
 			// this block will read the string data, but transparently
 			// handle continuing across records
 			if int(slen) > cap(current) {
@@ -208,8 +228,14 @@ func parseSST(recs []*rec) ([]string, error) {
 				current = current[:slen]
 			}
 			for j := 0; j < int(slen); j++ {
-				if len(buf) == 0 {
+				for len(buf) == 0 {
 					i++
+					if i >= len(recs) {
+						return nil, errShortRecord
+					}
+					if len(recs[i].Data) == 0 {
+						continue
+					}
 					if (recs[i].Data[0] & 1) == 0 {
 						flags &= 0xFE
 					} else {
@@ -222,11 +248,11 @@ func parseSST(recs []*rec) ([]string, error) {
 					current[j] = uint16(buf[0])
 					buf = buf[1:]
 				} else { //16-bit
-					current[j] = uint16(binary.LittleEndian.Uint16(buf[:2]))
-					buf = buf[2:]
 					if len(buf) == 1 {
 						return nil, errors.New("xls: off by one")
 					}
+					current[j] = uint16(binary.LittleEndian.Uint16(buf[:2]))
+					buf = buf[2:]
 				}
 			}
 
@@ -242,17 +268,23 @@ func parseSST(recs []*rec) ([]string, error) {
 				} else {
 					cRunBytes -= len(buf)
 					i++
+					if i >= len(recs) {
+						return nil, errShortRecord
+					}
 					buf = recs[i].Data
 				}
 			}
 
 			for cbExtRs > 0 {
-				if len(buf) >= int(cbExtRs) {
+				if uint32(len(buf)) >= cbExtRs {
 					buf = buf[cbExtRs:]
 					cbExtRs = 0
 				} else {
 					cbExtRs -= uint32(len(buf))
 					i++
+					if i >= len(recs) {
+						return nil, errShortRecord
+					}
 					buf = recs[i].Data
 				}
 			}
-- 
2.43.0


From a9ccc132ba120eea9ab33884218212ba6a2b0b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 17/62] fix: commonxl: mark merged cells in one place, within
 limits

---
 commonxl/sheet.go | 62 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 3230188..ad9bf2d 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -1,6 +1,7 @@
 package commonxl
 
 import (
+	"errors"
 	"fmt"
 	"log"
 	"time"
@@ -108,6 +109,67 @@ func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 	s.Rows[row][col].SetFormatNumber(fmtNum)
 }
 
+// CellRange is a range of merged cells, or of cells sharing the same content.
+// All indexes are 0-based and inclusive.
+type CellRange struct {
+	FirstRow, LastRow int
+	FirstCol, LastCol int
+
+	// KeepValues only marks blank cells.
+	KeepValues bool
+}
+
+// maxMerged is the number of cells that merged ranges may add to a sheet.
+const maxMerged = 1 << 16
+
+// Merge places markers in all cells of the ranges except for the first ones.
+// Very large ranges are only marked within the current size of the sheet.
+func (s *Sheet) Merge(ranges []CellRange) error {
+	numRows, numCols := s.NumRows, s.NumCols
+	limit := numRows*numCols + maxMerged
+	for _, cr := range ranges {
+		endRow, endCol := cr.LastRow, cr.LastCol
+		if endRow-cr.FirstRow >= limit || endCol-cr.FirstCol >= limit ||
+			(endRow-cr.FirstRow+1)*(endCol-cr.FirstCol+1) > limit {
+			if endRow >= numRows {
+				endRow = numRows - 1
+			}
+			if endCol >= numCols {
+				endCol = numCols - 1
+			}
+		}
+		for r := cr.FirstRow; r <= endRow; r++ {
+			for c := cr.FirstCol; c <= endCol; c++ {
+				if limit--; limit < 0 {
+					return errors.New("grate/commonxl: too many merged cells")
+				}
+				if r == cr.FirstRow && c == cr.FirstCol {
+					// should be a value there already!
+					continue
+				}
+				if cr.KeepValues && r < len(s.Rows) && c < len(s.Rows[r]) &&
+					s.Rows[r][c].Type() != BlankCell {
+					continue
+				}
+				if c == cr.FirstCol {
+					// first and last column MAY be the same
+					if r == cr.LastRow {
+						s.Put(r, c, grate.EndRowMerged, 0)
+					} else {
+						s.Put(r, c, grate.ContinueRowMerged, 0)
+					}
+				} else if c == cr.LastCol {
+					// first and last column are NOT the same
+					s.Put(r, c, grate.EndColumnMerged, 0)
+				} else {
+					s.Put(r, c, grate.ContinueColumnMerged, 0)
+				}
+			}
+		}
+	}
+	return nil
+}
+
 // Set changes the value in an existing cell location.
 // NB Currently only used for populating string results for formulas.
 func (s *Sheet) Set(row, col int, value interface{}) {
-- 
2.43.0


From d9b9a760587536257de0b18ca8467debdf896821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 18/62] fix: xls: check record sizes and nesting, apply merged
 ranges and links after all cells

---
 xls/sheets.go  | 167 ++++++++++++++++++++++++++-----------------------
 xls/structs.go |  50 +++++++++++++++
 xls/xls.go     |  37 +++++++++--
 3 files changed, 170 insertions(+), 84 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 79d4344..dcb5ca9 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -37,8 +37,15 @@ func (b *WorkBook) ListHidden() ([]string, error) {
 func (b *WorkBook) Get(sheetName string) (grate.Collection, error) {
 	for _, s := range b.sheets {
 		if s.Name == sheetName {
-			ss := b.pos2substream[int64(s.Position)]
-			return b.parseSheet(s, ss)
+			ss, ok := b.pos2substream[int64(s.Position)]
+			if !ok || ss >= len(b.substreams) {
+				return nil, errors.New("xls: sheet content not found")
+			}
+			res, err := b.parseSheet(s, ss)
+			if err != nil {
+				return nil, err
+			}
+			return res, nil
 		}
 	}
 	return nil, errors.New("xls: sheet not found")
@@ -59,9 +66,14 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 		if inSubstream > 0 {
 			if r.RecType == RecTypeEOF {
 				inSubstream--
+			} else if r.RecType == RecTypeBOF {
+				inSubstream++
 			}
 			continue
 		}
+		if err := r.check(); err != nil {
+			return nil, err
+		}
 		switch r.RecType {
 		case RecTypeBOF:
 			// a BOF inside a sheet usually means embedded content like a chart
@@ -72,9 +84,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				continue
 			}
 		case RecTypeWsBool:
-			if (r.Data[1] & 0x10) != 0 {
-				// it's a dialog
-				return nil, nil
+			if (r.Data[0] & 0x10) != 0 {
+				// it's a dialog, which has no cells
+				return &commonxl.Sheet{Formatter: &b.nfmt}, nil
 			}
 
 		case RecTypeDimensions:
@@ -94,17 +106,27 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				log.Println("invalid dimensions")
 			}
 
+			if maxRow > maxRows {
+				maxRow = maxRows
+			}
+			if maxCol > maxCols {
+				maxCol = maxCols
+			}
+
 			// pre-allocate cells
 			res.Resize(int(maxRow), int(maxCol))
 		}
 	}
 	inSubstream = 0
 
+	var merged []commonxl.CellRange
 	var formulaRow, formulaCol uint16
 	for ridx, r := range b.substreams[ss] {
 		if inSubstream > 0 {
 			if r.RecType == RecTypeEOF {
 				inSubstream--
+			} else if r.RecType == RecTypeBOF {
+				inSubstream++
 			} else if grate.Debug {
 				log.Println("      Unhandled sheet substream record type:", r.RecType, ridx)
 			}
@@ -151,7 +173,11 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				if !ok {
 					be = "<unknown error>"
 				}
-				res.Put(rowIndex, colIndex, be, 0)
+				var fno uint16
+				if ixfe < len(b.xfs) {
+					fno = b.xfs[ixfe]
+				}
+				res.Put(rowIndex, colIndex, be, fno)
 				//log.Printf("bool/error spec: %d %d %s", rowIndex, colIndex, be)
 			}
 
@@ -165,11 +191,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				ixfe := int(binary.LittleEndian.Uint16(r.Data[off:]))
 				value := RKNumber(binary.LittleEndian.Uint32(r.Data[off+2:]))
 
-				var rval interface{}
+				rval := numberValue(value.Float64())
 				if value.IsInteger() {
 					rval = value.Int()
-				} else {
-					rval = value.Float64()
 				}
 				var fno uint16
 				if ixfe < len(b.xfs) {
@@ -190,7 +214,7 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			if ixfe < len(b.xfs) {
 				fno = b.xfs[ixfe]
 			}
-			res.Put(rowIndex, colIndex, value, fno)
+			res.Put(rowIndex, colIndex, numberValue(value), fno)
 			//log.Printf("Number spec: %d %d = %f", rowIndex, colIndex, value)
 
 		case RecTypeRK:
@@ -199,11 +223,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			ixfe := int(binary.LittleEndian.Uint16(r.Data[4:]))
 			value := RKNumber(binary.LittleEndian.Uint32(r.Data[6:]))
 
-			var rval interface{}
+			rval := numberValue(value.Float64())
 			if value.IsInteger() {
 				rval = value.Int()
-			} else {
-				rval = value.Float64()
 			}
 			var fno uint16
 			if ixfe < len(b.xfs) {
@@ -240,7 +262,7 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 					if !ok {
 						be = "<unknown error>"
 					}
-					res.Put(int(formulaRow), int(formulaCol), be, 0)
+					res.Put(int(formulaRow), int(formulaCol), be, fno)
 				case 3:
 					// blank string
 				default:
@@ -249,7 +271,7 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			} else {
 				xnum := binary.LittleEndian.Uint64(fdata)
 				value := math.Float64frombits(xnum)
-				res.Put(int(formulaRow), int(formulaCol), value, fno)
+				res.Put(int(formulaRow), int(formulaCol), numberValue(value), fno)
 			}
 			//log.Printf("formula spec: %d %d ~~ %+v", formulaRow, formulaCol, r.Data)
 
@@ -281,7 +303,7 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			colIndex := int(binary.LittleEndian.Uint16(r.Data[2:4]))
 			ixfe := int(binary.LittleEndian.Uint16(r.Data[4:6]))
 			sstIndex := int(binary.LittleEndian.Uint32(r.Data[6:]))
-			if sstIndex > len(b.strings) {
+			if sstIndex >= len(b.strings) {
 				return nil, errors.New("xls: invalid sst index")
 			}
 			var fno uint16
@@ -294,24 +316,14 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			//log.Printf("SST spec: %d %d = [%d] '%s' %d", rowIndex, colIndex, sstIndex, b.strings[sstIndex], fno)
 
 		case RecTypeHLink:
-			firstRow := binary.LittleEndian.Uint16(r.Data[:2])
-			lastRow := binary.LittleEndian.Uint16(r.Data[2:4])
-			firstCol := binary.LittleEndian.Uint16(r.Data[4:6])
-			lastCol := binary.LittleEndian.Uint16(r.Data[6:])
-			if int(firstCol) > int(maxCol) {
+			firstRow := int(binary.LittleEndian.Uint16(r.Data[:2]))
+			lastRow := int(binary.LittleEndian.Uint16(r.Data[2:4]))
+			firstCol := int(binary.LittleEndian.Uint16(r.Data[4:6]))
+			lastCol := int(binary.LittleEndian.Uint16(r.Data[6:]))
+			if firstCol >= maxCols || lastCol >= maxCols {
 				//log.Println("invalid hyperlink column")
 				continue
 			}
-			if int(firstRow) > int(maxRow) {
-				//log.Println("invalid hyperlink row")
-				continue
-			}
-			if lastRow == 0xFFFF { // placeholder value indicate "last"
-				lastRow = uint16(maxRow) - 1
-			}
-			if lastCol == 0xFF { // placeholder value indicate "last"
-				lastCol = uint16(maxCol) - 1
-			}
 
 			// decode the hyperlink datastructure and try to find the
 			// display text and separate the URL itself.
@@ -321,28 +333,21 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				continue
 			}
 
-			// apply merge cell rules (see RecTypeMergeCells below)
-			for rn := int(firstRow); rn <= int(lastRow); rn++ {
-				for cn := int(firstCol); cn <= int(lastCol); cn++ {
-					if rn == int(firstRow) && cn == int(firstCol) {
-						// TODO: provide custom hooks for how to handle links in output
-						res.Put(rn, cn, displayText+" <"+linkText+">", 0)
-					} else if cn == int(firstCol) {
-						// first and last column MAY be the same
-						if rn == int(lastRow) {
-							res.Put(rn, cn, grate.EndRowMerged, 0)
-						} else {
-							res.Put(rn, cn, grate.ContinueRowMerged, 0)
-						}
-					} else if cn == int(lastCol) {
-						// first and last column are NOT the same
-						res.Put(rn, cn, grate.EndColumnMerged, 0)
-					} else {
-						res.Put(rn, cn, grate.ContinueColumnMerged, 0)
-					}
-				}
+			if linkText == "" {
+				// a location inside of the workbook
+				continue
 			}
 
+			// TODO: provide custom hooks for how to handle links in output
+			res.Put(firstRow, firstCol, displayText+" <"+linkText+">", 0)
+
+			// apply merge cell rules (see RecTypeMergeCells below)
+			merged = append(merged, commonxl.CellRange{
+				FirstRow: firstRow, LastRow: lastRow,
+				FirstCol: firstCol, LastCol: lastCol,
+				KeepValues: true,
+			})
+
 		case RecTypeMergeCells:
 			// To keep cells aligned, Merged cells are handled by placing
 			// special characters in each cell covered by the merge block.
@@ -357,38 +362,23 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 
 			cmcs := binary.LittleEndian.Uint16(r.Data[:2])
 			raw := r.Data[2:]
+			if len(raw) < int(cmcs)*8 {
+				return nil, errShortRecord
+			}
 			for i := 0; i < int(cmcs); i++ {
-				firstRow := binary.LittleEndian.Uint16(raw[:2])
-				lastRow := binary.LittleEndian.Uint16(raw[2:4])
-				firstCol := binary.LittleEndian.Uint16(raw[4:6])
-				lastCol := binary.LittleEndian.Uint16(raw[6:])
+				firstRow := int(binary.LittleEndian.Uint16(raw[:2]))
+				lastRow := int(binary.LittleEndian.Uint16(raw[2:4]))
+				firstCol := int(binary.LittleEndian.Uint16(raw[4:6]))
+				lastCol := int(binary.LittleEndian.Uint16(raw[6:]))
 				raw = raw[8:]
 
-				if lastRow == 0xFFFF { // placeholder value indicate "last"
-					lastRow = uint16(maxRow) - 1
-				}
-				if lastCol == 0xFF { // placeholder value indicate "last"
-					lastCol = uint16(maxCol) - 1
-				}
-				for rn := int(firstRow); rn <= int(lastRow); rn++ {
-					for cn := int(firstCol); cn <= int(lastCol); cn++ {
-						if rn == int(firstRow) && cn == int(firstCol) {
-							// should be a value there already!
-						} else if cn == int(firstCol) {
-							// first and last column MAY be the same
-							if rn == int(lastRow) {
-								res.Put(rn, cn, grate.EndRowMerged, 0)
-							} else {
-								res.Put(rn, cn, grate.ContinueRowMerged, 0)
-							}
-						} else if cn == int(lastCol) {
-							// first and last column are NOT the same
-							res.Put(rn, cn, grate.EndColumnMerged, 0)
-						} else {
-							res.Put(rn, cn, grate.ContinueColumnMerged, 0)
-						}
-					}
+				if lastCol >= maxCols {
+					return nil, errors.New("xls: invalid merged cells")
 				}
+				merged = append(merged, commonxl.CellRange{
+					FirstRow: firstRow, LastRow: lastRow,
+					FirstCol: firstCol, LastCol: lastCol,
+				})
 			}
 			/*
 				case RecTypeBlank, RecTypeMulBlank:
@@ -407,9 +397,28 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			*/
 		}
 	}
+	for i, cr := range merged {
+		if cr.LastRow == 0xFFFF { // placeholder value indicate "last"
+			merged[i].LastRow = res.NumRows - 1
+		}
+		if cr.LastCol == 0xFF { // placeholder value indicate "last"
+			merged[i].LastCol = res.NumCols - 1
+		}
+	}
+	if err := res.Merge(merged); err != nil {
+		return nil, err
+	}
 	return res, nil
 }
 
+// numberValue returns whole numbers as integers, no matter how they are stored.
+func numberValue(f float64) interface{} {
+	if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
+		return int64(f)
+	}
+	return f
+}
+
 var berrLookup = map[byte]string{
 	0x00: "#NULL!",
 	0x07: "#DIV/0!",
diff --git a/xls/structs.go b/xls/structs.go
index a19b9ca..08c8223 100644
--- a/xls/structs.go
+++ b/xls/structs.go
@@ -1,6 +1,8 @@
 package xls
 
 import (
+	"encoding/binary"
+	"errors"
 	"fmt"
 	"math"
 )
@@ -20,6 +22,54 @@ type rec struct {
 	Data    []byte     // len(rec.data) = rec.recsize
 }
 
+// minRecSizes are the smallest valid sizes of the records which are decoded.
+var minRecSizes = map[recordType]int{
+	RecTypeBOF:         16,
+	RecTypeFilePass:    2,
+	RecTypeSST:         8,
+	RecTypeCodePage:    2,
+	RecTypeDate1904:    2,
+	RecTypeFormat:      5,
+	RecTypeXF:          4,
+	RecTypeBoundSheet8: 8,
+	RecTypeWsBool:      2,
+	RecTypeDimensions:  12,
+	RecTypeBoolErr:     8,
+	RecTypeMulRk:       6,
+	RecTypeNumber:      14,
+	RecTypeRK:          10,
+	RecTypeFormula:     14,
+	RecTypeString:      2,
+	RecTypeLabelSst:    10,
+	RecTypeHLink:       8,
+	RecTypeMergeCells:  2,
+}
+
+// check that the record has enough data to decode, and that cells are
+// within the limits of a sheet.
+func (r *rec) check() error {
+	if len(r.Data) < minRecSizes[r.RecType] {
+		return errShortRecord
+	}
+	lastCol := 0
+	switch r.RecType {
+	case RecTypeBoolErr, RecTypeNumber, RecTypeRK, RecTypeFormula, RecTypeLabelSst:
+		lastCol = int(binary.LittleEndian.Uint16(r.Data[2:4]))
+	case RecTypeMulRk:
+		lastCol = int(binary.LittleEndian.Uint16(r.Data[2:4])) + (len(r.Data)-6)/6 - 1
+	}
+	if lastCol >= maxCols {
+		return errors.New("xls: invalid cell reference")
+	}
+	return nil
+}
+
+// limits of the sheet size.
+const (
+	maxRows = 0x10000
+	maxCols = 0x100
+)
+
 type boundSheet struct {
 	Position    uint32 // A FilePointer as specified in [MS-OSHARED] section 2.2.1.5 that specifies the stream position of the start of the BOF record for the sheet.
 	HiddenState byte   // (2 bits) An unsigned integer that specifies the hidden state of the sheet. MUST be a value from the following table:
diff --git a/xls/xls.go b/xls/xls.go
index 15ff55c..086ca8b 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -108,12 +108,15 @@ func (b *WorkBook) loadFromStreamWithDecryptor(raw []byte, dec crypto.Decryptor)
 	replaceBlocks := []overlay{}
 
 	var err error
-	for err == nil && len(raw[pos:]) > 4 {
+	for err == nil && len(raw[pos:]) >= 4 {
 		o := overlay{}
 		o.Pos = pos
 		o.RecType = recordType(binary.LittleEndian.Uint16(raw[pos : pos+2]))
 		o.DataBytes = binary.LittleEndian.Uint16(raw[pos+2 : pos+4])
 		pos += 4
+		if len(raw[pos:]) < int(o.DataBytes) {
+			return io.ErrUnexpectedEOF
+		}
 
 		// copy to output and decryption stream
 		binary.Write(dec, binary.LittleEndian, o.RecType)
@@ -125,11 +128,18 @@ func (b *WorkBook) loadFromStreamWithDecryptor(raw []byte, dec crypto.Decryptor)
 			// untouched data goes directly into output
 			o.Data = raw[pos : pos+int(o.DataBytes)]
 			pos += int(o.DataBytes)
-			dec.Write(zeros[:int(o.DataBytes)])
+			for tocopy > len(zeros) {
+				dec.Write(zeros[:])
+				tocopy -= len(zeros)
+			}
+			dec.Write(zeros[:tocopy])
 			tocopy = 0
 
 		case RecTypeBoundSheet8:
 			// copy 32-bit position to output
+			if o.DataBytes < 4 {
+				return errShortRecord
+			}
 			o.Data = raw[pos : pos+4]
 			pos += 4
 			dec.Write(zeros[:4])
@@ -194,7 +204,9 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 		raw = raw[no:]
 		switch nr.RecType {
 		case RecTypeEOF:
-			nestedBOF--
+			if nestedBOF > 0 {
+				nestedBOF--
+			}
 		case RecTypeBOF:
 			// when substreams are nested, keep them in the same grouping
 			if nestedBOF == 0 {
@@ -204,10 +216,16 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 			}
 			nestedBOF++
 		}
+		if substr < 0 {
+			return errors.New("xls: invalid workbook stream")
+		}
 		b.fpos += int64(4 + len(nr.Data))
 
 		// if there's a FilePass record, the data is encrypted
 		if nr.RecType == RecTypeFilePass && !isDecrypted {
+			if err := nr.check(); err != nil {
+				return err
+			}
 			etype := binary.LittleEndian.Uint16(nr.Data)
 			switch etype {
 			case 1:
@@ -234,14 +252,22 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 	if err != nil {
 		return err
 	}
+	if nestedBOF > 0 || substr < 0 {
+		// the last substream is incomplete
+		return io.ErrUnexpectedEOF
+	}
 
 	for ss, records := range b.substreams {
 		if grate.Debug {
 			log.Printf("  Processing substream %d/%d (%d records)", ss, len(b.substreams), len(records))
 		}
 		for i, nr := range records {
-			if len(nr.Data) == 0 {
-				continue
+			switch nr.RecType {
+			case RecTypeSST, RecTypeBOF, RecTypeCodePage, RecTypeDate1904,
+				RecTypeFormat, RecTypeXF, RecTypeBoundSheet8:
+				if err := nr.check(); err != nil {
+					return err
+				}
 			}
 
 			switch nr.RecType {
@@ -296,6 +322,7 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 
 			case RecTypeDate1904:
 				b.dateMode = binary.LittleEndian.Uint16(nr.Data)
+				b.nfmt.Mode1904(b.dateMode == 1)
 
 			case RecTypeFormat:
 				// Format maps a format ID to a code string
-- 
2.43.0


From a3da50b0ddba14bd1b3ddde94be96a9e27206032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 19/62] fix: cfb: follow FAT chains for all tables, read the
 whole directory, check bounds

---
 xls/cfb/cfb.go       | 200 ++++++++++++++++++++++++++++++-------------
 xls/cfb/interface.go |  34 +++++++-
 xls/xls.go           |   4 +
 3 files changed, 177 insertions(+), 61 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 2692ba4..fcda634 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -77,7 +77,7 @@ type directory struct {
 }
 
 func (d *directory) String() string {
-	if (d.NameByteLen&1) == 1 || d.NameByteLen > 64 {
+	if (d.NameByteLen&1) == 1 || d.NameByteLen > 64 || d.NameByteLen < 2 {
 		return "<invalid utf16 string>"
 	}
 	r16 := utf16.Decode(d.Name[:int(d.NameByteLen)/2])
@@ -112,6 +112,12 @@ func (d *Document) load(rx io.ReadSeeker) error {
 
 	h := &header{}
 	err = binary.Read(br, binary.LittleEndian, h)
+	if err != nil {
+		if bytes.HasPrefix(d.data, []byte("\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1")) {
+			return io.ErrUnexpectedEOF
+		}
+		return grate.ErrNotInFormat
+	}
 	if h.Signature != 0xe11ab1a1e011cfd0 {
 		return grate.ErrNotInFormat // errors.New("ole2: invalid format")
 	}
@@ -159,8 +165,7 @@ func (d *Document) load(rx io.ReadSeeker) error {
 
 	numFATentries := (1 << (h.SectorShift - 2))
 	le := binary.LittleEndian
-	d.fat = make([]uint32, 0, numFATentries*int(1+d.header.NumFATSectors))
-	d.minifat = make([]uint32, 0, numFATentries*int(1+h.NumMiniFATSectors))
+	maxSectors := len(d.data)>>h.SectorShift + 1
 
 	// step 1: read the DIFAT sector list
 	for i := 0; i < 109; i++ {
@@ -168,11 +173,10 @@ func (d *Document) load(rx io.ReadSeeker) error {
 		if sid == secFree {
 			break
 		}
-		offs := int64(1+sid) << int32(h.SectorShift)
-		if offs >= int64(len(d.data)) {
-			return errors.New("xls/cfb: unable to load file")
+		sector, err := d.fullSector(sid)
+		if err != nil {
+			return err
 		}
-		sector := d.data[offs:]
 		for j := 0; j < numFATentries; j++ {
 			sid2 := le.Uint32(sector)
 			d.fat = append(d.fat, sid2)
@@ -181,10 +185,13 @@ func (d *Document) load(rx io.ReadSeeker) error {
 	}
 	if h.NumDIFATSectors > 0 {
 		sid1 := h.FirstDIFATSectorLocation
+		ndifat := 0
 
-		for sid1 != secEndOfChain {
-			offs := int64(1+sid1) << int32(h.SectorShift)
-			difatSector := d.data[offs:]
+		for sid1 != secEndOfChain && sid1 != secFree {
+			difatSector, err := d.fullSector(sid1)
+			if err != nil {
+				return err
+			}
 
 			for i := 0; i < numFATentries-1; i++ {
 				sid2 := le.Uint32(difatSector)
@@ -193,11 +200,13 @@ func (d *Document) load(rx io.ReadSeeker) error {
 					continue
 				}
 
-				offs := int64(1+sid2) << int32(h.SectorShift)
-				if offs >= int64(len(d.data)) {
-					return errors.New("xls/cfb: unable to load file")
+				sector, err := d.fullSector(sid2)
+				if err != nil {
+					return err
+				}
+				if len(d.fat) >= maxSectors*numFATentries {
+					return errors.New("xls/cfb: invalid DIFAT")
 				}
-				sector := d.data[offs:]
 				for j := 0; j < numFATentries; j++ {
 					sid3 := le.Uint32(sector)
 					d.fat = append(d.fat, sid3)
@@ -208,49 +217,98 @@ func (d *Document) load(rx io.ReadSeeker) error {
 			}
 			// chain the next DIFAT sector
 			sid1 = le.Uint32(difatSector)
+			if ndifat++; ndifat > maxSectors {
+				return errors.New("xls/cfb: invalid DIFAT")
+			}
 		}
 	}
 
 	// step 2: read the mini FAT
 	sid := h.FirstMiniFATSectorLocation
-	for sid != secEndOfChain {
-		offs := int64(1+sid) << int32(h.SectorShift)
-		if offs >= int64(len(d.data)) {
-			return errors.New("xls/cfb: unable to load file")
+	for h.NumMiniFATSectors != 0 && sid != secEndOfChain && sid != secFree {
+		sector, err := d.fullSector(sid)
+		if err != nil {
+			return err
 		}
-		sector := d.data[offs:]
 		for j := 0; j < numFATentries; j++ {
-			sid = le.Uint32(sector)
-			d.minifat = append(d.minifat, sid)
+			sid2 := le.Uint32(sector)
+			d.minifat = append(d.minifat, sid2)
 			sector = sector[4:]
 		}
 
-		if len(d.minifat) >= int(h.NumMiniFATSectors) {
-			break
+		if len(d.minifat) > maxSectors*numFATentries {
+			return errors.New("xls/cfb: invalid mini FAT")
 		}
 
 		// chain the next mini FAT sector
-		sid = le.Uint32(sector)
+		sid, err = d.nextSector(sid)
+		if err != nil {
+			return err
+		}
 	}
 
 	// step 3: read the Directory Entries
-	err = d.buildDirs(br)
+	err = d.buildDirs()
 
 	return err
 }
 
-func (d *Document) buildDirs(br *bytes.Reader) error {
-	h := d.header
-	le := binary.LittleEndian
+// sector returns the contents of a sector, the last one in a file may be short.
+func (d *Document) sector(sid uint32) ([]byte, error) {
+	secSize := int64(1) << int64(d.header.SectorShift)
+	offs := (int64(sid) + 1) * secSize
+	if sid > secMaxRegular || offs >= int64(len(d.data)) {
+		return nil, errors.New("xls/cfb: invalid sector")
+	}
+	if offs+secSize > int64(len(d.data)) {
+		return d.data[offs:], nil
+	}
+	return d.data[offs : offs+secSize], nil
+}
+
+// fullSector returns the contents of a sector which must be complete.
+func (d *Document) fullSector(sid uint32) ([]byte, error) {
+	data, err := d.sector(sid)
+	if err == nil && len(data) < 1<<d.header.SectorShift {
+		err = io.ErrUnexpectedEOF
+	}
+	return data, err
+}
+
+// nextSector returns the sector following sid in its chain.
+func (d *Document) nextSector(sid uint32) (uint32, error) {
+	if int64(sid) >= int64(len(d.fat)) {
+		return 0, errors.New("xls/cfb: invalid sector chain")
+	}
+	return d.fat[sid], nil
+}
 
+func (d *Document) buildDirs() error {
 	// step 2: read the Directory
-	sid := h.FirstDirectorySectorLocation
-	offs := int64(1+sid) << int64(h.SectorShift)
-	br.Seek(offs, io.SeekStart)
+	var data []byte
+	sid := d.header.FirstDirectorySectorLocation
+	for sid != secEndOfChain && sid != secFree {
+		sector, err := d.fullSector(sid)
+		if err != nil {
+			return err
+		}
+		data = append(data, sector...)
+		if len(data) > len(d.data) {
+			return errors.New("xls/cfb: invalid directory")
+		}
+		sid, err = d.nextSector(sid)
+		if err != nil {
+			return err
+		}
+	}
 
-	for j := 0; j < 4; j++ {
+	br := bytes.NewReader(data)
+	for j := 0; j < len(data)/128; j++ {
 		dirent := &directory{}
-		binary.Read(br, le, dirent)
+		err := binary.Read(br, binary.LittleEndian, dirent)
+		if err != nil {
+			return err
+		}
 		if d.header.MajorVersion == 3 {
 			// mask out upper 32bits
 			dirent.StreamSize = dirent.StreamSize & 0xFFFFFFFF
@@ -272,7 +330,7 @@ func (d *Document) buildDirs(br *bytes.Reader) error {
 				}
 			*/
 		case typeUnknown:
-			return nil
+			// unused, but it counts in the stream ids
 		}
 		d.dir = append(d.dir, dirent)
 	}
@@ -281,29 +339,35 @@ func (d *Document) buildDirs(br *bytes.Reader) error {
 }
 
 func (d *Document) getStreamReader(sid uint32, size uint64) (io.ReadSeeker, error) {
+	if size > uint64(len(d.data)) {
+		return nil, errors.New("ole2: incomplete read")
+	}
 	// NB streamData is a slice of slices of the raw data, so this is the
 	// only allocation - for the (much smaller) list of sector slices
 	streamData := make([][]byte, 1+(size>>d.header.SectorShift))
 
 	x := 0
-	secSize := int64(1) << int32(d.header.SectorShift)
-	for sid != secEndOfChain && sid != secFree {
-		offs := int64(1+sid) << int64(d.header.SectorShift)
-		if offs > int64(len(d.data)) {
-			return nil, errors.New("ole2: corrupt data format")
+	secSize := uint64(1) << d.header.SectorShift
+	for size > 0 && sid != secEndOfChain && sid != secFree {
+		slice, err := d.sector(sid)
+		if err != nil {
+			return nil, err
 		}
-		slice := d.data[offs : offs+secSize]
 		if size < uint64(len(slice)) {
 			slice = slice[:size]
-			size = 0
-		} else {
-			size -= uint64(len(slice))
 		}
+		size -= uint64(len(slice))
 		streamData[x] = slice
 		if size == 0 {
 			break
 		}
-		sid = d.fat[sid]
+		if uint64(len(slice)) < secSize {
+			return nil, io.ErrUnexpectedEOF
+		}
+		sid, err = d.nextSector(sid)
+		if err != nil {
+			return nil, err
+		}
 		x++
 	}
 	if size != 0 {
@@ -314,6 +378,9 @@ func (d *Document) getStreamReader(sid uint32, size uint64) (io.ReadSeeker, erro
 }
 
 func (d *Document) getMiniStreamReader(sid uint32, size uint64) (io.ReadSeeker, error) {
+	if uint64(d.ministreamsize) > uint64(len(d.data)) {
+		return nil, errors.New("ole2: incomplete read")
+	}
 	// TODO: move into a separate cache so we don't recalculate it each time
 	fatStreamData := make([][]byte, 1+(d.ministreamsize>>d.header.SectorShift))
 
@@ -325,39 +392,56 @@ func (d *Document) getMiniStreamReader(sid uint32, size uint64) (io.ReadSeeker,
 	fsid := d.ministreamstart
 	fsize := uint64(d.ministreamsize)
 	secSize := int64(1) << int64(d.header.SectorShift)
-	for fsid != secEndOfChain && fsid != secFree {
-		offs := int64(1+fsid) << int64(d.header.SectorShift)
-		slice := d.data[offs : offs+secSize]
+	for size > 0 && fsize > 0 && fsid != secEndOfChain && fsid != secFree {
+		slice, err := d.sector(fsid)
+		if err != nil {
+			return nil, err
+		}
 		if fsize < uint64(len(slice)) {
 			slice = slice[:fsize]
-			fsize = 0
-		} else {
-			fsize -= uint64(len(slice))
 		}
+		fsize -= uint64(len(slice))
 		fatStreamData[x] = slice
+		if fsize > 0 && int64(len(slice)) < secSize {
+			return nil, io.ErrUnexpectedEOF
+		}
 		x++
-		fsid = d.fat[fsid]
+		fsid, err = d.nextSector(fsid)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	x = 0
 	miniSecSize := int64(1) << int64(d.header.MiniSectorShift)
-	for sid != secEndOfChain && sid != secFree {
+	for size > 0 && sid != secEndOfChain && sid != secFree {
 		offs := int64(sid) << int64(d.header.MiniSectorShift)
 
 		so, si := offs/secSize, offs%secSize
-		data := fatStreamData[so]
-
-		slice := data[si : si+miniSecSize]
+		if so >= int64(len(fatStreamData)) || si >= int64(len(fatStreamData[so])) {
+			return nil, errors.New("ole2: corrupt data format")
+		}
+		slice := fatStreamData[so][si:]
+		if int64(len(slice)) > miniSecSize {
+			slice = slice[:miniSecSize]
+		}
 		if size < uint64(len(slice)) {
 			slice = slice[:size]
-			size = 0
-		} else {
-			size -= uint64(len(slice))
 		}
+		size -= uint64(len(slice))
 		streamData[x] = slice
+		if size == 0 {
+			break
+		}
+		if int64(len(slice)) < miniSecSize || int64(sid) >= int64(len(d.minifat)) {
+			return nil, errors.New("ole2: corrupt data format")
+		}
 		x++
 		sid = d.minifat[sid]
 	}
+	if size != 0 {
+		return nil, errors.New("ole2: incomplete read")
+	}
 
 	return &SliceReader{Data: streamData}, nil
 }
diff --git a/xls/cfb/interface.go b/xls/cfb/interface.go
index ec5a6a9..7c9224f 100644
--- a/xls/cfb/interface.go
+++ b/xls/cfb/interface.go
@@ -1,6 +1,7 @@
 package cfb
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -13,6 +14,7 @@ func Open(filename string) (*Document, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer f.Close()
 	err = d.load(f)
 	if err != nil {
 		return nil, err
@@ -31,9 +33,13 @@ func (d *Document) List() ([]string, error) {
 	return res, nil
 }
 
-// Open the named stream contained in the document.
+// ErrStreamNotFound is returned when there is no stream with the name given.
+var ErrStreamNotFound = errors.New("cfb: stream not found")
+
+// Open the named stream contained in the document. When there are several,
+// the one that is not inside of another storage is preferred.
 func (d *Document) Open(name string) (io.ReadSeeker, error) {
-	for _, e := range d.dir {
+	for _, e := range append(d.rootEntries(), d.dir...) {
 		if e.String() == name && e.ObjectType == typeStream {
 			if e.StreamSize < uint64(d.header.MiniStreamCutoffSize) {
 				return d.getMiniStreamReader(uint32(e.StartingSectorLocation), e.StreamSize)
@@ -42,5 +48,27 @@ func (d *Document) Open(name string) (io.ReadSeeker, error) {
 			}
 		}
 	}
-	return nil, fmt.Errorf("cfb: stream '%s' not found", name)
+	return nil, fmt.Errorf("%w: '%s'", ErrStreamNotFound, name)
+}
+
+// rootEntries returns the entries contained in the root storage.
+func (d *Document) rootEntries() []*directory {
+	var res []*directory
+	if len(d.dir) == 0 || d.dir[0].ObjectType != typeRootStorage {
+		return nil
+	}
+	seen := make(map[uint32]bool)
+	todo := []uint32{d.dir[0].ChildID}
+	for len(todo) > 0 {
+		id := todo[len(todo)-1]
+		todo = todo[:len(todo)-1]
+		if seen[id] || int64(id) >= int64(len(d.dir)) {
+			continue
+		}
+		seen[id] = true
+		e := d.dir[id]
+		res = append(res, e)
+		todo = append(todo, e.LeftSiblingID, e.RightSiblingID)
+	}
+	return res
 }
diff --git a/xls/xls.go b/xls/xls.go
index 086ca8b..9cb29f4 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -65,6 +65,10 @@ func Open(filename string) (grate.Source, error) {
 
 	rdr, err := doc.Open("Workbook")
 	if err != nil {
+		if !errors.Is(err, cfb.ErrStreamNotFound) {
+			// the stream is there, but it is damaged
+			return nil, err
+		}
 		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
 	}
 	raw, err := io.ReadAll(rdr)
-- 
2.43.0


From a584b74a97a0cf02d5c6f87c560a3bb109492048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 20/62] fix: cfb: SliceReader seeks to any offset, and skips
 empty slices

---
 xls/cfb/slicereader.go | 61 +++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/xls/cfb/slicereader.go b/xls/cfb/slicereader.go
index e6e7aff..211a4af 100644
--- a/xls/cfb/slicereader.go
+++ b/xls/cfb/slicereader.go
@@ -16,6 +16,14 @@ type SliceReader struct {
 
 // Read implements the io.Reader interface.
 func (s *SliceReader) Read(b []byte) (int, error) {
+	if len(b) == 0 {
+		return 0, nil
+	}
+	// skip any empty slices
+	for s.Index < uint(len(s.Data)) && s.Offset >= uint(len(s.Data[s.Index])) {
+		s.Offset = 0
+		s.Index++
+	}
 	if s.Index >= uint(len(s.Data)) {
 		return 0, io.EOF
 	}
@@ -45,12 +53,15 @@ func (s *SliceReader) Seek(offset int64, whence int) (int64, error) {
 			sz += int64(len(d))
 		}
 	}
-	if s.Index >= uint(len(s.CSize)) {
-		s.Index = uint(len(s.CSize) - 1)
-		s.Offset = uint(len(s.Data[s.Index]))
+	// size of the stream, and current offset in it
+	totalSize := int64(0)
+	if n := len(s.Data); n > 0 {
+		totalSize = s.CSize[n-1] + int64(len(s.Data[n-1]))
+	}
+	trueOffset := totalSize
+	if s.Index < uint(len(s.CSize)) {
+		trueOffset = int64(s.Offset) + s.CSize[int(s.Index)]
 	}
-	// current offset in stream
-	trueOffset := int64(s.Offset) + s.CSize[int(s.Index)]
 	if offset == 0 && whence == io.SeekCurrent {
 		// just asking for current position
 		return trueOffset, nil
@@ -58,44 +69,34 @@ func (s *SliceReader) Seek(offset int64, whence int) (int64, error) {
 
 	switch whence {
 	case io.SeekStart:
-		if offset < 0 {
-			return -1, errors.New("xls: invalid seek offset")
-		}
-		s.Index = 0
-		s.Offset = 0
 		trueOffset = 0
 
 	case io.SeekEnd:
-		if offset > 0 {
-			return -1, errors.New("xls: invalid seek offset")
-		}
+		trueOffset = totalSize
 
-		s.Index = uint(len(s.Data) - 1)
-		s.Offset = uint(len(s.Data[s.Index]))
-		trueOffset = int64(s.Offset) + s.CSize[s.Index]
+	case io.SeekCurrent:
+		// current position already defined
 
 	default:
-		// current position already defined
+		return -1, errors.New("xls: invalid seek whence")
+	}
+
+	// NB the current position does not change for invalid offsets
+	if offset < -trueOffset || offset > totalSize-trueOffset {
+		return -1, errors.New("xls: invalid seek offset")
 	}
 
 	wantOffset := offset + trueOffset
-	for trueOffset != wantOffset {
+	s.Index = 0
+	s.Offset = 0
+	for s.Index < uint(len(s.Data)) {
 		loOffset := s.CSize[int(s.Index)]
 		hiOffset := s.CSize[int(s.Index)] + int64(len(s.Data[s.Index]))
-		if wantOffset > loOffset && wantOffset < hiOffset {
+		if wantOffset < hiOffset {
 			s.Offset = uint(wantOffset - loOffset)
-			return wantOffset, nil
-		}
-
-		if trueOffset > wantOffset {
-			s.Index--
-			s.Offset = 0
-			trueOffset = s.CSize[int(s.Index)]
-		} else if trueOffset < wantOffset {
-			s.Index++
-			s.Offset = 0
-			trueOffset = s.CSize[int(s.Index)]
+			break
 		}
+		s.Index++
 	}
 	return wantOffset, nil
 }
-- 
2.43.0


From 211d7a36370dc2a6131c2c2a8740eff00be07b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 21/62] fix: xlsx: close the file when it cannot be opened,
 damaged files are still XLSX files

---
 xlsx/xlsx.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 3d5eaad..9834f92 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -41,17 +41,27 @@ func (d *Document) Close() error {
 	return d.f.Close()
 }
 
-func Open(filename string) (grate.Source, error) {
+func Open(filename string) (src grate.Source, err error) {
 	f, err := os.Open(filename)
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			f.Close()
+		}
+	}()
 	info, err := f.Stat()
 	if err != nil {
 		return nil, err
 	}
 	z, err := zip.NewReader(f, info.Size())
 	if err != nil {
+		sig := make([]byte, 4)
+		if n, _ := f.ReadAt(sig, 0); n == 4 && string(sig) == "PK\x03\x04" {
+			// it's a damaged ZIP file
+			return nil, err
+		}
 		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
 	}
 	d := &Document{
@@ -64,13 +74,16 @@ func Open(filename string) (grate.Source, error) {
 
 	// parse the primary relationships
 	dec, c, err := d.openXML("_rels/.rels")
-	if err != nil {
+	if err == io.EOF {
 		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
 	}
+	if err != nil {
+		return nil, err
+	}
 	err = d.parseRels(dec, "")
 	c.Close()
 	if err != nil {
-		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
+		return nil, err
 	}
 	if d.primaryDoc == "" {
 		return nil, errors.New("xlsx: invalid document")
-- 
2.43.0


From fadbf15210c634a2c8283674e21cf0e41390ac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 22/62] fix: xlsx: incomplete XML parts are an error

---
 xlsx/sheets.go   |  5 +++++
 xlsx/workbook.go |  8 ++++----
 xlsx/xlsx.go     | 28 ++++++++++++++++++++++++++--
 3 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index fc9c76b..9b60252 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -47,6 +47,11 @@ func (s *Sheet) parseSheet() error {
 			}
 		}
 		clo.Close()
+		if err != io.EOF {
+			return err
+		}
+	} else if err != io.EOF {
+		return err
 	}
 
 	dec, clo, err = s.d.openXML(s.docname)
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index d789562..eab4f6e 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -12,7 +12,7 @@ import (
 	"github.com/pbnjay/grate"
 )
 
-func (d *Document) parseRels(dec *xml.Decoder, basedir string) error {
+func (d *Document) parseRels(dec *xmlReader, basedir string) error {
 	tok, err := dec.RawToken()
 	for ; err == nil; tok, err = dec.RawToken() {
 		switch v := tok.(type) {
@@ -56,7 +56,7 @@ func (d *Document) parseRels(dec *xml.Decoder, basedir string) error {
 	return err
 }
 
-func (d *Document) parseWorkbook(dec *xml.Decoder) error {
+func (d *Document) parseWorkbook(dec *xmlReader) error {
 	tok, err := dec.RawToken()
 	for ; err == nil; tok, err = dec.RawToken() {
 		switch v := tok.(type) {
@@ -101,7 +101,7 @@ func (d *Document) parseWorkbook(dec *xml.Decoder) error {
 	return err
 }
 
-func (d *Document) parseStyles(dec *xml.Decoder) error {
+func (d *Document) parseStyles(dec *xmlReader) error {
 	baseNumFormats := []string{}
 	d.xfs = d.xfs[:0]
 
@@ -181,7 +181,7 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 	return err
 }
 
-func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
+func (d *Document) parseSharedStrings(dec *xmlReader) error {
 	val := ""
 	tok, err := dec.RawToken()
 	for ; err == nil; tok, err = dec.RawToken() {
diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 9834f92..80f995a 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -145,7 +145,31 @@ func Open(filename string) (src grate.Source, err error) {
 	return d, nil
 }
 
-func (d *Document) openXML(name string) (*xml.Decoder, io.Closer, error) {
+// xmlReader reads XML tokens, and reports an error if a document is incomplete.
+type xmlReader struct {
+	*xml.Decoder
+
+	started bool
+	depth   int // number of open elements
+}
+
+// RawToken returns the next token, and io.EOF after a complete document.
+func (x *xmlReader) RawToken() (xml.Token, error) {
+	tok, err := x.Decoder.RawToken()
+	switch tok.(type) {
+	case xml.StartElement:
+		x.started = true
+		x.depth++
+	case xml.EndElement:
+		x.depth--
+	}
+	if err == io.EOF && (!x.started || x.depth > 0) {
+		err = io.ErrUnexpectedEOF
+	}
+	return tok, err
+}
+
+func (d *Document) openXML(name string) (*xmlReader, io.Closer, error) {
 	if grate.Debug {
 		log.Println("    openXML", name)
 	}
@@ -156,7 +180,7 @@ func (d *Document) openXML(name string) (*xml.Decoder, io.Closer, error) {
 				return nil, nil, err
 			}
 			dec := xml.NewDecoder(zfr)
-			return dec, zfr, nil
+			return &xmlReader{Decoder: dec}, zfr, nil
 		}
 	}
 	return nil, nil, io.EOF
-- 
2.43.0


From 58e46496095d7bc223c6879f7025fb4022ca6b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 23/62] fix: xlsx: find chart sheets and absolute part names,
 use the 1904 date system

---
 xlsx/workbook.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index eab4f6e..9f3ceae 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -35,7 +35,7 @@ func (d *Document) parseRels(dec *xmlReader, basedir string) error {
 					d.rels[vals["Type"]][vals["Id"]] = filepath.Join(basedir, vals["Target"])
 				}
 				if vals["Type"] == "http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" {
-					d.primaryDoc = vals["Target"]
+					d.primaryDoc = d.rels[vals["Type"]][vals["Id"]]
 				}
 			default:
 				if grate.Debug {
@@ -61,6 +61,10 @@ func (d *Document) parseWorkbook(dec *xmlReader) error {
 	for ; err == nil; tok, err = dec.RawToken() {
 		switch v := tok.(type) {
 		case xml.StartElement:
+			if dec.depth == 1 && v.Name.Local != "workbook" {
+				// some other type of document
+				return grate.ErrNotInFormat
+			}
 			switch v.Name.Local {
 			case "sheet":
 				vals := make(map[string]string, 5)
@@ -73,13 +77,21 @@ func (d *Document) parseWorkbook(dec *xmlReader) error {
 					return errors.New("xlsx: invalid sheet definition")
 				}
 				s := &Sheet{
-					d:       d,
-					relID:   sheetID,
-					name:    sheetName,
-					docname: d.rels["http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet"][sheetID],
-					err:     errNotLoaded,
+					d:     d,
+					relID: sheetID,
+					name:  sheetName,
+					err:   errNotLoaded,
+				}
+				// usually a worksheet, but there are also charts and dialogs
+				for _, ids := range d.rels {
+					if target, ok := ids[sheetID]; ok {
+						s.docname = target
+					}
 				}
 				d.sheets = append(d.sheets, s)
+			case "workbookPr":
+				ax := getAttrs(v.Attr, "date1904")
+				d.fmt.Mode1904(ax[0] == "1" || ax[0] == "true")
 			case "workbook", "sheets":
 				// containers
 			default:
-- 
2.43.0


From 98cf5bc0afb618a5cadc6dcb00657d70469903cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 24/62] fix: xlsx: damaged styles do not panic

---
 xlsx/workbook.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 9f3ceae..14ef39c 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -127,16 +127,14 @@ func (d *Document) parseStyles(dec *xmlReader) error {
 				// container
 			case "numFmt":
 				ax := getAttrs(v.Attr, "numFmtId", "formatCode")
-				fmtNo, _ := strconv.ParseInt(ax[0], 10, 16)
+				fmtNo, _ := strconv.ParseUint(ax[0], 10, 16)
 				d.fmt.Add(uint16(fmtNo), ax[1])
 
 			case "cellStyleXfs":
 				section = 1
 			case "cellXfs":
 				section = 2
-				ax := getAttrs(v.Attr, "count")
-				n, _ := strconv.ParseInt(ax[0], 10, 64)
-				d.xfs = make([]uint16, 0, n)
+				d.xfs = d.xfs[:0]
 
 			case "xf":
 				ax := getAttrs(v.Attr, "numFmtId", "applyNumberFormat", "xfId")
@@ -152,7 +150,7 @@ func (d *Document) parseStyles(dec *xmlReader) error {
 					// 1) get base style so we can inherit format properly
 					baseID, _ := strconv.ParseInt(ax[2], 10, 64)
 					numFmtID := "0"
-					if len(baseNumFormats) > int(baseID) {
+					if baseID >= 0 && int64(len(baseNumFormats)) > baseID {
 						numFmtID = baseNumFormats[baseID]
 					}
 
@@ -164,10 +162,10 @@ func (d *Document) parseStyles(dec *xmlReader) error {
 						numFmtID = ax[0]
 					}
 
-					nfid, _ := strconv.ParseInt(numFmtID, 10, 16)
+					nfid, _ := strconv.ParseUint(numFmtID, 10, 16)
 					d.xfs = append(d.xfs, uint16(nfid))
-				} else {
-					panic("wheres is this xf??")
+				} else if grate.Debug {
+					log.Println("  Unhandled style xml tag", v.Name.Local, v.Attr)
 				}
 			default:
 				if grate.Debug {
-- 
2.43.0


From 8db5b5ce039909e040725d0e8f2d21ea3da83be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 25/62] fix: xlsx: shared strings are their text elements only

---
 xlsx/workbook.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 14ef39c..5fd669e 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -192,18 +192,25 @@ func (d *Document) parseStyles(dec *xmlReader) error {
 }
 
 func (d *Document) parseSharedStrings(dec *xmlReader) error {
-	val := ""
+	var val strings.Builder
+	inText, inPhonetic := false, false
 	tok, err := dec.RawToken()
 	for ; err == nil; tok, err = dec.RawToken() {
 		switch v := tok.(type) {
 		case xml.CharData:
-			val += string(v)
+			if inText && !inPhonetic {
+				val.Write(v)
+			}
 		case xml.StartElement:
 			switch v.Name.Local {
 			case "si":
-				val = ""
+				val.Reset()
 			case "t":
 				// no attributes to parse, we only want the CharData ...
+				inText = true
+			case "rPh":
+				// pronunciation of the text
+				inPhonetic = true
 			case "sst":
 				// main container
 			default:
@@ -212,9 +219,13 @@ func (d *Document) parseSharedStrings(dec *xmlReader) error {
 				}
 			}
 		case xml.EndElement:
-			if v.Name.Local == "si" {
-				d.strings = append(d.strings, val)
-				continue
+			switch v.Name.Local {
+			case "si":
+				d.strings = append(d.strings, val.String())
+			case "t":
+				inText = false
+			case "rPh":
+				inPhonetic = false
 			}
 		default:
 			if grate.Debug {
-- 
2.43.0


From 4499e761a8e7c968ae22b0a6abcf5fc6ccf6c20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 26/62] fix: xlsx: package relationships are not workbook
 relationships

---
 xlsx/xlsx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 80f995a..ea91f7e 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -89,7 +89,8 @@ func Open(filename string) (src grate.Source, err error) {
 		return nil, errors.New("xlsx: invalid document")
 	}
 
-	// parse the secondary relationships to primary doc
+	// parse the secondary relationships to primary doc, which use their own ids
+	d.rels = make(map[string]map[string]string, 4)
 	base := filepath.Base(d.primaryDoc)
 	sub := strings.TrimSuffix(d.primaryDoc, base)
 	relfn := filepath.Join(sub, "_rels", base+".rels")
-- 
2.43.0


From 947abc77763641340a9a577f118a02ffacb1b90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 27/62] fix: xlsx: read cell values from their elements only,
 without references, in any layout

---
 xlsx/sheets.go | 202 +++++++++++++++++++++++++++++--------------------
 xlsx/types.go  |  45 ++++++++---
 2 files changed, 155 insertions(+), 92 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 9b60252..ceec443 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"io"
 	"log"
+	"math"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -24,6 +25,8 @@ type Sheet struct {
 	wrapped *commonxl.Sheet
 }
 
+var errInvalidRef = errors.New("xlsx: invalid cell reference")
+
 var errNotLoaded = errors.New("xlsx: sheet not loaded")
 
 func (s *Sheet) parseSheet() error {
@@ -61,74 +64,44 @@ func (s *Sheet) parseSheet() error {
 	defer clo.Close()
 
 	currentCellType := BlankCellType
-	currentCell := ""
+	currentRow, currentCol := -1, -1
+	inCell, inText, inInline, inPhonetic := false, false, false, false
+	hasText := false
+	text := []byte{} // contents of the current cell
 	var fno uint16
-	var maxCol, maxRow int
+	var merged []commonxl.CellRange
 
 	tok, err := dec.RawToken()
 	for ; err == nil; tok, err = dec.RawToken() {
 		switch v := tok.(type) {
 		case xml.CharData:
-			if currentCell == "" {
-				continue
-			}
-			c, r := refToIndexes(currentCell)
-			if c >= 0 && r >= 0 {
-				var val interface{} = string(v)
-
-				switch currentCellType {
-				case BooleanCellType:
-					if v[0] == '1' {
-						val = true
-					} else {
-						val = false
-					}
-				case DateCellType:
-					log.Println("CELL DATE", val, fno)
-				case NumberCellType:
-					fval, err := strconv.ParseFloat(string(v), 64)
-					if err == nil {
-						val = fval
-					}
-					//log.Println("CELL NUMBER", val, numFormat)
-				case SharedStringCellType:
-					//log.Println("CELL SHSTR", val, currentCellType, numFormat)
-					si, _ := strconv.ParseInt(string(v), 10, 64)
-					val = s.d.strings[si]
-				case BlankCellType:
-					//log.Println("CELL BLANK")
-					// don't place any values
-					continue
-				case ErrorCellType, FormulaStringCellType, InlineStringCellType:
-					//log.Println("CELL ERR/FORM/INLINE", val, currentCellType)
-				default:
-					log.Println("CELL UNKNOWN", val, currentCellType, fno)
-				}
-				s.wrapped.Put(r, c, val, fno)
-			} else {
-				//log.Println("FAIL row/col: ", currentCell)
+			// NB the text of a cell may be split
+			if inText {
+				text = append(text, v...)
+				hasText = true
 			}
 		case xml.StartElement:
 			switch v.Name.Local {
 			case "dimension":
 				ax := getAttrs(v.Attr, "ref")
-				if ax[0] == "A1" {
-					maxCol, maxRow = 1, 1
-					// short-circuit empty sheet
-					s.wrapped.Resize(1, 1)
-					continue
-				}
 				dims := strings.Split(ax[0], ":")
-				if len(dims) == 1 {
-					maxCol, maxRow = refToIndexes(dims[0])
-				} else {
-					//minCol, minRow := refToIndexes(dims[0])
-					maxCol, maxRow = refToIndexes(dims[1])
+				maxCol, maxRow := refToIndexes(dims[len(dims)-1])
+				if maxCol >= 0 && maxRow >= 0 {
+					s.wrapped.Resize(maxRow+1, maxCol+1)
 				}
-				s.wrapped.Resize(maxRow, maxCol)
 				//log.Println("DIMENSION:", s.minRow, s.minCol, ">", s.maxRow, s.maxCol)
 			case "row":
-				//currentRow = ax["r"] // unsigned int row index
+				// the row number is optional
+				ax := getAttrs(v.Attr, "r")
+				currentRow++
+				currentCol = -1
+				if ax[0] != "" {
+					rn, err := strconv.ParseUint(ax[0], 10, 32)
+					if err != nil || rn < 1 || rn > maxRows {
+						return errInvalidRef
+					}
+					currentRow = int(rn) - 1
+				}
 				//log.Println("ROW", currentRow)
 			case "c":
 				ax := getAttrs(v.Attr, "t", "r", "s")
@@ -136,17 +109,34 @@ func (s *Sheet) parseSheet() error {
 				if currentCellType == BlankCellType {
 					currentCellType = NumberCellType
 				}
-				currentCell = ax[1] // always an A1 style reference
+				// the reference is optional
+				currentCol++
+				if ax[1] != "" {
+					currentCol, currentRow = refToIndexes(ax[1])
+				}
+				if currentCol < 0 || currentCol >= maxCols || currentRow < 0 || currentRow >= maxRows {
+					return errInvalidRef
+				}
 				style := ax[2]
 				sid, _ := strconv.ParseInt(style, 10, 64)
-				if len(s.d.xfs) > int(sid) {
+				if sid >= 0 && int64(len(s.d.xfs)) > sid {
 					fno = s.d.xfs[sid]
 				} else {
 					fno = 0
 				}
+				inCell, inInline, hasText = true, false, false
+				text = text[:0]
 				//log.Println("CELL", currentCell, sid, numFormat, currentCellType)
 			case "v":
+				inText = inCell
 				//log.Println("CELL VALUE", ax)
+			case "is":
+				inInline = inCell
+			case "rPh":
+				// pronunciation of the text
+				inPhonetic = true
+			case "t":
+				inText = inInline && !inPhonetic
 
 			case "mergeCell":
 				ax := getAttrs(v.Attr, "ref")
@@ -156,36 +146,28 @@ func (s *Sheet) parseSheet() error {
 				if len(dims) > 1 {
 					endCol, endRow = refToIndexes(dims[1])
 				}
-				if endRow > maxRow {
-					endRow = maxRow
-				}
-				if endCol > maxCol {
-					endCol = maxCol
-				}
-				for r := startRow; r <= endRow; r++ {
-					for c := startCol; c <= endCol; c++ {
-						if r == startRow && c == startCol {
-							// has data already!
-						} else if c == startCol {
-							// first and last column MAY be the same
-							if r == endRow {
-								s.wrapped.Put(r, c, grate.EndRowMerged, 0)
-							} else {
-								s.wrapped.Put(r, c, grate.ContinueRowMerged, 0)
-							}
-						} else if c == endCol {
-							// first and last column are NOT the same
-							s.wrapped.Put(r, c, grate.EndColumnMerged, 0)
-						} else {
-							s.wrapped.Put(r, c, grate.ContinueColumnMerged, 0)
-						}
-					}
+				if startCol < 0 || startRow < 0 || endCol < 0 || endRow < 0 {
+					return errInvalidRef
 				}
+				merged = append(merged, commonxl.CellRange{
+					FirstRow: startRow, LastRow: endRow,
+					FirstCol: startCol, LastCol: endCol,
+				})
 
 			case "hyperlink":
-				ax := getAttrs(v.Attr, "ref", "id")
-				col, row := refToIndexes(ax[0])
-				link := linkmap[ax[1]]
+				ax := getAttrs(v.Attr, "ref", "id", "location")
+				col, row := refToIndexes(strings.Split(ax[0], ":")[0])
+				if col < 0 || row < 0 {
+					return errInvalidRef
+				}
+				link, ok := linkmap[ax[1]]
+				if !ok {
+					// a location inside of the workbook
+					continue
+				}
+				if ax[2] != "" {
+					link += "#" + ax[2]
+				}
 				s.wrapped.Put(row, col, link, 0)
 				s.wrapped.SetURL(row, col, link)
 
@@ -201,8 +183,26 @@ func (s *Sheet) parseSheet() error {
 		case xml.EndElement:
 
 			switch v.Name.Local {
+			case "v", "t":
+				inText = false
+			case "is":
+				inInline = false
+			case "rPh":
+				inPhonetic = false
 			case "c":
-				currentCell = ""
+				if !inCell {
+					continue
+				}
+				inCell = false
+				if !hasText {
+					// don't place any values
+					continue
+				}
+				val, err := s.cellValue(currentCellType, string(text))
+				if err != nil {
+					return err
+				}
+				s.wrapped.Put(currentRow, currentCol, val, fno)
 			case "row":
 				//currentRow = ""
 			}
@@ -215,5 +215,41 @@ func (s *Sheet) parseSheet() error {
 	if err == io.EOF {
 		err = nil
 	}
+	if err == nil {
+		err = s.wrapped.Merge(merged)
+	}
 	return err
 }
+
+// cellValue returns the value of a cell stored as the text given.
+func (s *Sheet) cellValue(ct CellType, text string) (interface{}, error) {
+	switch ct {
+	case BooleanCellType:
+		b := strings.TrimSpace(text)
+		return b == "1" || b == "true", nil
+	case DateCellType:
+		//log.Println("CELL DATE", val, fno)
+	case NumberCellType:
+		fval, err := strconv.ParseFloat(strings.TrimSpace(text), 64)
+		if err == nil {
+			if fval == math.Trunc(fval) && math.Abs(fval) < 1<<53 {
+				// whole numbers are integers, however they are written
+				return int64(fval), nil
+			}
+			return fval, nil
+		}
+		//log.Println("CELL NUMBER", val, numFormat)
+	case SharedStringCellType:
+		//log.Println("CELL SHSTR", val, currentCellType, numFormat)
+		si, err := strconv.ParseUint(strings.TrimSpace(text), 10, 32)
+		if err != nil || si >= uint64(len(s.d.strings)) {
+			return nil, errors.New("xlsx: invalid shared string")
+		}
+		return s.d.strings[si], nil
+	case ErrorCellType, FormulaStringCellType, InlineStringCellType:
+		//log.Println("CELL ERR/FORM/INLINE", val, currentCellType)
+	default:
+		log.Println("CELL UNKNOWN", text, ct)
+	}
+	return text, nil
+}
diff --git a/xlsx/types.go b/xlsx/types.go
index 427c0c0..6e9df39 100644
--- a/xlsx/types.go
+++ b/xlsx/types.go
@@ -54,7 +54,17 @@ func col2int(col string) int {
 	return idx - 1
 }
 
+// limits of the sheet size.
+const (
+	maxRows = 1048576
+	maxCols = 16384
+)
+
+// returns the 0-based indexes of an A1 or R1C1 reference, or -1,-1 if it
+// is invalid or outside of the limits of a sheet.
 func refToIndexes(r string) (column, row int) {
+	// absolute references are the same cells
+	r = strings.ReplaceAll(r, "$", "")
 	if len(r) < 2 {
 		return -1, -1
 	}
@@ -64,19 +74,36 @@ func refToIndexes(r string) (column, row int) {
 	}
 
 	// A1 Reference mode
-	col1 := r[:i1]
+	col1, row1 := r[:i1], r[i1:]
 	i2 := strings.IndexByte(r[i1:], 'C')
 	if i2 == -1 {
-		rn, _ := strconv.ParseInt(r[i1:], 10, 64)
-		return col2int(col1), int(rn) - 1
+		if len(col1) > 3 {
+			return -1, -1
+		}
+		for _, c := range col1 {
+			if c < 'A' || c > 'Z' {
+				return -1, -1
+			}
+		}
+		column = col2int(col1)
+	} else {
+		// R1C1 Reference Mode
+		if col1 != "R" {
+			return -1, -1
+		}
+		row1 = r[i1 : i1+i2]
+		cn, err := strconv.ParseUint(r[i1+i2+1:], 10, 32)
+		if err != nil {
+			return -1, -1
+		}
+		column = int(cn) - 1
 	}
 
-	// R1C1 Reference Mode
-	col1 = r[i1:i2]
-	row1 := r[i2+1:]
-	cn, _ := strconv.ParseInt(col1, 10, 64)
-	rn, _ := strconv.ParseInt(row1, 10, 64)
-	return int(cn), int(rn) - 1
+	rn, err := strconv.ParseUint(row1, 10, 32)
+	if err != nil || rn < 1 || rn > maxRows || column < 0 || column >= maxCols {
+		return -1, -1
+	}
+	return column, int(rn) - 1
 }
 
 func getAttrs(attrs []xml.Attr, keys ...string) []string {
-- 
2.43.0


From 9cf12218eb0cf49dc8b28e730fef984c8fd6fe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 28/62] fix: xlsx: every Get starts at the first row

---
 xlsx/xlsx.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index ea91f7e..47fbfc5 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -201,7 +201,13 @@ func (d *Document) Get(sheetName string) (grate.Collection, error) {
 			if s.err == errNotLoaded {
 				s.err = s.parseSheet()
 			}
-			return s.wrapped, s.err
+			if s.err != nil {
+				return nil, s.err
+			}
+			// the cells are shared, but every iteration starts at the first row
+			w := *s.wrapped
+			w.CurRow = 0
+			return &w, nil
 		}
 	}
 	return nil, errors.New("xlsx: sheet not found")
-- 
2.43.0


From 1f8ae9bd0e35464b9872d8cdd1399205fcc63d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 29/62] fix: simple: the end of a CSV file is not an error

---
 simple/csv.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple/csv.go b/simple/csv.go
index 8df92e5..a52ea2b 100644
--- a/simple/csv.go
+++ b/simple/csv.go
@@ -2,6 +2,7 @@ package simple
 
 import (
 	"encoding/csv"
+	"io"
 	"os"
 
 	"github.com/pbnjay/grate"
@@ -33,7 +34,7 @@ func OpenCSV(filename string) (grate.Source, error) {
 		total++
 		t.rows = append(t.rows, rec)
 	}
-	if err != nil {
+	if err != nil && err != io.EOF {
 		switch perr := err.(type) {
 		case *csv.ParseError:
 			return nil, grate.WrapErr(perr, grate.ErrNotInFormat)
-- 
2.43.0


From 247f9cf1b12fcccb7ce602a33896efb9f92b66eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 30/62] fix: simple: CSV files are not TSV files, and binary
 files are neither

---
 simple/csv.go    |  3 +++
 simple/simple.go | 10 ++++++++++
 simple/tsv.go    | 25 ++++++++++++++++++++++++-
 3 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/simple/csv.go b/simple/csv.go
index a52ea2b..bb1b45f 100644
--- a/simple/csv.go
+++ b/simple/csv.go
@@ -30,6 +30,9 @@ func OpenCSV(filename string) (grate.Source, error) {
 	ncols := make(map[int]int)
 	rec, err := s.Read()
 	for ; err == nil; rec, err = s.Read() {
+		if isBinary(rec) {
+			return nil, grate.ErrNotInFormat
+		}
 		ncols[len(rec)]++
 		total++
 		t.rows = append(t.rows, rec)
diff --git a/simple/simple.go b/simple/simple.go
index b26669e..61dfe8a 100644
--- a/simple/simple.go
+++ b/simple/simple.go
@@ -18,6 +18,16 @@ type simpleFile struct {
 	iterRow  int
 }
 
+// isBinary returns true if the record is not from a text file.
+func isBinary(rec []string) bool {
+	for _, v := range rec {
+		if strings.IndexByte(v, 0) >= 0 {
+			return true
+		}
+	}
+	return false
+}
+
 // List the individual data tables within this source.
 func (t *simpleFile) List() ([]string, error) {
 	return []string{filepath.Base(t.filename)}, nil
diff --git a/simple/tsv.go b/simple/tsv.go
index ae51707..0e0cd10 100644
--- a/simple/tsv.go
+++ b/simple/tsv.go
@@ -8,7 +8,27 @@ import (
 	"github.com/pbnjay/grate"
 )
 
-var _ = grate.Register("tsv", 10, OpenTSV)
+var _ = grate.Register("tsv", 10, detectTSV)
+
+// detectTSV opens the file if it is most likely a TSV file. Any text file
+// is a TSV file with one column, but those with commas may be CSV files.
+func detectTSV(filename string) (grate.Source, error) {
+	src, err := OpenTSV(filename)
+	if err != nil {
+		return nil, err
+	}
+	hasCommas := false
+	for _, r := range src.(*simpleFile).rows {
+		if len(r) > 1 {
+			return src, nil
+		}
+		hasCommas = hasCommas || strings.Contains(r[0], ",")
+	}
+	if hasCommas {
+		return nil, grate.ErrNotInFormat
+	}
+	return src, nil
+}
 
 // OpenTSV defines a Source's instantiation function.
 // It should return ErrNotInFormat immediately if filename is not of the correct file type.
@@ -28,6 +48,9 @@ func OpenTSV(filename string) (grate.Source, error) {
 	ncols := make(map[int]int)
 	for s.Scan() {
 		r := strings.Split(s.Text(), "\t")
+		if isBinary(r) {
+			return nil, grate.ErrNotInFormat
+		}
 		ncols[len(r)]++
 		total++
 		t.rows = append(t.rows, r)
-- 
2.43.0


From a5a6f7e860d99de978488008592c873f6f320e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 31/62] fix: simple: read TSV lines of any length

---
 simple/tsv.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simple/tsv.go b/simple/tsv.go
index 0e0cd10..09ded90 100644
--- a/simple/tsv.go
+++ b/simple/tsv.go
@@ -30,6 +30,9 @@ func detectTSV(filename string) (grate.Source, error) {
 	return src, nil
 }
 
+// maxLineSize is the size limit of one line in a TSV file.
+const maxLineSize = 1 << 30
+
 // OpenTSV defines a Source's instantiation function.
 // It should return ErrNotInFormat immediately if filename is not of the correct file type.
 func OpenTSV(filename string) (grate.Source, error) {
@@ -44,6 +47,7 @@ func OpenTSV(filename string) (grate.Source, error) {
 	}
 
 	s := bufio.NewScanner(f)
+	s.Buffer(nil, maxLineSize)
 	total := 0
 	ncols := make(map[int]int)
 	for s.Scan() {
-- 
2.43.0


From 1ffdefd0967f4b154e755d4d0f1fcac06f4be871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 32/62] fix: simple: every Get starts at the first row, files
 with only blanks are empty

---
 simple/simple.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/simple/simple.go b/simple/simple.go
index 61dfe8a..bca5067 100644
--- a/simple/simple.go
+++ b/simple/simple.go
@@ -39,19 +39,27 @@ func (t *simpleFile) Close() error {
 
 // Get a Collection from the source by name.
 func (t *simpleFile) Get(name string) (grate.Collection, error) {
-	return t, nil
+	// the rows are shared, but every iteration starts at the first row
+	return &simpleFile{
+		filename: t.filename,
+		rows:     t.rows,
+		iterRow:  -1,
+	}, nil
 }
 
 // Next advances to the next record of content.
 // It MUST be called prior to any Scan().
 func (t *simpleFile) Next() bool {
+	if t.iterRow+1 >= len(t.rows) {
+		return false
+	}
 	t.iterRow++
-	return t.iterRow < len(t.rows)
+	return true
 }
 
 // Strings extracts values from the current record into a list of strings.
 func (t *simpleFile) Strings() []string {
-	return t.rows[t.iterRow]
+	return append([]string{}, t.rows[t.iterRow]...)
 }
 
 // Formats extracts the format code for the current record into a list.
@@ -119,7 +127,14 @@ func (t *simpleFile) Scan(args ...interface{}) error {
 
 // IsEmpty returns true if there are no data values.
 func (t *simpleFile) IsEmpty() bool {
-	return len(t.rows) == 0
+	for _, row := range t.rows {
+		for _, v := range row {
+			if v != "" {
+				return false
+			}
+		}
+	}
+	return true
 }
 
 // Err returns the last error that occured.
-- 
2.43.0


From 5872e07675e27fb33290a9bc8f451b37c18b655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 33/62] fix: simple: Scan does not read any text as false, and
 reads int64

---
 simple/simple.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/simple/simple.go b/simple/simple.go
index bca5067..dd38fc8 100644
--- a/simple/simple.go
+++ b/simple/simple.go
@@ -88,7 +88,7 @@ func (t *simpleFile) Types() []string {
 
 // Scan extracts values from the current record into the provided arguments
 // Arguments must be pointers to one of 5 supported types:
-//     bool, int, float64, string, or time.Time
+//     bool, int, int64, float64, string, or time.Time
 func (t *simpleFile) Scan(args ...interface{}) error {
 	var err error
 	row := t.rows[t.iterRow]
@@ -102,13 +102,15 @@ func (t *simpleFile) Scan(args ...interface{}) error {
 			switch strings.ToLower(row[i]) {
 			case "1", "t", "true", "y", "yes":
 				*v = true
-			default:
+			case "0", "f", "false", "n", "no":
 				*v = false
+			default:
+				return fmt.Errorf("grate/simple: Scan destination %d expected *string, not *bool", i)
 			}
 		case *int:
-			var n int64
-			n, err = strconv.ParseInt(row[i], 10, 64)
-			*v = int(n)
+			*v, err = strconv.Atoi(row[i])
+		case *int64:
+			*v, err = strconv.ParseInt(row[i], 10, 64)
 		case *float64:
 			*v, err = strconv.ParseFloat(row[i], 64)
 		case *string:
-- 
2.43.0


From e5b09f56b80d36ddb83f63ea58af083a4877c0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 34/62] fix: grate2tsv: do not wait forever when there is only
 one CPU

---
 cmd/grate2tsv/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index 61550e4..73d0945 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -119,6 +119,9 @@ func main() {
 	// (e.g. each file-processor can use 2 cpus)
 	outMu := &sync.Mutex{}
 	nparallel := runtime.NumCPU() / 2
+	if nparallel < 1 {
+		nparallel = 1
+	}
 	procWG.Add(nparallel)
 	for i := 0; i < nparallel; i++ {
 		go runProcessor(filenameChan, outMu)
-- 
2.43.0


From 9c24fcdc71ebacd180cd22a6e83b3c57db6ee817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 35/62] fix: grate2tsv: remove newlines without trimming, count
 all columns

---
 cmd/grate2tsv/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index 73d0945..b1d17ae 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -240,12 +240,12 @@ func processFile(fn string) ([]stats, error) {
 				}
 				if *trimSpaces {
 					x = strings.TrimSpace(x)
-					row[i] = x
 				}
+				row[i] = x
 				if x != "" {
 					nonblank = true
-					if ps.NumCols < i {
-						ps.NumCols = i
+					if ps.NumCols < i+1 {
+						ps.NumCols = i + 1
 					}
 				}
 			}
-- 
2.43.0


From 948cf1599265fbb4dd3cf59a380591657428d26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 36/62] fix: grate2tsv: sheets with similar names have their
 own files

---
 cmd/grate2tsv/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index b1d17ae..38d34ec 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -196,6 +196,7 @@ func processFile(fn string) ([]stats, error) {
 	if err != nil {
 		return nil, err
 	}
+	used := make(map[string]bool)
 	for _, s := range sheets {
 		ps := stats{
 			Filename:  fn,
@@ -218,6 +219,11 @@ func processFile(fn string) ([]stats, error) {
 		if s == fn {
 			s2 = "main"
 		}
+		// different sheets may have the same sanitized name
+		for n, base := 2, s2; used[s2]; n++ {
+			s2 = fmt.Sprintf("%s_%d", base, n)
+		}
+		used[s2] = true
 		var ox *output
 		var w io.Writer = ioutil.Discard
 		if !*pretend {
-- 
2.43.0


From 9a8539ee1b2dc96765ff86dbcecbca9cf4211be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:44 +0000
Subject: [PATCH 37/62] fix: merged ranges outside of the sheet do not use up
 the limit of the others

---
 commonxl/sheet.go | 44 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index ad9bf2d..2d984c3 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -119,23 +119,49 @@ type CellRange struct {
 	KeepValues bool
 }
 
-// maxMerged is the number of cells that merged ranges may add to a sheet.
-const maxMerged = 1 << 16
+// maxMerged is the number of cells that merged ranges may add to a sheet, and
+// maxMarked the number of cells they may mark in total.
+const (
+	maxMerged = 1 << 16
+	maxMarked = 1 << 23
+)
 
 // Merge places markers in all cells of the ranges except for the first ones.
 // Very large ranges are only marked within the current size of the sheet.
 func (s *Sheet) Merge(ranges []CellRange) error {
 	numRows, numCols := s.NumRows, s.NumCols
-	limit := numRows*numCols + maxMerged
+	limit := maxMarked
+	if numRows < maxMarked/4/(numCols+1) {
+		// ranges of links can share cells with other ranges
+		limit = 4*numRows*numCols + maxMerged
+	}
+	extra := maxMerged
 	for _, cr := range ranges {
 		endRow, endCol := cr.LastRow, cr.LastCol
-		if endRow-cr.FirstRow >= limit || endCol-cr.FirstCol >= limit ||
-			(endRow-cr.FirstRow+1)*(endCol-cr.FirstCol+1) > limit {
-			if endRow >= numRows {
-				endRow = numRows - 1
+		if endRow < cr.FirstRow || endCol < cr.FirstCol {
+			continue
+		}
+		if endRow >= numRows || endCol >= numCols {
+			inRows, inCols := numRows-cr.FirstRow, numCols-cr.FirstCol
+			if inRows > endRow-cr.FirstRow+1 {
+				inRows = endRow - cr.FirstRow + 1
+			}
+			if inCols > endCol-cr.FirstCol+1 {
+				inCols = endCol - cr.FirstCol + 1
 			}
-			if endCol >= numCols {
-				endCol = numCols - 1
+			outside := (endRow - cr.FirstRow + 1) * (endCol - cr.FirstCol + 1)
+			if inRows > 0 && inCols > 0 {
+				outside -= inRows * inCols
+			}
+			if outside <= extra {
+				extra -= outside
+			} else {
+				if endRow >= numRows {
+					endRow = numRows - 1
+				}
+				if endCol >= numCols {
+					endCol = numCols - 1
+				}
 			}
 		}
 		for r := cr.FirstRow; r <= endRow; r++ {
-- 
2.43.0


From 035423200a4ee07c5856b108c3a7dc5472a6a46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:08 +0000
Subject: [PATCH 38/62] fix: commonxl: dates use the first section of their
 format

---
 commonxl/fmt.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 4ae121a..a65f2f5 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -6,6 +6,7 @@ import (
 	"math/big"
 	"strconv"
 	"strings"
+	"time"
 )
 
 // FmtFunc will format a value according to the designated style.
@@ -236,6 +237,10 @@ func switchFmtFunc(pos FmtFunc, others ...FmtFunc) FmtFunc {
 		}
 	}
 	return func(x *Formatter, v interface{}) string {
+		if _, ok := v.(time.Time); ok {
+			// dates are positive numbers
+			return pos(x, v)
+		}
 		val, ok := convertToFloat64(v)
 		if !ok {
 			return stringFF(x, v)
-- 
2.43.0


From 9c995aa68d6b773d8bd3dfb44f1a9e46b0db8c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 39/62] fix: digit placeholders after the exponent of a number
 format panicked

---
 commonxl/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonxl/parse.go b/commonxl/parse.go
index ca2d73e..ff0884a 100644
--- a/commonxl/parse.go
+++ b/commonxl/parse.go
@@ -392,7 +392,7 @@ func (nf *numberFormat) format(x *Formatter, v interface{}) string {
 	}
 	// writes the digits of the integer part up to those which are left
 	writeWhole := func(left int) {
-		for len(whole) > left {
+		for len(whole) > left && len(whole) > 0 {
 			sb.WriteByte(whole[0])
 			whole = whole[1:]
 			if nf.grouping && len(whole) > 0 && len(whole)%3 == 0 {
-- 
2.43.0


From 370a8f53a46db842989e77d9860f34be3a89fbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:20 +0000
Subject: [PATCH 40/62] fix: an empty literal before the decimals of a number
 format panicked

---
 commonxl/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commonxl/parse.go b/commonxl/parse.go
index ff0884a..5e4218e 100644
--- a/commonxl/parse.go
+++ b/commonxl/parse.go
@@ -115,8 +115,8 @@ func parseFormat(s string) []formatSection {
 			for i+1+n < len(rs) && rs[i+1+n] == '0' {
 				n++
 			}
-			if k := len(sec) - 1; k >= 0 && n > 0 && sec[k].text[:1] == "s" &&
-				(sec[k].kind == dateToken || sec[k].kind == elapsedToken) {
+			if k := len(sec) - 1; k >= 0 && n > 0 &&
+				(sec[k].kind == dateToken || sec[k].kind == elapsedToken) && sec[k].text[0] == 's' {
 				sec[k].text += string(rs[i : i+1+n])
 				i += n
 			} else {
-- 
2.43.0


From 67b6523a7a7b602393c1b334ff8a5cff1d1e09d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:18 +0000
Subject: [PATCH 41/62] fix: a row inside of a cell of an XLSX sheet panicked

---
 xlsx/sheets.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index ceec443..92db49d 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -95,6 +95,7 @@ func (s *Sheet) parseSheet() error {
 				ax := getAttrs(v.Attr, "r")
 				currentRow++
 				currentCol = -1
+				inCell, inText, inInline = false, false, false
 				if ax[0] != "" {
 					rn, err := strconv.ParseUint(ax[0], 10, 32)
 					if err != nil || rn < 1 || rn > maxRows {
-- 
2.43.0


From 0b7867033cf38ac4d0ad1e8eebc68387e5eef99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:51 +0000
Subject: [PATCH 42/62] fix: commonxl: integers beyond 2^53 lost a digit under
 a decimal format

---
 commonxl/cell.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 6714ba0..ec244a2 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -178,7 +178,8 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 	}
 	if c[1] == IntegerCell {
 		if t == FloatCell {
-			if f := float64(c[0].(int64)); math.Abs(f) <= maxExactInt {
+			i := c[0].(int64)
+			if f := float64(i); math.Abs(f) <= maxExactInt && int64(f) == i {
 				c[0] = f
 				c[1] = FloatCell
 			}
-- 
2.43.0


From fcc111c31e86009b588b24fa3fd436fdc18309f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:52 +0000
Subject: [PATCH 43/62] fix: commonxl: the smallest integer equals its floating
 point text

---
 commonxl/cell.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index ec244a2..6331f9d 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -384,7 +384,7 @@ func (c Cell) Equal(other Cell) bool {
 		if int2 {
 			i1, f1, f2 = i2, f2, f1
 		}
-		return f1 == f2 && math.Abs(f2) < math.MaxInt64 && i1 == int64(f2)
+		return f1 == f2 && f2 < math.MaxInt64 && i1 == int64(f2)
 	}
 	if c.Type() == DateCell || other.Type() == DateCell {
 		t1, ok1 := c.Value().(time.Time)
-- 
2.43.0


From 3b62ebe123c7c9e6d10ae675bfc354885355e83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 44/62] fix: grate2tsv: files with the same base name have
 their own results

---
 cmd/grate2tsv/main.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index 38d34ec..f3b90d1 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -166,6 +166,24 @@ var (
 	newlines = regexp.MustCompile("[ \n\r\t]+")
 )
 
+var (
+	usedMu sync.Mutex
+	used   = make(map[string]bool)
+)
+
+// outputName returns a filename that no other sheet has, since different
+// sheets may have the same sanitized name, and different files the same base.
+func outputName(base string) string {
+	usedMu.Lock()
+	defer usedMu.Unlock()
+	name := base
+	for n := 2; used[name]; n++ {
+		name = fmt.Sprintf("%s_%d", base, n)
+	}
+	used[name] = true
+	return name + ".tsv"
+}
+
 type stats struct {
 	Filename  string
 	Hash      string
@@ -196,7 +214,6 @@ func processFile(fn string) ([]stats, error) {
 	if err != nil {
 		return nil, err
 	}
-	used := make(map[string]bool)
 	for _, s := range sheets {
 		ps := stats{
 			Filename:  fn,
@@ -219,15 +236,10 @@ func processFile(fn string) ([]stats, error) {
 		if s == fn {
 			s2 = "main"
 		}
-		// different sheets may have the same sanitized name
-		for n, base := 2, s2; used[s2]; n++ {
-			s2 = fmt.Sprintf("%s_%d", base, n)
-		}
-		used[s2] = true
 		var ox *output
 		var w io.Writer = ioutil.Discard
 		if !*pretend {
-			f, err := os.Create(subdir + "/" + fn2 + "." + s2 + ".tsv")
+			f, err := os.Create(outputName(subdir + "/" + fn2 + "." + s2))
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 9dc80e262424c36a3d6b1653cbbc2a3ed09ffc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 45/62] fix: decode the _xHHHH_ escapes of texts and sheet
 names in XLSX files

---
 xlsx/sheets.go   | 11 +++++++++--
 xlsx/workbook.go | 28 ++++++++++++++++++++++++++--
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 92db49d..55d633f 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -68,6 +68,7 @@ func (s *Sheet) parseSheet() error {
 	inCell, inText, inInline, inPhonetic := false, false, false, false
 	hasText := false
 	text := []byte{} // contents of the current cell
+	textStart := 0   // of the current element
 	var fno uint16
 	var merged []commonxl.CellRange
 
@@ -126,7 +127,7 @@ func (s *Sheet) parseSheet() error {
 					fno = 0
 				}
 				inCell, inInline, hasText = true, false, false
-				text = text[:0]
+				text, textStart = text[:0], 0
 				//log.Println("CELL", currentCell, sid, numFormat, currentCellType)
 			case "v":
 				inText = inCell
@@ -138,6 +139,7 @@ func (s *Sheet) parseSheet() error {
 				inPhonetic = true
 			case "t":
 				inText = inInline && !inPhonetic
+				textStart = len(text)
 
 			case "mergeCell":
 				ax := getAttrs(v.Attr, "ref")
@@ -185,6 +187,9 @@ func (s *Sheet) parseSheet() error {
 
 			switch v.Name.Local {
 			case "v", "t":
+				if inText && v.Name.Local == "t" {
+					text = append(text[:textStart], unescape(string(text[textStart:]))...)
+				}
 				inText = false
 			case "is":
 				inInline = false
@@ -247,7 +252,9 @@ func (s *Sheet) cellValue(ct CellType, text string) (interface{}, error) {
 			return nil, errors.New("xlsx: invalid shared string")
 		}
 		return s.d.strings[si], nil
-	case ErrorCellType, FormulaStringCellType, InlineStringCellType:
+	case FormulaStringCellType:
+		return unescape(text), nil
+	case ErrorCellType, InlineStringCellType:
 		//log.Println("CELL ERR/FORM/INLINE", val, currentCellType)
 	default:
 		log.Println("CELL UNKNOWN", text, ct)
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 5fd669e..6fcd9ae 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -6,8 +6,10 @@ import (
 	"io"
 	"log"
 	"path/filepath"
+	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf16"
 
 	"github.com/pbnjay/grate"
 )
@@ -79,7 +81,7 @@ func (d *Document) parseWorkbook(dec *xmlReader) error {
 				s := &Sheet{
 					d:     d,
 					relID: sheetID,
-					name:  sheetName,
+					name:  unescape(sheetName),
 					err:   errNotLoaded,
 				}
 				// usually a worksheet, but there are also charts and dialogs
@@ -193,13 +195,14 @@ func (d *Document) parseStyles(dec *xmlReader) error {
 
 func (d *Document) parseSharedStrings(dec *xmlReader) error {
 	var val strings.Builder
+	var text []byte
 	inText, inPhonetic := false, false
 	tok, err := dec.RawToken()
 	for ; err == nil; tok, err = dec.RawToken() {
 		switch v := tok.(type) {
 		case xml.CharData:
 			if inText && !inPhonetic {
-				val.Write(v)
+				text = append(text, v...)
 			}
 		case xml.StartElement:
 			switch v.Name.Local {
@@ -208,6 +211,7 @@ func (d *Document) parseSharedStrings(dec *xmlReader) error {
 			case "t":
 				// no attributes to parse, we only want the CharData ...
 				inText = true
+				text = text[:0]
 			case "rPh":
 				// pronunciation of the text
 				inPhonetic = true
@@ -224,6 +228,8 @@ func (d *Document) parseSharedStrings(dec *xmlReader) error {
 				d.strings = append(d.strings, val.String())
 			case "t":
 				inText = false
+				val.WriteString(unescape(string(text)))
+				text = text[:0]
 			case "rPh":
 				inPhonetic = false
 			}
@@ -238,3 +244,21 @@ func (d *Document) parseSharedStrings(dec *xmlReader) error {
 	}
 	return err
 }
+
+var escapes = regexp.MustCompile("(_x[0-9a-fA-F]{4}_)+")
+
+// unescape decodes the _xHHHH_ escapes of text (ECMA-376 part 1, 22.9.2.19),
+// which stand for characters that are not allowed in XML, or for themselves.
+func unescape(s string) string {
+	if !strings.Contains(s, "_x") {
+		return s
+	}
+	return escapes.ReplaceAllStringFunc(s, func(m string) string {
+		u := make([]uint16, len(m)/7)
+		for i := range u {
+			c, _ := strconv.ParseUint(m[7*i+2:7*i+6], 16, 16)
+			u[i] = uint16(c)
+		}
+		return string(utf16.Decode(u))
+	})
+}
-- 
2.43.0


From c430d4471bb831d6cf66671474184ae6c05c7e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:40 +0000
Subject: [PATCH 46/62] fix: Formats returned the number of custom formats
 instead of their code

---
 commonxl/formats.go | 18 ++++++++++++++++++
 commonxl/sheet.go   |  6 +-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 0d9faf4..610fbd7 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -2,6 +2,7 @@ package commonxl
 
 import (
 	"errors"
+	"fmt"
 	"strings"
 )
 
@@ -10,6 +11,7 @@ type Formatter struct {
 	flags           uint64
 	customCodes     map[uint16]FmtFunc
 	customCodeTypes map[uint16]CellType
+	customCodeNames map[uint16]string
 }
 
 const (
@@ -31,9 +33,11 @@ func (x *Formatter) Add(fmtID uint16, formatCode string) error {
 	if x.customCodes == nil {
 		x.customCodes = make(map[uint16]FmtFunc)
 		x.customCodeTypes = make(map[uint16]CellType)
+		x.customCodeNames = make(map[uint16]string)
 	}
 	if strings.ToLower(formatCode) == "general" {
 		x.customCodes[fmtID] = goFormatters[0]
+		x.customCodeNames[fmtID] = builtInFormats[0]
 		return nil
 	}
 	_, ok := goFormatters[fmtID]
@@ -47,9 +51,23 @@ func (x *Formatter) Add(fmtID uint16, formatCode string) error {
 	}
 
 	x.customCodes[fmtID], x.customCodeTypes[fmtID] = makeFormatter(formatCode)
+	x.customCodeNames[fmtID] = formatCode
 	return nil
 }
 
+// code returns the format code for fmtID, or its number if it is unknown.
+func (x *Formatter) code(fmtID uint16) string {
+	if code, ok := builtInFormats[fmtID]; ok {
+		return code
+	}
+	if x != nil {
+		if code, ok := x.customCodeNames[fmtID]; ok {
+			return code
+		}
+	}
+	return fmt.Sprint(fmtID)
+}
+
 func (x *Formatter) getCellType(fmtID uint16) (CellType, bool) {
 	if ct, ok := builtInFormatTypes[fmtID]; ok {
 		return ct, true
diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 2d984c3..49d37c4 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -277,16 +277,12 @@ func (s *Sheet) Types() []string {
 
 // Formats extracts the format code for the current record into a list.
 func (s *Sheet) Formats() []string {
-	ok := true
 	res := make([]string, s.NumCols)
 	for i := range res {
 		res[i] = builtInFormats[0]
 	}
 	for i, cell := range s.Rows[s.CurRow-1] {
-		res[i], ok = builtInFormats[cell.FormatNo()]
-		if !ok {
-			res[i] = fmt.Sprint(cell.FormatNo())
-		}
+		res[i] = s.Formatter.code(cell.FormatNo())
 	}
 	return res
 }
-- 
2.43.0


From 7515d7450e7a4831522650d1fd0d2da78496ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:18 +0000
Subject: [PATCH 47/62] fix: part names of XLSX packages are not case-sensitive

---
 xlsx/xlsx.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 47fbfc5..f2e5e54 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -174,17 +174,26 @@ func (d *Document) openXML(name string) (*xmlReader, io.Closer, error) {
 	if grate.Debug {
 		log.Println("    openXML", name)
 	}
+	// NB part names are not case-sensitive
+	var part *zip.File
 	for _, zf := range d.r.File {
 		if zf.Name == name {
-			zfr, err := zf.Open()
-			if err != nil {
-				return nil, nil, err
-			}
-			dec := xml.NewDecoder(zfr)
-			return &xmlReader{Decoder: dec}, zfr, nil
+			part = zf
+			break
+		}
+		if part == nil && strings.EqualFold(zf.Name, name) {
+			part = zf
 		}
 	}
-	return nil, nil, io.EOF
+	if part == nil {
+		return nil, nil, io.EOF
+	}
+	zfr, err := part.Open()
+	if err != nil {
+		return nil, nil, err
+	}
+	dec := xml.NewDecoder(zfr)
+	return &xmlReader{Decoder: dec}, zfr, nil
 }
 
 func (d *Document) List() ([]string, error) {
-- 
2.43.0


From 9fe22cef90c298cf878a4f128ffc7116103fabab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 48/62] fix: XLSX workbooks of the Strict variant were refused

---
 xlsx/sheets.go   |  2 +-
 xlsx/workbook.go | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 55d633f..4d703c1 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -44,7 +44,7 @@ func (s *Sheet) parseSheet() error {
 		for ; err == nil; tok, err = dec.RawToken() {
 			if v, ok := tok.(xml.StartElement); ok && v.Name.Local == "Relationship" {
 				ax := getAttrs(v.Attr, "Id", "Type", "Target", "TargetMode")
-				if ax[3] == "External" && ax[1] == "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink" {
+				if ax[3] == "External" && relType(ax[1]) == "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink" {
 					linkmap[ax[0]] = ax[2]
 				}
 			}
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 6fcd9ae..1ab8097 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -27,6 +27,7 @@ func (d *Document) parseRels(dec *xmlReader, basedir string) error {
 				for _, a := range v.Attr {
 					vals[a.Name.Local] = a.Value
 				}
+				vals["Type"] = relType(vals["Type"])
 				if _, ok := d.rels[vals["Type"]]; !ok {
 					d.rels[vals["Type"]] = make(map[string]string)
 				}
@@ -58,6 +59,16 @@ func (d *Document) parseRels(dec *xmlReader, basedir string) error {
 	return err
 }
 
+// relType returns the type of a relationship, which has another prefix in
+// documents of the Strict variant.
+func relType(t string) string {
+	const strict = "http://purl.oclc.org/ooxml/officeDocument/relationships/"
+	if strings.HasPrefix(t, strict) {
+		return "http://schemas.openxmlformats.org/officeDocument/2006/relationships/" + t[len(strict):]
+	}
+	return t
+}
+
 func (d *Document) parseWorkbook(dec *xmlReader) error {
 	tok, err := dec.RawToken()
 	for ; err == nil; tok, err = dec.RawToken() {
-- 
2.43.0


From 7b847b84b81a6464fd7ea116b74d860ced291cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:11 +0000
Subject: [PATCH 49/62] fix: XLSX parts in UTF-16 were refused

---
 xlsx/xlsx.go | 55 +++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 54 insertions(+), 1 deletion(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index f2e5e54..0b82e62 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -2,6 +2,8 @@ package xlsx
 
 import (
 	"archive/zip"
+	"bufio"
+	"encoding/binary"
 	"encoding/xml"
 	"errors"
 	"io"
@@ -9,6 +11,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"unicode/utf16"
 
 	"github.com/pbnjay/grate"
 	"github.com/pbnjay/grate/commonxl"
@@ -170,6 +173,39 @@ func (x *xmlReader) RawToken() (xml.Token, error) {
 	return tok, err
 }
 
+// utf16Reader converts XML from UTF-16 to UTF-8.
+type utf16Reader struct {
+	r     *bufio.Reader
+	order binary.ByteOrder
+	buf   []byte // converted, but not yet read
+}
+
+func (u *utf16Reader) char() (rune, error) {
+	var b [2]byte
+	_, err := io.ReadFull(u.r, b[:])
+	return rune(u.order.Uint16(b[:])), err
+}
+
+func (u *utf16Reader) Read(p []byte) (int, error) {
+	for len(u.buf) == 0 && len(p) > 0 {
+		c, err := u.char()
+		if err != nil {
+			return 0, err
+		}
+		if utf16.IsSurrogate(c) {
+			low, err := u.char()
+			if err != nil {
+				return 0, err
+			}
+			c = utf16.DecodeRune(c, low)
+		}
+		u.buf = append(u.buf, string(c)...)
+	}
+	n := copy(p, u.buf)
+	u.buf = u.buf[n:]
+	return n, nil
+}
+
 func (d *Document) openXML(name string) (*xmlReader, io.Closer, error) {
 	if grate.Debug {
 		log.Println("    openXML", name)
@@ -192,7 +228,24 @@ func (d *Document) openXML(name string) (*xmlReader, io.Closer, error) {
 	if err != nil {
 		return nil, nil, err
 	}
-	dec := xml.NewDecoder(zfr)
+	br := bufio.NewReader(zfr)
+	dec := xml.NewDecoder(br)
+	if bom, _ := br.Peek(2); string(bom) == "\xFE\xFF" || string(bom) == "\xFF\xFE" {
+		var order binary.ByteOrder = binary.LittleEndian
+		if bom[0] == 0xFE {
+			order = binary.BigEndian
+		}
+		br.Discard(2)
+		u := &utf16Reader{r: br, order: order}
+		dec = xml.NewDecoder(u)
+		dec.CharsetReader = func(charset string, input io.Reader) (io.Reader, error) {
+			if !strings.EqualFold(charset, "utf-16") {
+				return nil, errors.New("xlsx: unsupported character set " + charset)
+			}
+			// it is UTF-8 by now
+			return input, nil
+		}
+	}
 	return &xmlReader{Decoder: dec}, zfr, nil
 }
 
-- 
2.43.0


From 552d94bcdc678d3818982fba840cadc4f4b3dce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:22 +0000
Subject: [PATCH 50/62] fix: x15:workbookPr extensions do not reset the date
 system

---
 xlsx/workbook.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 1ab8097..9c35c44 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -103,6 +103,10 @@ func (d *Document) parseWorkbook(dec *xmlReader) error {
 				}
 				d.sheets = append(d.sheets, s)
 			case "workbookPr":
+				if dec.depth != 2 {
+					// an extension has an element of the same name
+					continue
+				}
 				ax := getAttrs(v.Attr, "date1904")
 				d.fmt.Mode1904(ax[0] == "1" || ax[0] == "true")
 			case "workbook", "sheets":
-- 
2.43.0


From 37604131c235488381f4f83b5f041379a2fb3a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 51/62] fix: the byte order mark of a text file is not part of
 its first field

---
 simple/csv.go    |  2 +-
 simple/simple.go | 11 +++++++++++
 simple/tsv.go    |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/simple/csv.go b/simple/csv.go
index bb1b45f..849f41d 100644
--- a/simple/csv.go
+++ b/simple/csv.go
@@ -23,7 +23,7 @@ func OpenCSV(filename string) (grate.Source, error) {
 		iterRow:  -1,
 	}
 
-	s := csv.NewReader(f)
+	s := csv.NewReader(skipBOM(f))
 	s.FieldsPerRecord = -1
 
 	total := 0
diff --git a/simple/simple.go b/simple/simple.go
index dd38fc8..ccaf0b1 100644
--- a/simple/simple.go
+++ b/simple/simple.go
@@ -1,8 +1,10 @@
 package simple
 
 import (
+	"bufio"
 	"errors"
 	"fmt"
+	"io"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -28,6 +30,15 @@ func isBinary(rec []string) bool {
 	return false
 }
 
+// skipBOM returns a reader of the text after the byte order mark, if any.
+func skipBOM(r io.Reader) io.Reader {
+	br := bufio.NewReader(r)
+	if bom, _ := br.Peek(3); string(bom) == "\xEF\xBB\xBF" {
+		br.Discard(3)
+	}
+	return br
+}
+
 // List the individual data tables within this source.
 func (t *simpleFile) List() ([]string, error) {
 	return []string{filepath.Base(t.filename)}, nil
diff --git a/simple/tsv.go b/simple/tsv.go
index 09ded90..dcc7ce2 100644
--- a/simple/tsv.go
+++ b/simple/tsv.go
@@ -46,7 +46,7 @@ func OpenTSV(filename string) (grate.Source, error) {
 		iterRow:  -1,
 	}
 
-	s := bufio.NewScanner(f)
+	s := bufio.NewScanner(skipBOM(f))
 	s.Buffer(nil, maxLineSize)
 	total := 0
 	ncols := make(map[int]int)
-- 
2.43.0


From 0301d5b32286202ea7c74bdea912ba03c18318c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:21 +0000
Subject: [PATCH 52/62] fix: fraction formats show large numbers

---
 commonxl/fmt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index a65f2f5..1faaeca 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -193,6 +193,10 @@ func fracFmtFunc(n int) FmtFunc {
 			// text is not affected by number formats
 			return identFunc(x, v)
 		}
+		if math.Abs(f) >= 1<<53 {
+			// has no fraction, and may exceed an integer
+			return fmt.Sprintf("%.0f", f)
+		}
 		w, n, d := DecimalToWholeFraction(f, n, n)
 		if n == 0 {
 			return fmt.Sprintf("%d", w)
-- 
2.43.0


From 0ba413ded9bf0e5e2665123a1732dbc5408e9cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:00 +0000
Subject: [PATCH 53/62] fix: show the currency symbols of number formats

---
 commonxl/parse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/commonxl/parse.go b/commonxl/parse.go
index 5e4218e..1a4e8a2 100644
--- a/commonxl/parse.go
+++ b/commonxl/parse.go
@@ -95,6 +95,15 @@ func parseFormat(s string) []formatSection {
 			code := strings.ToLower(string(rs[i+1 : j]))
 			if code != "" && strings.Trim(code, code[:1]) == "" && strings.Contains("hms", code[:1]) {
 				add(elapsedToken, code)
+			} else if strings.HasPrefix(code, "$") {
+				// currency symbol and locale
+				symbol := string(rs[i+2 : j])
+				if p := strings.IndexByte(symbol, '-'); p >= 0 {
+					symbol = symbol[:p]
+				}
+				if symbol != "" {
+					add(literalToken, symbol)
+				}
 			}
 			i = j
 			continue
-- 
2.43.0


From e141367ebf74bdb54772b421c8f371c0bf8cfd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 54/62] fix: show fractions with a given denominator, and the
 text around fractions

---
 commonxl/fmt.go   | 26 ++++++++++++++++++++++++++
 commonxl/parse.go | 44 +++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 65 insertions(+), 5 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 1faaeca..51289cd 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -211,6 +211,32 @@ func fracFmtFunc(n int) FmtFunc {
 	}
 }
 
+// fixedFracFmtFunc shows fractions with the same denominator for all numbers.
+func fixedFracFmtFunc(den int) FmtFunc {
+	return func(x *Formatter, v interface{}) string {
+		f, ok := convertToFloat64(v)
+		if !ok {
+			// text is not affected by number formats
+			return identFunc(x, v)
+		}
+		whole, part := math.Modf(math.Abs(f))
+		num := math.Round(part * float64(den))
+		if num == float64(den) {
+			whole, num = whole+1, 0
+		}
+		s := fmt.Sprintf("%.0f %.0f/%d", whole, num, den)
+		if num == 0 {
+			s = fmt.Sprintf("%.0f", whole)
+		} else if whole == 0 {
+			s = fmt.Sprintf("%.0f/%d", num, den)
+		}
+		if f < 0 && s != "0" {
+			return "-" + s
+		}
+		return s
+	}
+}
+
 // formats numbers without their sign
 func absFunc(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
diff --git a/commonxl/parse.go b/commonxl/parse.go
index 1a4e8a2..1a53211 100644
--- a/commonxl/parse.go
+++ b/commonxl/parse.go
@@ -272,11 +272,7 @@ func (sec formatSection) numberFormatter() (FmtFunc, CellType) {
 				}
 			}
 			if slash >= 0 {
-				n := sec[slash:].digits()
-				if n > 9 {
-					n = 9
-				}
-				return fracFmtFunc(n), FloatCell
+				return sec.fractionFormatter(slash), FloatCell
 			}
 		case pointToken:
 			if hasPoint {
@@ -300,6 +296,10 @@ func (sec formatSection) numberFormatter() (FmtFunc, CellType) {
 		case slashToken:
 			if nf.nInt > 0 && !hasPoint && strings.Trim(sec[i-1].text, "?#0") == "" {
 				slash = i
+				if i+1 < len(sec) && isDenominator(sec[i+1]) {
+					// the denominator is a number
+					return sec.fractionFormatter(slash), FloatCell
+				}
 			}
 			t.kind = literalToken
 		}
@@ -318,6 +318,40 @@ func (sec formatSection) numberFormatter() (FmtFunc, CellType) {
 	return nf.format, ctype
 }
 
+// fractionFormatter shows numbers as fractions, and the text around them.
+func (sec formatSection) fractionFormatter(slash int) FmtFunc {
+	first, end, den := 0, slash+1, ""
+	for first < slash && sec[first].kind != digitToken {
+		first++
+	}
+	fixed := end < len(sec) && isDenominator(sec[end])
+	for end < len(sec) && (sec[end].kind == digitToken || (fixed && isDenominator(sec[end]))) {
+		den += sec[end].text
+		end++
+	}
+	n := sec[slash:end].digits()
+	if n > 9 {
+		n = 9
+	}
+	ff := fracFmtFunc(n)
+	if d, err := strconv.Atoi(den); err == nil && d > 0 && d < 1e9 {
+		ff = fixedFracFmtFunc(d)
+	}
+	pre, post := sec[:first].text(), sec[end:].text()
+	return func(x *Formatter, v interface{}) string {
+		if _, ok := convertToFloat64(v); !ok {
+			// text is not affected by number formats
+			return identFunc(x, v)
+		}
+		return pre + ff(x, v) + post
+	}
+}
+
+// isDenominator returns true for the digits of a number (but zero, a placeholder).
+func isDenominator(t fmtToken) bool {
+	return t.kind == literalToken && t.text != "" && strings.Trim(t.text, "123456789") == ""
+}
+
 // digits returns the number of digit placeholders.
 func (sec formatSection) digits() int {
 	n := 0
-- 
2.43.0


From b51eaca70c7e76184c81f761c9fc2bc4533fe5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 55/62] fix: number formats with conditions choose the section
 by them

---
 commonxl/fmt.go     | 39 +++++++++++++++++++++++
 commonxl/formats.go |  9 ++++++
 commonxl/parse.go   | 76 ++++++++++++++++++++++++++++++++++++---------
 3 files changed, 110 insertions(+), 14 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 51289cd..cd704d2 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -285,6 +285,45 @@ func switchFmtFunc(pos FmtFunc, others ...FmtFunc) FmtFunc {
 	}
 }
 
+// handle cases with conditions for the first or second section:
+// first;second;remaining numbers;text
+func conditionFmtFunc(conds []*condition, pos FmtFunc, others ...FmtFunc) FmtFunc {
+	ffs := append([]FmtFunc{pos}, others...)
+	stringFF := identFunc
+	if len(ffs) > 3 {
+		stringFF = ffs[3]
+		ffs = ffs[:3]
+	}
+	conds = append([]*condition{}, conds[:2]...)
+	if conds[0] == nil {
+		conds[0] = &condition{">", 0.0}
+	}
+	if conds[1] == nil && (len(ffs) > 2 || (conds[0].op[0] == '>' && conds[0].val >= 0.0)) {
+		conds[1] = &condition{"<", 0.0}
+	}
+	for i, cond := range conds {
+		if cond != nil && cond.negative() {
+			// the section supplies its own sign
+			ffs[i] = absFunc(ffs[i])
+		}
+	}
+	return func(x *Formatter, v interface{}) string {
+		if _, ok := v.(time.Time); ok {
+			return pos(x, v)
+		}
+		val, ok := convertToFloat64(v)
+		if !ok {
+			return stringFF(x, v)
+		}
+		for i, cond := range conds {
+			if cond != nil && cond.met(val) {
+				return ffs[i](x, v)
+			}
+		}
+		return ffs[len(ffs)-1](x, v)
+	}
+}
+
 // mapping of standard built-ins to Go date format funcs.
 var goFormatters = map[uint16]FmtFunc{
 	0:  identFunc, // FIXME: better "general" formatter
diff --git a/commonxl/formats.go b/commonxl/formats.go
index 610fbd7..6141ac7 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -82,6 +82,12 @@ func (x *Formatter) getCellType(fmtID uint16) (CellType, bool) {
 func makeFormatter(s string) (FmtFunc, CellType) {
 	//log.Printf("makeFormatter('%s')", s)
 	sections := parseFormat(s)
+	conds := make([]*condition, len(sections))
+	hasCond := false
+	for i := range sections {
+		conds[i], sections[i] = sections[i].condition()
+		hasCond = hasCond || (conds[i] != nil && i < 2)
+	}
 	posFF, ctypePos := sections[0].formatter()
 	if len(sections) == 1 {
 		return posFF, ctypePos
@@ -90,6 +96,9 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 	for i, sec := range sections[1:] {
 		rem[i], _ = sec.formatter()
 	}
+	if hasCond {
+		return conditionFmtFunc(conds, posFF, rem...), ctypePos
+	}
 	return switchFmtFunc(posFF, rem...), ctypePos
 }
 
diff --git a/commonxl/parse.go b/commonxl/parse.go
index 1a53211..35dab68 100644
--- a/commonxl/parse.go
+++ b/commonxl/parse.go
@@ -13,18 +13,19 @@ import (
 type tokenKind int
 
 const (
-	literalToken tokenKind = iota // text to show as is
-	digitToken                    // one of the placeholders 0 # ?
-	pointToken                    // decimal point
-	commaToken                    // thousands separator or scaling
-	percentToken                  // %
-	expToken                      // E+00, the text includes the digit placeholders
-	slashToken                    // / in fractions
-	textToken                     // @
-	generalToken                  // General
-	dateToken                     // a run of y, m, d, h or s, seconds with their decimals
-	ampmToken                     // AM/PM, A/P or a translation
-	elapsedToken                  // a run of h, m or s in brackets
+	literalToken   tokenKind = iota // text to show as is
+	digitToken                      // one of the placeholders 0 # ?
+	pointToken                      // decimal point
+	commaToken                      // thousands separator or scaling
+	percentToken                    // %
+	expToken                        // E+00, the text includes the digit placeholders
+	slashToken                      // / in fractions
+	textToken                       // @
+	generalToken                    // General
+	dateToken                       // a run of y, m, d, h or s, seconds with their decimals
+	ampmToken                       // AM/PM, A/P or a translation
+	elapsedToken                    // a run of h, m or s in brackets
+	conditionToken                  // the numbers shown by the section, such as >=100
 )
 
 type fmtToken struct {
@@ -52,8 +53,8 @@ func keyword(rs []rune) (tokenKind, int) {
 	return literalToken, 0
 }
 
-// parseFormat splits a format code into tokens. Conditions and colors are
-// dropped, as are the characters which only control the width of the output.
+// parseFormat splits a format code into tokens. Colors are dropped,
+// as are the characters which only control the width of the output.
 func parseFormat(s string) []formatSection {
 	var res []formatSection
 	var sec formatSection
@@ -95,6 +96,8 @@ func parseFormat(s string) []formatSection {
 			code := strings.ToLower(string(rs[i+1 : j]))
 			if code != "" && strings.Trim(code, code[:1]) == "" && strings.Contains("hms", code[:1]) {
 				add(elapsedToken, code)
+			} else if code != "" && strings.Contains("<=>", code[:1]) {
+				add(conditionToken, code)
 			} else if strings.HasPrefix(code, "$") {
 				// currency symbol and locale
 				symbol := string(rs[i+2 : j])
@@ -164,6 +167,51 @@ func parseFormat(s string) []formatSection {
 	return append(res, sec)
 }
 
+// condition is a comparison with a number.
+type condition struct {
+	op  string
+	val float64
+}
+
+// met returns true for the numbers of the section.
+func (c *condition) met(f float64) bool {
+	switch c.op {
+	case "<":
+		return f < c.val
+	case "<=":
+		return f <= c.val
+	case ">":
+		return f > c.val
+	case ">=":
+		return f >= c.val
+	case "<>":
+		return f != c.val
+	}
+	return f == c.val
+}
+
+// negative returns true if no other numbers meet the condition.
+func (c *condition) negative() bool {
+	return (c.op == "<" && c.val <= 0) || (strings.HasSuffix(c.op, "=") && c.op != ">=" && c.val < 0)
+}
+
+// condition returns the condition of the section (or nil), and the other tokens.
+func (sec formatSection) condition() (*condition, formatSection) {
+	var res *condition
+	var rem formatSection
+	for _, t := range sec {
+		if t.kind != conditionToken {
+			rem = append(rem, t)
+			continue
+		}
+		num := strings.TrimLeft(t.text, "<=>")
+		if val, ok := parseNumber(strings.TrimSpace(num)); ok {
+			res = &condition{t.text[:len(t.text)-len(num)], val}
+		}
+	}
+	return res, rem
+}
+
 // has returns true if any of the tokens is one of the kinds.
 func (sec formatSection) has(kinds ...tokenKind) bool {
 	for _, t := range sec {
-- 
2.43.0


From e892aa0b7e3ce14e3cf8417faeadd95e70891dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:43 +0000
Subject: [PATCH 56/62] fix: text that looks like a number and booleans are not
 converted by number formats

---
 commonxl/fmt.go   |  7 +++++++
 commonxl/parse.go |  7 ++++++-
 commonxl/sheet.go | 12 ++++++++++++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index cd704d2..eb6d1c0 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -12,6 +12,13 @@ import (
 // FmtFunc will format a value according to the designated style.
 type FmtFunc func(*Formatter, interface{}) string
 
+// plainText is the text of a cell, it never represents a number.
+type plainText string
+
+func (t plainText) String() string {
+	return string(t)
+}
+
 func staticFmtFunc(s string) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		return s
diff --git a/commonxl/parse.go b/commonxl/parse.go
index 35dab68..e1ef4b3 100644
--- a/commonxl/parse.go
+++ b/commonxl/parse.go
@@ -270,7 +270,12 @@ func (sec formatSection) affixFormatter(kind tokenKind) FmtFunc {
 	pre, post := sec[:i].text(), sec[i+1:].text()
 	return func(x *Formatter, v interface{}) string {
 		s := identFunc(x, v)
-		if _, isText := v.(string); isText != (kind == textToken) {
+		isText := false
+		switch v.(type) {
+		case string, plainText:
+			isText = true
+		}
+		if isText != (kind == textToken) {
 			return s
 		}
 		if kind == generalToken && strings.HasPrefix(s, "-") {
diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 49d37c4..036ef60 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -101,6 +101,11 @@ func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 	}
 
 	ct, ok := s.Formatter.getCellType(fmtNum)
+	switch NewCell(value).Type() {
+	case StringCell, BooleanCell:
+		// stored as is, even text that looks like a number
+		ok = false
+	}
 	if !ok || fmtNum == 0 {
 		s.Rows[row][col] = NewCell(value)
 	} else {
@@ -255,6 +260,13 @@ func (s *Sheet) Strings() []string {
 			continue
 		}
 		val := cell.Value()
+		switch v := val.(type) {
+		case string:
+			val = plainText(v)
+		case bool:
+			res[i] = identFunc(s.Formatter, v)
+			continue
+		}
 		// unknown formats are shown like General
 		res[i], _ = s.Formatter.Apply(cell.FormatNo(), val)
 	}
-- 
2.43.0


From 97878de1e997ab92485419828b77f726d7c96a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:17 +0000
Subject: [PATCH 57/62] fix: use the localized currency formats (ids 41 to 44)
 of the file, not those of the US

---
 commonxl/formats.go | 55 +++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 6141ac7..876628f 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -35,13 +35,15 @@ func (x *Formatter) Add(fmtID uint16, formatCode string) error {
 		x.customCodeTypes = make(map[uint16]CellType)
 		x.customCodeNames = make(map[uint16]string)
 	}
-	if strings.ToLower(formatCode) == "general" {
-		x.customCodes[fmtID] = goFormatters[0]
-		x.customCodeNames[fmtID] = builtInFormats[0]
+	_, ok := goFormatters[fmtID]
+	if strings.ToLower(formatCode) == "general" && !isLocalized(fmtID) {
+		if !ok {
+			x.customCodes[fmtID] = goFormatters[0]
+			x.customCodeNames[fmtID] = builtInFormats[0]
+		}
 		return nil
 	}
-	_, ok := goFormatters[fmtID]
-	if ok {
+	if ok && (!isLocalized(fmtID) || builtInFormats[fmtID] == formatCode) {
 		return errors.New("grate/commonxl: cannot replace default number formats")
 	}
 
@@ -55,28 +57,33 @@ func (x *Formatter) Add(fmtID uint16, formatCode string) error {
 	return nil
 }
 
+// isLocalized returns true for the built-in formats whose currency depends on
+// the locale of the author, files contain the format codes to use.
+func isLocalized(fmtID uint16) bool {
+	return fmtID >= 41 && fmtID <= 44
+}
+
 // code returns the format code for fmtID, or its number if it is unknown.
 func (x *Formatter) code(fmtID uint16) string {
-	if code, ok := builtInFormats[fmtID]; ok {
-		return code
-	}
 	if x != nil {
 		if code, ok := x.customCodeNames[fmtID]; ok {
 			return code
 		}
 	}
+	if code, ok := builtInFormats[fmtID]; ok {
+		return code
+	}
 	return fmt.Sprint(fmtID)
 }
 
 func (x *Formatter) getCellType(fmtID uint16) (CellType, bool) {
-	if ct, ok := builtInFormatTypes[fmtID]; ok {
-		return ct, true
-	}
-	if x.customCodeTypes != nil {
-		ct, ok := x.customCodeTypes[fmtID]
-		return ct, ok
+	if x != nil {
+		if ct, ok := x.customCodeTypes[fmtID]; ok {
+			return ct, true
+		}
 	}
-	return 0, false
+	ct, ok := builtInFormatTypes[fmtID]
+	return ct, ok
 }
 
 func makeFormatter(s string) (FmtFunc, CellType) {
@@ -105,12 +112,13 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 // Get the number format func to use for formatting values,
 // it returns false when fmtID is unknown.
 func (x *Formatter) Get(fmtID uint16) (FmtFunc, bool) {
-	ff, ok := goFormatters[fmtID]
-	if !ok {
-		fs, ok2 := x.customCodes[fmtID]
-		if ok2 {
+	if x != nil {
+		if fs, ok := x.customCodes[fmtID]; ok {
 			return fs, true
 		}
+	}
+	ff, ok := goFormatters[fmtID]
+	if !ok {
 		ff = identFunc
 	}
 
@@ -120,14 +128,7 @@ func (x *Formatter) Get(fmtID uint16) (FmtFunc, bool) {
 // Apply the specified number format to the value.
 // Returns false when fmtID is unknown.
 func (x *Formatter) Apply(fmtID uint16, val interface{}) (string, bool) {
-	ff, ok := goFormatters[fmtID]
-	if !ok {
-		fs, ok2 := x.customCodes[fmtID]
-		if ok2 {
-			return fs(x, val), true
-		}
-		ff = identFunc
-	}
+	ff, ok := x.Get(fmtID)
 	return ff(x, val), ok
 }
 
-- 
2.43.0


From a936c2c87a0f1e6d3fc80f11b9b3fd65bc77fa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:48 +0000
Subject: [PATCH 58/62] fix: number formats of differential formats do not
 apply to cells

---
 xlsx/workbook.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 9c35c44..10f98d9 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -142,7 +142,13 @@ func (d *Document) parseStyles(dec *xmlReader) error {
 			switch v.Name.Local {
 			case "styleSheet":
 				// container
+			case "numFmts":
+				section = 3
 			case "numFmt":
+				if section != 3 {
+					// belongs to a differential format, not to cells
+					continue
+				}
 				ax := getAttrs(v.Attr, "numFmtId", "formatCode")
 				fmtNo, _ := strconv.ParseUint(ax[0], 10, 16)
 				d.fmt.Add(uint16(fmtNo), ax[1])
@@ -195,6 +201,8 @@ func (d *Document) parseStyles(dec *xmlReader) error {
 				section = 0
 			case "cellXfs":
 				section = 0
+			case "numFmts":
+				section = 0
 			}
 		default:
 			if grate.Debug {
-- 
2.43.0


From 73aa39b6a25fed08c2e429da7b8f491d253da2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:16 +0000
Subject: [PATCH 59/62] fix: DecimalToFraction keeps the whole part of a number
 whose fraction has too many digits

---
 commonxl/numbers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonxl/numbers.go b/commonxl/numbers.go
index 6aec77b..34697ef 100644
--- a/commonxl/numbers.go
+++ b/commonxl/numbers.go
@@ -51,7 +51,7 @@ func DecimalToFraction(val float64, nn, nd int) (num, den int) {
 
 	diff := 1.0
 	denom := 1.0
-	numer := 0.0
+	numer := math.Floor(val)
 	var lastDenom, lastNumer float64
 	for diff > 1e-10 && z != math.Floor(z) {
 		z = 1 / (z - math.Floor(z))
-- 
2.43.0


From 0deae18b996e8e532f4ef854ecf6f995be914c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:08 +0000
Subject: [PATCH 60/62] fix: Less compares numbers and booleans exactly by
 their values, and dates by time

---
 commonxl/cell.go | 78 ++++++++++++++++++++++--------------------------
 1 file changed, 36 insertions(+), 42 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 6331f9d..ed0e6f6 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -395,18 +395,50 @@ func (c Cell) Equal(other Cell) bool {
 	return c.Less(other) == other.Less(c)
 }
 
+// lessNumber compares two numbers (int64 or float64) without losing the low
+// digits of integers.
+func lessNumber(v1, v2 interface{}) bool {
+	i1, int1 := v1.(int64)
+	i2, int2 := v2.(int64)
+	f1, _ := convertToFloat64(v1)
+	f2, _ := convertToFloat64(v2)
+	switch {
+	case int1 && int2:
+		return i1 < i2
+	case int1 == int2 || f1 != f2:
+		return f1 < f2
+	case int1:
+		return f2 >= math.MaxInt64 || i1 < int64(f2)
+	default:
+		return f1 < math.MaxInt64 && int64(f1) < i2
+	}
+}
+
+// Less returns true if the cell orders before the other one. Numbers, and
+// booleans as 0 and 1, order by their values.
 func (c Cell) Less(other Cell) bool {
 	if len(c) == 0 || len(other) == 0 {
 		return false
 	}
+	switch other[0].(type) {
+	case bool, int64, float64:
+		switch c[0].(type) {
+		case bool, int64, float64:
+			v1, _ := c.number()
+			v2, _ := other.number()
+			return lessNumber(v1, v2)
+		}
+	}
+	if t1, ok := c[0].(time.Time); ok {
+		if t2, ok := other[0].(time.Time); ok {
+			return t1.Before(t2)
+		}
+	}
+
 	switch v1 := c[0].(type) {
 	case nil:
 		return false
 	case bool:
-		// F < T = T
-		// F < F = F
-		// T < T = F
-		// T < F = F
 		if v1 {
 			return false
 		}
@@ -415,12 +447,6 @@ func (c Cell) Less(other Cell) bool {
 		switch v2 := other[0].(type) {
 		case nil:
 			return false
-		case bool:
-			return v2
-		case int64:
-			return v2 != 0
-		case float64:
-			return v2 != 0.0
 		case string:
 			return boolStrings[v2]
 		}
@@ -431,22 +457,6 @@ func (c Cell) Less(other Cell) bool {
 		switch v2 := other[0].(type) {
 		case nil:
 			return false
-		case bool:
-			x := int64(0)
-			if v2 {
-				x = 1
-			}
-			return v1 < x
-		case int64:
-			return v1 < v2
-		case float64:
-			if v2 < math.MinInt64 {
-				return false
-			}
-			if v2 > math.MaxInt64 {
-				return true
-			}
-			return float64(v1) < v2
 		case string:
 			var x int64
 			_, err := fmt.Sscanf(v2, "%d", &x)
@@ -459,22 +469,6 @@ func (c Cell) Less(other Cell) bool {
 		switch v2 := other[0].(type) {
 		case nil:
 			return false
-		case bool:
-			x := float64(0.0)
-			if v2 {
-				x = 1.0
-			}
-			return v1 < x
-		case int64:
-			if v1 < math.MinInt64 {
-				return true
-			}
-			if v1 > math.MaxInt64 {
-				return false
-			}
-			return v1 < float64(v2)
-		case float64:
-			return v1 < v2
 		case string:
 			var x float64
 			_, err := fmt.Sscanf(v2, "%g", &x)
-- 
2.43.0


From 90272de029b9315be351191eed75dbbe594624dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:10 +0000
Subject: [PATCH 61/62] fix: adding General to a format id that is taken does
 not replace its format

---
 commonxl/formats.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 876628f..f442b29 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -36,8 +36,9 @@ func (x *Formatter) Add(fmtID uint16, formatCode string) error {
 		x.customCodeNames = make(map[uint16]string)
 	}
 	_, ok := goFormatters[fmtID]
+	_, ok2 := x.customCodes[fmtID]
 	if strings.ToLower(formatCode) == "general" && !isLocalized(fmtID) {
-		if !ok {
+		if !ok && !ok2 {
 			x.customCodes[fmtID] = goFormatters[0]
 			x.customCodeNames[fmtID] = builtInFormats[0]
 		}
@@ -47,7 +48,6 @@ func (x *Formatter) Add(fmtID uint16, formatCode string) error {
 		return errors.New("grate/commonxl: cannot replace default number formats")
 	}
 
-	_, ok2 := x.customCodes[fmtID]
 	if ok2 {
 		return errors.New("grate/commonxl: cannot replace existing number formats")
 	}
-- 
2.43.0


From e7f9055ca3b36d011ca0cf4612b17f1f46bf884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:11 +0000
Subject: [PATCH 62/62] fix: look up the parts of a package by name, not by a
 search through all of them

---
 xlsx/xlsx.go | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 0b82e62..d07e8f2 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -32,6 +32,9 @@ type Document struct {
 	strings []string
 	xfs     []uint16
 	fmt     commonxl.Formatter
+
+	// parts of the package by name, and by name in lower case
+	parts, partsFold map[string]*zip.File
 }
 
 func (d *Document) Close() error {
@@ -206,21 +209,32 @@ func (u *utf16Reader) Read(p []byte) (int, error) {
 	return n, nil
 }
 
+// findPart returns the named part of the package, or nil.
+// NB part names are not case-sensitive
+func (d *Document) findPart(name string) *zip.File {
+	if d.parts == nil {
+		d.parts = make(map[string]*zip.File, len(d.r.File))
+		d.partsFold = make(map[string]*zip.File, len(d.r.File))
+		for _, zf := range d.r.File {
+			if d.parts[zf.Name] == nil {
+				d.parts[zf.Name] = zf
+			}
+			if fold := strings.ToLower(zf.Name); d.partsFold[fold] == nil {
+				d.partsFold[fold] = zf
+			}
+		}
+	}
+	if zf := d.parts[name]; zf != nil {
+		return zf
+	}
+	return d.partsFold[strings.ToLower(name)]
+}
+
 func (d *Document) openXML(name string) (*xmlReader, io.Closer, error) {
 	if grate.Debug {
 		log.Println("    openXML", name)
 	}
-	// NB part names are not case-sensitive
-	var part *zip.File
-	for _, zf := range d.r.File {
-		if zf.Name == name {
-			part = zf
-			break
-		}
-		if part == nil && strings.EqualFold(zf.Name, name) {
-			part = zf
-		}
-	}
+	part := d.findPart(name)
 	if part == nil {
 		return nil, nil, io.EOF
 	}
-- 
2.43.0

