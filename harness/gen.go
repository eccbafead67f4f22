package main

// Generator of well-formed statements. It emits tokens and, next to them, the
// expected tree, in which pos, end and op are token indices until a layout is
// chosen. It shares no code with the reference parser's grammar.

import (
	"math"
	"math/big"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"
)

type gtok struct {
	text string
	fold bool // letter case is free
	glue bool // consists of words or characters that may be separated by white space ("not in")
}

type gen struct {
	r     *rand.Rand
	toks  []gtok
	depth int
	vars  []string

	// what was used before, to be used again, as it was or nearly so
	names, texts, nums []string
}

// again is an earlier item, seldom.
func (x *gen) again(l []string, n int) (string, bool) {
	if len(l) == 0 || !x.chance(n) {
		return "", false
	}
	return l[x.r.Intn(len(l))], true
}

// repeat emits the tokens of n once more and returns a copy of n for them.
func (x *gen) repeat(n *node) *node {
	by := len(x.toks) - n.pos
	x.toks = append(x.toks, x.toks[n.pos:n.end+1]...)
	var move func(n *node) *node
	move = func(n *node) *node {
		m := &node{k: n.k, v: n.v, pos: n.pos, end: n.end, op: n.op}
		if m.pos >= 0 {
			m.pos, m.end = m.pos+by, m.end+by
		}
		if m.op >= 0 {
			m.op += by
		}
		for _, k := range n.kids {
			m.kids = append(m.kids, move(k))
		}
		return m
	}
	return move(n)
}

func newGen(r *rand.Rand) *gen { return &gen{r: r} }

func (x *gen) emit(text string) int {
	x.toks = append(x.toks, gtok{text: text})
	return len(x.toks) - 1
}
func (x *gen) kw(text string) int {
	x.toks = append(x.toks, gtok{text: text, fold: true, glue: strings.Contains(text, " ")})
	return len(x.toks) - 1
}
func (x *gen) last() int { return len(x.toks) - 1 }

// some is a number of members: at least 1 and at most n, seldom many more.
func (x *gen) some(n int) int {
	if len(x.toks) < 600 {
		switch x.r.Intn(80) {
		case 0:
			n = 40
		case 1, 2, 3:
			n = 12
		}
	}
	return 1 + x.r.Intn(n)
}

func (x *gen) chance(n int) bool       { return x.r.Intn(n) == 0 }
func (x *gen) pick(s ...string) string { return s[x.r.Intn(len(s))] }

// someComment is a comment, with its line break if it is one to the end of
// the line.
func someComment(r *rand.Rand) string {
	if r.Intn(2) == 0 {
		return []string{"/**/", "/* when 5 * / */ ", "// ] \"\n", "//\n\t", "/*é\n*/"}[r.Intn(5)]
	}
	var b strings.Builder
	n := r.Intn(8)
	if r.Intn(12) == 0 {
		n = r.Intn(80)
	}
	for ; n > 0; n-- {
		piece := []string{"*", "*", "/", "/", "\"", "\\", "'", "`", "a", "é", "\n", "\r", "\t", " ", "#", "/*", "//", "世", "😀", "\u2028", "@", "1.5", "and", "**",
			"\f", "\v", "\x1b", "\x7f", "\u0085", "\u00a0", "\u2029", string(rune(1 + r.Intn(0x2ff)))}[r.Intn(32)]
		if r.Intn(4) == 0 { // the same again
			piece = strings.Repeat(piece, 2+r.Intn(4))
		}
		b.WriteString(piece)
	}
	s := b.String()
	if r.Intn(3) == 0 {
		return "//" + strings.ReplaceAll(s, "\n", " ") + "\n"
	}
	for strings.Contains(s, "*/") {
		s = strings.ReplaceAll(s, "*/", "*")
	}
	return "/*" + s + "*/"
}

// layout renders tokens; off[i], end[i] are the first and last byte of token i.
func layout(toks []gtok, style int, r *rand.Rand) (src string, off, end []int) {
	var b strings.Builder
	space := func(need bool) {
		switch style {
		case 0:
			b.WriteByte(' ')
		case 1:
			if need {
				b.WriteByte(' ')
			}
		default:
			n := r.Intn(4)
			if n == 0 && need {
				n = 1
			}
			if style == 3 && r.Intn(20) == 0 {
				n += 30 + r.Intn(1100) // across the scanner's buffer
			}
			for ; n > 0; n-- {
				b.WriteByte(" \t\n\r"[r.Intn(4)])
			}
			if r.Intn(25) == 0 { // a comment counts as white space
				b.WriteString(" " + someComment(r))
			}
		}
	}
	recase := func(s string) string {
		if style < 2 {
			return s
		}
		switch r.Intn(4) {
		case 0:
			return strings.ToUpper(s)
		case 1:
			return s
		}
		q := []byte(s)
		for i := range q {
			if r.Intn(2) == 0 {
				if q[i] >= 'a' && q[i] <= 'z' {
					q[i] -= 32
				} else if q[i] >= 'A' && q[i] <= 'Z' {
					q[i] += 32
				}
			}
		}
		return string(q)
	}
	far := -1
	if style >= 2 {
		if r.Intn(1000) == 0 { // everything after some token is far from the start
			far = r.Intn(len(toks) + 1)
		}
		if r.Intn(8) == 0 {
			b.WriteString("\uFEFF")
		}
		if r.Intn(3) == 0 {
			space(false)
		}
	}
	for i, t := range toks {
		if i > 0 {
			space(mustSeparate(toks[i-1].text, t.text))
		}
		if i == far {
			b.WriteString(strings.Repeat(" ", someSize(r)+r.Intn(2)*someSize(r)))
		}
		off = append(off, b.Len())
		text := t.text
		if t.fold {
			text = recaseASCII(text, recase)
		}
		if t.glue {
			words := strings.Split(text, " ")
			for k, w := range words {
				if k > 0 {
					space(true)
				}
				b.WriteString(w)
			}
		} else {
			b.WriteString(text)
		}
		end = append(end, b.Len()-1)
	}
	if style >= 2 && r.Intn(3) == 0 {
		space(false)
	}
	return b.String(), off, end
}

func recaseASCII(s string, f func(string) string) string {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			if t := f(s); strings.ToLower(t) == strings.ToLower(s) {
				return t
			}
			return s
		}
	}
	return f(s)
}

func wordByte(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || isDec(c) || c >= 0x80
}

// mustSeparate reports whether white space is needed between two tokens.
func mustSeparate(a, b string) bool {
	x, y := a[len(a)-1], b[0]
	num := isDec(a[0])
	switch {
	case num && (isDec(y) || y == '_' || y == '.'):
		return true
	case num:
		return false
	case wordByte(x) && a[0] != '"' && wordByte(y):
		return true
	case (x == '=' || x == '<' || x == '>' || x == '!') && y == '=':
		return true
	case x == '.' && y == '.':
		return true
	case x == '/' && (y == '*' || y == '/'):
		return true
	}
	return false
}

// place turns token indices into byte offsets.
func place(n *node, off, end []int) *node {
	c := &node{k: n.k, v: n.v, pos: -1, end: -1, op: -1}
	if n.pos >= 0 {
		c.pos, c.end = off[n.pos], end[n.end]
	}
	if n.op >= 0 {
		c.op = off[n.op]
	}
	for _, k := range n.kids {
		c.kids = append(c.kids, place(k, off, end))
	}
	return c
}

// ---- scalars

func (x *gen) intText() string {
	t, ok := x.again(x.nums, 8)
	if !ok || strings.Contains(t, ".") {
		t = x.newIntText()
		x.nums = append(x.nums, t)
	}
	return t
}

func (x *gen) newIntText() string {
	switch x.r.Intn(12) {
	case 0:
		return "0"
	case 1:
		return strings.Repeat("0", 1+x.r.Intn(4)) + strconv.Itoa(x.r.Intn(100))
	case 2:
		return "9223372036854775807"
	case 3:
		return strconv.FormatInt(x.r.Int63(), 10)
	case 4:
		return strconv.FormatInt(1<<53+x.r.Int63n(1000), 10)
	case 5:
		return strconv.Itoa(x.r.Intn(1 << 20))
	}
	return strconv.Itoa(x.r.Intn(400))
}

func (x *gen) floatText() string {
	t, ok := x.again(x.nums, 8)
	if !ok || !strings.Contains(t, ".") {
		t = x.newFloatText()
		x.nums = append(x.nums, t)
	}
	return t
}

func (x *gen) newFloatText() string {
	digits := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + x.r.Intn(10))
		}
		return string(b)
	}
	switch x.r.Intn(14) {
	case 7, 8: // as many digits as a float64 needs
		return strings.TrimPrefix(someFloat(x.r), "-")
	case 0:
		return strconv.Itoa(x.r.Intn(100)) + "."
	case 1:
		return strconv.Itoa(x.r.Intn(100)) + ".0"
	case 2:
		return "0." + strings.Repeat("0", x.r.Intn(12)) + digits(1+x.r.Intn(4))
	case 3:
		return digits(20+x.r.Intn(20)) + "." + digits(x.r.Intn(20))
	case 4:
		return "00" + digits(2) + "." + digits(3) + "00"
	case 5:
		return digits(1+x.r.Intn(3)) + "." + digits(17)
	case 6:
		return "9223372036854775808.0"
	}
	return strconv.Itoa(x.r.Intn(300)) + "." + digits(1+x.r.Intn(3))
}

// someFloat is the shortest text of a random float64 of any size, mostly up to 10^17.
func someFloat(r *rand.Rand) string {
	v := (r.Float64() + 1) * math.Pow(2, float64(r.Intn(84)-28))
	if r.Intn(12) == 0 { // any size at all
		v = math.Float64frombits(uint64(r.Int63n(0x7fe << 52)))
	} else if r.Intn(4) == 0 {
		v = math.Floor(v) + math.Pow(2, -float64(r.Intn(52)))
	}
	s := strconv.FormatFloat(v, 'f', -1, 64)
	if !strings.Contains(s, ".") {
		s += ".0"
	}
	return s
}

// numValue is the exact value of a number's text, as the nearest float64.
func numValue(text string) float64 {
	r, _ := new(big.Rat).SetString(strings.TrimSuffix(strings.ReplaceAll(text, "_", ""), "."))
	v, _ := r.Float64()
	return v
}

func (x *gen) numText() string {
	if x.chance(2) {
		return x.floatText()
	}
	return x.intText()
}

// number emits [sign] digits and returns the first token and the text.
func (x *gen) signed(sign, text string) (first int) {
	first = len(x.toks)
	if sign != "" {
		x.emit(sign)
	}
	x.emit(text)
	return
}

func (x *gen) sign() string { return x.pick("", "", "+", "-") }

func (x *gen) intLit() *node {
	s, t := x.sign(), x.intText()
	p := x.signed(s, t)
	v, _ := new(big.Int).SetString(t, 10)
	if s == "-" {
		v.Neg(v)
	}
	return nd("int", v.String()).at(p, x.last())
}

func (x *gen) floatLit() *node {
	s, t := x.sign(), x.floatText()
	p := x.signed(s, t)
	v := numValue(t)
	if s == "-" {
		v = -v
	}
	return nd("float", ftoa(v)).at(p, x.last())
}

func (x *gen) unitLit(kind string) *node {
	sign := ""
	var unit, name string
	switch kind {
	case "percent":
		unit = x.pick("%", "%", "PCT", "Pct")
	case "pressure":
		unit = x.pick("bar", "Bar", "BAR", "psi", "Psi", "PSI")
		name = map[byte]string{'b': "Bar", 'p': "Psi"}[strings.ToLower(unit)[0]]
	case "distance":
		unit = x.pick("M", "M", "rm", "rM", "Rm", "km", "Km", "km", "rkm", "rKM", "Rkm")
		name = "M"
		if strings.Contains(strings.ToLower(unit), "k") {
			name = "Km"
		}
	case "speed":
		unit = x.pick("kph", "Kph", "KPH", "mph", "Mph", "MPH")
		name = map[byte]string{'k': "Kph", 'm': "Mph"}[strings.ToLower(unit)[0]]
	case "temperature":
		unit = x.pick("C", "c", "F", "f")
		name = strings.ToUpper(unit)
		sign = x.sign()
	}
	if kind != "temperature" && x.chance(6) {
		sign = "+"
	}
	t := x.numText()
	p := x.signed(sign, t)
	x.emit(unit)
	v := ftoa(numValue(t))
	if name != "" {
		v += " " + name
	}
	if kind == "temperature" && sign != "" {
		v += " " + sign
	}
	return nd(kind, v).at(p, x.last())
}

func (x *gen) durationLit(mayPlus bool) *node {
	h, m, s := time.Duration(x.r.Intn(30)), time.Duration(x.r.Intn(70)), time.Duration(x.r.Intn(70))
	var num, unit string
	var d time.Duration
	i := func(v time.Duration) string { return strconv.Itoa(int(v)) }
	switch x.r.Intn(14) {
	case 10, 11: // any size and fraction that is exact in nanoseconds
		u := []struct {
			name string
			d    time.Duration
			most int // digits of an exact fraction
		}{{"s", time.Second, 9}, {"ms", time.Millisecond, 6}, {"m", time.Minute, 9}, {"h", time.Hour, 11}}[weighted(x.r, 4, 2, 1, 1)]
		num, unit = strconv.Itoa(x.r.Intn([]int{10, 100, 100_000, 2_000_000}[x.r.Intn(4)])), u.name
		v, _ := strconv.Atoi(num)
		d = time.Duration(v) * u.d
		if k := x.r.Intn(u.most + 1); k > 0 {
			frac := ""
			for ; k > 0; k-- {
				frac += strconv.Itoa(x.r.Intn(10))
			}
			num += "." + frac
			f, _ := strconv.ParseInt(frac, 10, 64)
			p := int64(1)
			for range frac {
				p *= 10
			}
			d += time.Duration(f * (int64(u.d) / p)) // u.d is a multiple of p
		}
	case 12:
		us := time.Duration(x.r.Intn(2000))
		num, unit, d = i(s), "s"+i(us)+"us", s*time.Second+us*time.Microsecond
	case 13:
		ns := time.Duration(x.r.Intn(2000))
		num, unit, d = i(h), "h"+i(m)+"ms"+i(ns)+"ns", h*time.Hour+m*time.Millisecond+ns
	case 0:
		num, unit, d = i(h), "h"+i(m)+"m"+i(s)+"s", h*time.Hour+m*time.Minute+s*time.Second
	case 1:
		num, unit, d = i(h), "h"+i(m)+"m", h*time.Hour+m*time.Minute
	case 2:
		num, unit, d = i(m), "m"+i(s)+"s", m*time.Minute+s*time.Second
	case 3:
		num, unit, d = i(s), "s", s*time.Second
	case 4:
		num, unit, d = i(m), "m", m*time.Minute
	case 5:
		num, unit, d = i(h), "h", h*time.Hour
	case 6:
		num, unit, d = i(s), "ms", s*time.Millisecond
	case 7:
		num, unit, d = i(h)+".5", "h", h*time.Hour+30*time.Minute
	case 8:
		num, unit, d = i(s)+".25", "s", s*time.Second+250*time.Millisecond
	case 9:
		num, unit, d = i(s)+"."+"001", "s"+i(m)+"ms", s*time.Second+(1+m)*time.Millisecond
	}
	sign := ""
	if mayPlus && x.chance(8) {
		sign = "+"
	}
	p := x.signed(sign, num)
	if unit == "m" { // a capital M is metres
		x.emit(unit)
	} else {
		x.kw(unit)
	}
	return nd("duration", strconv.FormatInt(int64(d), 10)).at(p, x.last())
}

func (x *gen) stringText() string {
	t, ok := x.again(x.texts, 6)
	if !ok {
		t = x.newStringText()
	} else if x.chance(3) { // nearly the same
		q := swapCase(t, x.r)
		switch x.r.Intn(5) {
		case 0:
			q = t + " "
		case 1:
			q = " " + t
		case 2:
			q = t + "a"
		}
		t = q
	}
	x.texts = append(x.texts, t)
	return t
}

// swapCase changes the case of one ASCII letter that is not part of an escape.
func swapCase(s string, r *rand.Rand) string {
	if s == "" || strings.Contains(s, "\\") {
		return s
	}
	b := []byte(s)
	for k := 0; k < 8; k++ {
		if i := r.Intn(len(b)); b[i]|32 >= 'a' && b[i]|32 <= 'z' {
			b[i] ^= 32
			break
		}
	}
	return string(b)
}

func (x *gen) newStringText() string {
	n := x.r.Intn(7)
	if x.chance(40) {
		n = 1200
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(x.pick("a", "Z", " ", "_", "9", "é", "日", "'", "`", ",", "}", "]", "\t", "\\\"", "\\\\", "\\n", "\\t", "\\x41", "\\u00e9", "\\101", "..", "//", "%", "=", "\u00a0", "🚗", "}{", "when", "\\U0001F697", "\r"))
	}
	return b.String()
}

func (x *gen) stringLit() *node {
	t := x.stringText()
	p := x.emit(`"` + t + `"`)
	return nd("string", strconv.Quote(t)).at(p, p)
}

func (x *gen) boolLit() *node {
	w := x.pick("true", "false", "up", "down")
	p := x.kw(w)
	return nd("bool", strconv.FormatBool(w == "true" || w == "up")).at(p, p)
}

var scalarKinds = []string{"int", "float", "percent", "pressure", "distance", "speed", "temperature", "duration", "string", "bool"}

func (x *gen) scalar(kind string) *node {
	switch kind {
	case "int":
		return x.intLit()
	case "float":
		return x.floatLit()
	case "string":
		return x.stringLit()
	case "bool":
		return x.boolLit()
	case "duration":
		return x.durationLit(true)
	}
	return x.unitLit(kind)
}

// ---- names

var nameParts = []string{"speed", "device", "coords", "fuel", "t", "x", "Az", "_", "é", "дом", "trip_1", "k9", "every", "after", "met", "si", "hm", "inx", "notx", "whens", "app", "mo", "sund", "ß", "ǅ", "\u212aelvin", "\u0130", "\u1e9e", "\u2126m", "\u023a", "Ünïcode", "日本", "\U00010400", "e\u0660", "point_", "trigger1"}

func (x *gen) name() string {
	n, ok := x.again(x.names, 5)
	if !ok {
		n = x.newName()
	} else if x.chance(2) {
		n = swapCase(n, x.r)
	}
	x.names = append(x.names, n)
	return n
}

func (x *gen) newName() string {
	for {
		n := nameParts[x.r.Intn(len(nameParts))]
		for x.chance(3) {
			n += nameParts[x.r.Intn(len(nameParts))] + strconv.Itoa(x.r.Intn(10))
		}
		l := strings.ToLower(n)
		if wordKinds[l] == "" && l != "not" {
			return n
		}
	}
}

// unitLike reports whether a name after a number would be read as its unit.
func unitLike(name string) bool {
	if unitKind[name][0] != "" {
		return true
	}
	switch strings.ToLower(name)[0] {
	case 'h', 'm', 's':
		return true
	}
	return false
}

func (x *gen) ref() *node {
	p := x.emit("@")
	n := x.name()
	if len(x.vars) > 0 && !x.chance(5) {
		n = x.vars[x.r.Intn(len(x.vars))]
		if x.chance(8) {
			n = swapCase(n, x.r)
		}
	}
	x.emit(n)
	return nd("ref", n).at(p, x.last())
}

func (x *gen) selector(props bool) *node {
	name := x.name()
	p := len(x.toks)
	x.toks = append(x.toks, gtok{text: name, fold: true})
	star := false
	var args []string
	if x.chance(3) {
		x.emit("{")
		n := x.some(5) - 1
		for i := 0; i < n; i++ {
			if i > 0 && !x.chance(8) || x.chance(10) {
				x.emit(",")
			}
			switch {
			case x.chance(5):
				star = true
				x.emit("*")
			case len(args) > 0 && x.chance(6):
				a := args[x.r.Intn(len(args))]
				args = append(args, a)
				x.emit(`"` + a + `"`)
			default:
				a := x.stringText()
				args = append(args, a)
				x.emit(`"` + a + `"`)
			}
		}
		if x.chance(8) {
			x.emit(",")
		}
		x.emit("}")
	}
	n := nd("selector", selectorValue(strings.ToLower(name), star || len(args) == 0, args))
	if props && x.depth < 3 && x.chance(3) {
		x.emit(":")
		x.depth++
		k := x.some(3)
		for i := 0; i < k; i++ {
			if i > 0 {
				x.emit(",")
			}
			// a property list swallows commas: a property that ends in one of
			// its own must be bracketed, and so must a following range
			n.kids = append(n.kids, x.operand(false, i+1 == k))
		}
		x.depth--
	}
	return n.at(p, x.last())
}

// ---- geometry

func (x *gen) coord() (float64, func()) {
	neg := x.chance(3)
	t := x.numText()
	if len(t) > 25 {
		t = "12.5"
	}
	v := numValue(t)
	if neg {
		v = -v
	}
	return v, func() {
		if neg {
			x.emit("-")
		}
		x.emit(t)
	}
}

func (x *gen) commas(min int) {
	for i := 0; i < min; i++ {
		x.emit(",")
	}
	for x.chance(25) {
		x.emit(",")
	}
}

func (x *gen) position() [2]float64 {
	x.emit("[")
	a, ea := x.coord()
	b, eb := x.coord()
	ea()
	x.commas(1)
	eb()
	x.commas(0)
	x.emit("]")
	return [2]float64{a, b}
}

func (x *gen) sibling(i int) {
	if i > 0 {
		if x.chance(10) {
			x.commas(0)
		} else {
			x.commas(1)
		}
	}
}

func (x *gen) positions() (pts [][2]float64) {
	x.emit("[")
	var at [][2]int
	n := x.some(7)
	for i := 0; i < n; i++ {
		x.sibling(i)
		mark := len(x.toks)
		if i > 0 && x.chance(6) { // a point once more
			j := x.r.Intn(len(at))
			x.toks = append(x.toks, x.toks[at[j][0]:at[j][1]]...)
			pts = append(pts, pts[j])
		} else {
			pts = append(pts, x.position())
		}
		at = append(at, [2]int{mark, len(x.toks)})
	}
	x.commas(0)
	x.emit("]")
	return
}

func (x *gen) distance() *node {
	n := x.unitLit("distance")
	for x.toks[n.pos].text == "+" { // a radius takes no sign
		x.toks = x.toks[:n.pos]
		n = x.unitLit("distance")
	}
	return n
}

func (x *gen) simpleGeometry(kind string) *node {
	p := x.kw(kind)
	n := nd(kind, "")
	switch kind {
	case "point":
		n.v = pointsValue([][2]float64{x.position()})
	case "line":
		n.v = pointsValue(x.positions())
	case "polygon":
		x.emit("[")
		var rings [][][2]float64
		k := x.some(3)
		for i := 0; i < k; i++ {
			x.sibling(i)
			rings = append(rings, x.positions())
		}
		x.commas(0)
		x.emit("]")
		n.v = ringsValue(rings)
	}
	if kind != "polygon" && x.chance(3) {
		x.emit(":")
		n.kids = append(n.kids, x.distance())
	}
	return n.at(p, x.last())
}

func (x *gen) optComma() {
	if !x.chance(6) {
		x.emit(",")
	}
}

func (x *gen) multi() *node {
	kind := x.pick("point", "line", "polygon")
	p := x.kw("multi" + kind)
	x.emit("[")
	n := nd("multi", "multi"+kind)
	k := x.some(4)
	for i := 0; i < k; i++ {
		if i > 0 {
			x.optComma()
		}
		if i > 0 && x.chance(8) {
			n.kids = append(n.kids, x.repeat(n.kids[x.r.Intn(i)]))
			continue
		}
		n.kids = append(n.kids, x.simpleGeometry(kind))
	}
	x.emit("]")
	return n.at(p, x.last())
}

func (x *gen) geometry() *node {
	switch x.r.Intn(6) {
	case 0:
		return x.simpleGeometry("point")
	case 1:
		return x.simpleGeometry("line")
	case 2:
		return x.simpleGeometry("polygon")
	case 3:
		return x.multi()
	case 4:
		p := x.kw("collection")
		x.emit("[")
		n := nd("collection", "")
		k := x.some(4)
		for i := 0; i < k; i++ {
			if i > 0 {
				x.optComma()
			}
			if x.chance(4) {
				n.kids = append(n.kids, x.multi())
			} else {
				n.kids = append(n.kids, x.simpleGeometry(x.pick("point", "line", "polygon")))
			}
		}
		x.emit("]")
		return n.at(p, x.last())
	}
	return x.simpleGeometry(x.pick("point", "line", "polygon"))
}

// ---- calendar

func (x *gen) zero(v int) string {
	if v < 10 && x.chance(2) {
		return "0" + strconv.Itoa(v)
	}
	return strconv.Itoa(v)
}

var weekdayList = sortedNames(weekdayNames)
var monthList = sortedNames(monthNames)

func sortedNames(m map[string]int) (s []string) {
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return
}

func (x *gen) calendarItem(kind string) *node {
	p := len(x.toks)
	v := ""
	switch kind {
	case "date":
		y, m, d := 2022+x.r.Intn(179), 1+x.r.Intn(12), 1+x.r.Intn(31)
		if x.chance(5) {
			y = []int{2022, 2200}[x.r.Intn(2)]
		}
		x.emit(strconv.Itoa(y))
		x.emit("-")
		x.emit(x.zero(m))
		x.emit("-")
		x.emit(x.zero(d))
		v = strconv.Itoa(y) + "-" + strconv.Itoa(m) + "-" + strconv.Itoa(d)
	case "time":
		h, m, s := x.r.Intn(25), x.r.Intn(60), 0
		if x.chance(6) {
			m = 59
		}
		x.emit(x.zero(h))
		x.emit(":")
		x.emit(x.zero(m))
		if x.chance(2) {
			s = x.r.Intn(60)
			x.emit(":")
			x.emit(x.zero(s))
		}
		v = strconv.Itoa(h) + ":" + strconv.Itoa(m) + ":" + strconv.Itoa(s)
		if x.chance(3) {
			u := x.pick("am", "pm")
			x.kw(u)
			v += " " + strings.ToUpper(u)
		}
	case "weekday":
		n := weekdayList[x.r.Intn(7)]
		x.kw(n)
		v = strconv.Itoa(weekdayNames[n])
	case "month":
		n := monthList[x.r.Intn(12)]
		x.kw(n)
		v = strconv.Itoa(monthNames[n])
	}
	return nd(kind, v).at(p, x.last())
}

func (x *gen) calendar(kind string, form int) *node {
	p := x.kw(kind)
	x.emit("[")
	first := x.calendarItem(kind)
	n := first
	switch form {
	case 1:
		n = nd("array", kind, first)
		for k := x.some(4); k > 0; k-- {
			x.emit(",")
			if x.chance(6) {
				n.kids = append(n.kids, x.repeat(n.kids[x.r.Intn(len(n.kids))]))
				continue
			}
			n.kids = append(n.kids, x.calendarItem(kind))
		}
	case 2:
		x.rangeOp()
		n = nd("range", "", first, x.calendarItem(kind))
	}
	x.emit("]")
	return n.at(p, x.last())
}

func (x *gen) rangeOp() {
	if x.chance(8) {
		x.kw("range")
	} else {
		x.emit("..")
	}
}

var calendarKinds = []string{"date", "time", "weekday", "month"}

// ---- composites

func (x *gen) elem(kind string) *node {
	switch kind {
	case "selector":
		return x.selector(false)
	case "ref":
		return x.ref()
	case "range":
		return x.rangeExpr()
	}
	return x.scalar(kind)
}

var elemKinds = []string{"selector", "duration", "speed", "pressure", "temperature", "distance", "percent", "int", "float", "string", "ref", "range"}

func (x *gen) array(kind string) *node {
	p := x.emit("[")
	n := nd("array", kind)
	k := x.some(4)
	if x.chance(30) {
		k = 40
	}
	for i := 0; i < k; i++ {
		if i > 0 {
			if kind == "int" && x.chance(8) {
				x.emit(":")
			} else {
				x.emit(",")
			}
		}
		if i > 0 && x.chance(8) {
			n.kids = append(n.kids, x.repeat(n.kids[x.r.Intn(2)*(i-1)]))
			continue
		}
		if kind == "selector" && i+1 == k { // the comma behind properties is theirs
			n.kids = append(n.kids, x.selector(true))
			continue
		}
		n.kids = append(n.kids, x.elem(kind))
	}
	x.emit("]")
	return n.at(p, x.last())
}

// rangeLow is any operand that is not a range and does not end in a list a
// range operator would join.
func (x *gen) rangeLow() *node {
	switch x.r.Intn(9) {
	case 8: // of no use, but part of the language
		switch x.r.Intn(5) {
		case 0:
			p := x.emit("*")
			return nd("wildcard", "").at(p, p)
		case 1:
			return x.stringLit()
		case 2:
			return x.geometry()
		case 3:
			if x.depth < 3 {
				x.depth++
				defer func() { x.depth-- }()
				return x.array(elemKinds[x.r.Intn(len(elemKinds))])
			}
		case 4:
			return x.scalar("bool")
		}
	case 0:
		return x.selector(false)
	case 1:
		return x.ref()
	case 2:
		return x.calendar(calendarKinds[x.r.Intn(4)], 0)
	case 3:
		if x.depth < 3 {
			return x.paren()
		}
	case 4:
		return x.scalar(scalarKinds[x.r.Intn(len(scalarKinds))])
	}
	if x.chance(2) {
		return x.floatLit()
	}
	return x.intLit()
}

func (x *gen) rangeExpr() *node {
	low := x.rangeLow()
	x.rangeOp()
	var high *node
	if x.depth < 3 && x.chance(15) {
		x.depth++
		high = x.rangeExpr()
		x.depth--
	} else {
		high = x.rangeLow()
	}
	return nd("range", "", low, high).at(low.pos, high.end)
}

func (x *gen) paren() *node {
	p := x.emit("(")
	x.depth++
	more := 0 // parentheses directly inside these
	if x.chance(6) {
		more = x.some(4)
	}
	for i := 0; i < more; i++ {
		x.emit("(")
	}
	e := x.expr(1 + x.r.Intn(3))
	for i := more; i > 0; i-- {
		e = nd("paren", "", e).at(p+i, x.emit(")"))
	}
	x.depth--
	x.emit(")")
	return nd("paren", "", e).at(p, x.last())
}

// operand is any operand; mayList allows one that would swallow a following
// comma, mayRange one that is a range.
func (x *gen) operand(top bool, mayList bool) *node {
	switch x.r.Intn(14) {
	case 0, 1, 2:
		return x.selector(mayList)
	case 3:
		return x.ref()
	case 4, 5:
		return x.scalar(scalarKinds[x.r.Intn(len(scalarKinds))])
	case 6:
		return x.geometry()
	case 7:
		return x.calendar(calendarKinds[x.r.Intn(4)], x.r.Intn(3))
	case 8:
		return x.array(elemKinds[x.r.Intn(len(elemKinds))])
	case 9:
		return x.rangeExpr()
	case 10:
		if x.depth < 4 {
			return x.paren()
		}
	case 11:
		p := x.emit("*")
		return nd("wildcard", "").at(p, p)
	case 12:
		return x.stringLit()
	}
	return x.selector(mayList)
}

var binOps = []string{"or", "and", "<", "<=", ">", ">=", "eq", "==", "!=", "not eq", "in", "not in",
	"nearby", "not nearby", "intersects", "not intersects", "+", "-", "*", "/", "rem", "mod"}

// expr emits a chain of n operands and groups it by precedence.
func (x *gen) expr(n int) *node {
	operands := []*node{x.operand(true, true)}
	var ops []opAt
	for i := 1; i < n; i++ {
		w := binOps[x.r.Intn(len(binOps))]
		var at int
		if wordByte(w[0]) {
			at = x.kw(w)
		} else {
			at = x.emit(w)
		}
		if w == "mod" {
			w = "rem"
		}
		ops = append(ops, opAt{w, at})
		if x.chance(8) {
			operands = append(operands, x.repeat(operands[x.r.Intn(len(operands))]))
			continue
		}
		operands = append(operands, x.operand(true, true))
	}
	return group(operands, ops)
}

type opAt struct {
	op string
	at int
}

func level(op string) int {
	switch op {
	case "or":
		return 1
	case "and":
		return 2
	case "+", "-":
		return 4
	case "*", "/", "rem":
		return 5
	}
	return 3
}

// group splits a chain at its last operator of lowest precedence: the
// definition of left-associative precedence, not a parser.
func group(operands []*node, ops []opAt) *node {
	if len(ops) == 0 {
		return operands[0]
	}
	at := 0
	for i := range ops {
		if level(ops[i].op) <= level(ops[at].op) {
			at = i
		}
	}
	l := group(operands[:at+1], ops[:at])
	r := group(operands[at+1:], ops[at+1:])
	n := nd("bin", ops[at].op, l, r).at(l.pos, r.end)
	n.op = ops[at].at
	return n
}

// ---- statement

type stmtOpts struct {
	vars, operands int  // at most
	clauses        bool // repeat and reset may occur
	value          func(*gen) *node
	cond           func(*gen) *node
}

func (x *gen) stmt(o stmtOpts) *node {
	t := nd("trigger", "")
	if o.vars > 0 || x.chance(2) {
		x.kw("trigger")
		k := 0
		if o.vars > 0 {
			k = x.r.Intn(o.vars + 1)
		}
		if k > 0 || x.chance(4) {
			x.kw("set")
		}
		used := map[string]bool{}
		for i := 0; i < k; i++ {
			name := x.name()
			if used[name] {
				continue
			}
			used[name] = true
			if i > 0 && unitLike(name) && x.toks[x.last()].text != ";" {
				x.emit(";")
			}
			p := x.emit(name)
			eq := x.emit("=")
			mark := len(x.toks)
			var val *node
			for {
				x.toks = x.toks[:mark]
				if o.value != nil {
					val = o.value(x)
				} else {
					val = x.operand(false, true)
				}
				if val.k != "ref" && !(val.k == "array" && val.v == "ref") {
					break
				}
			}
			if !x.chance(3) {
				x.emit(";")
			}
			x.vars = append(x.vars, name)
			a := nd("assign", name, nd("ident", name).at(p, p), val).at(p, val.end)
			a.op = eq
			t.kids = append(t.kids, a)
		}
	}
	x.kw("when")
	var c *node
	if o.cond != nil {
		c = o.cond(x)
	} else {
		c = x.expr(1 + x.r.Intn(o.operands))
	}
	t.kids = append(t.kids, nd("when", "", c))
	if o.clauses {
		if x.chance(3) {
			x.kw("repeat")
			if !x.chance(6) {
				n := x.intText()
				p := x.emit(n)
				v, _ := new(big.Int).SetString(n, 10)
				t.kids = append(t.kids, nd("count", "", nd("int", v.String()).at(p, p)))
				if !x.chance(3) {
					x.kw("every")
					t.kids = append(t.kids, nd("interval", "", x.durationLit(false)))
				}
			}
		}
		if x.chance(3) {
			x.kw("reset")
			x.kw("after")
			t.kids = append(t.kids, nd("reset", "", x.durationLit(false)))
		}
	}
	return t.at(0, x.last())
}

// statement returns a generated statement in a random layout with its tree.
func statement(r *rand.Rand, o stmtOpts, style int) (src string, want *node, toks []gtok) {
	x := newGen(r)
	n := x.stmt(o)
	src, off, end := layout(x.toks, style, r)
	return src, place(n, off, end), x.toks
}
