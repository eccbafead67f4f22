package main

// The reference parser: recursive descent over the reference tokens. It gives
// the expected tree with source spans, or the index of a token at (or before)
// which the text stops being the beginning of a well-formed statement.

import (
	"math/big"
	"strconv"
	"strings"
	"time"
)

type refErr struct{ idx int }

type refParser struct {
	src  string
	toks []tok
	i    int
	nest int
	deep bool // nested so deeply that a limit may apply
}

const deepNesting = 150

type refResult struct {
	tree *node // nil when rejected
	toks []tok
	errs int // lexical errors
	fail int // index of the failing token when rejected
	deep bool

	failOff int // offset from which the text is no beginning of a statement
}

// refParse parses src. A text is accepted if it follows the grammar and has no
// lexical error.
func refParse(src string) (res refResult) {
	toks, errs := lex(src)
	p := &refParser{src: src, toks: toks}
	res.toks, res.errs = toks, errs
	defer func() {
		res.deep = p.deep
		if r := recover(); r != nil {
			e, ok := r.(refErr)
			if !ok {
				panic(r)
			}
			res.tree, res.fail = nil, e.idx
		}
		defer func() {
			if res.tree == nil && !toks[res.fail].gap {
				res.failOff = toks[res.fail].off
			}
		}()
		// a token with a lexical error never continues a statement
		if errs > 0 {
			if res.tree != nil {
				res.tree, res.fail = nil, len(toks)-1
			}
			for k := 0; k < res.fail; k++ {
				if toks[k].bad || toks[k].gap {
					res.fail = k
				}
			}
			if toks[res.fail].gap {
				res.failOff = 0
				if res.fail > 0 {
					res.failOff = toks[res.fail-1].end + 1
				}
				return
			}
		}
	}()
	res.tree = p.stmt()
	return
}

func (p *refParser) cur() *tok        { return &p.toks[p.i] }
func (p *refParser) is(k string) bool { return p.toks[p.i].k == k }
func (p *refParser) fail()            { panic(refErr{p.i}) }
func (p *refParser) failAt(i int)     { panic(refErr{i}) }
func (p *refParser) prevEnd() int     { return p.toks[p.i-1].end }
func (p *refParser) eat(k string) *tok {
	if !p.is(k) {
		p.fail()
	}
	t := p.cur()
	p.i++
	return t
}
func (p *refParser) skip(k string) bool {
	if p.is(k) {
		p.i++
		return true
	}
	return false
}

func (p *refParser) stmt() *node {
	t := nd("trigger", "")
	start := p.cur().off
	if p.skip("trigger") {
		if p.is("set") {
			p.i++
			seen := map[string]bool{}
			for p.is("SELECTOR") {
				id := p.cur()
				if seen[id.raw] {
					p.fail()
				}
				seen[id.raw] = true
				p.i++
				eq := p.eat("=")
				at := p.i
				val := p.unary()
				if val.k == "ref" || val.k == "array" && val.v == "ref" {
					p.failAt(at)
				}
				p.skip(";")
				a := nd("assign", id.raw, nd("ident", id.raw).at(id.off, id.end), val).at(id.off, val.end)
				a.op = eq.off
				t.kids = append(t.kids, a)
			}
		}
	}
	p.eat("when")
	t.kids = append(t.kids, nd("when", "", p.binary(1)))
	if p.skip("repeat") {
		if p.is("INT") {
			at := p.i
			n := p.number("")
			if n.k != "int" {
				p.failAt(at)
			}
			t.kids = append(t.kids, nd("count", "", n))
			if p.is("SELECTOR") {
				if p.cur().lit != "every" {
					p.fail()
				}
				p.i++
				t.kids = append(t.kids, nd("interval", "", p.duration()))
			}
		}
	}
	if p.skip("reset") {
		if !p.is("SELECTOR") || p.cur().lit != "after" {
			p.fail()
		}
		p.i++
		t.kids = append(t.kids, nd("reset", "", p.duration()))
	}
	t.at(start, p.prevEnd())
	p.eat("EOF")
	return t
}

func (p *refParser) duration() *node {
	if !p.is("INT") && !p.is("FLOAT") {
		p.fail()
	}
	at := p.i
	n := p.number("")
	if n.k != "duration" {
		p.failAt(at)
	}
	return n
}

var binPrec = map[string]int{
	"or": 1, "and": 2,
	"<": 3, "<=": 3, ">": 3, ">=": 3, "eq": 3, "==": 3, "!=": 3, "not eq": 3, "in": 3, "not in": 3,
	"nearby": 3, "not nearby": 3, "intersects": 3, "not intersects": 3,
	"+": 4, "-": 4, "*": 5, "/": 5, "rem": 5,
}

func (p *refParser) binary(min int) *node {
	left := p.unary()
	for {
		prec := binPrec[p.cur().k]
		if prec < min || prec == 0 {
			return left
		}
		op := p.cur()
		p.i++
		right := p.binary(prec + 1)
		b := nd("bin", op.k, left, right).at(left.pos, right.end)
		b.op = op.off
		left = b
	}
}

func (p *refParser) unary() *node {
	p.nest++
	defer func() { p.nest-- }()
	if p.nest > deepNesting {
		p.deep = true
		if p.nest > 20000 {
			p.fail()
		}
	}
	n := p.primary()
	if p.is("..") {
		if n.k == "range" {
			p.fail()
		}
		p.i++
		high := p.unary()
		n = nd("range", "", n, high).at(n.pos, high.end)
	}
	return n
}

func (p *refParser) primary() *node {
	t := p.cur()
	switch t.k {
	case "+", "-":
		p.i++
		if !p.is("INT") && !p.is("FLOAT") {
			p.fail()
		}
		n := p.number(t.k)
		n.pos = t.off
		return n
	case "INT", "FLOAT":
		return p.number("")
	case "STRING":
		p.i++
		return nd("string", strconv.Quote(stripQuotes(t.raw))).at(t.off, t.end)
	case "bool":
		p.i++
		v := "false"
		if t.lit == "true" || t.lit == "up" {
			v = "true"
		}
		return nd("bool", v).at(t.off, t.end)
	case "*":
		p.i++
		return nd("wildcard", "").at(t.off, t.end)
	case "@":
		p.i++
		id := p.eat("SELECTOR")
		return nd("ref", id.raw).at(t.off, id.end)
	case "(":
		p.i++
		e := p.binary(1)
		c := p.eat(")")
		return nd("paren", "", e).at(t.off, c.end)
	case "SELECTOR":
		return p.selector()
	case "[":
		return p.array()
	case "date", "time", "weekday", "month":
		return p.calendar()
	case "point", "line", "polygon":
		return p.geometry()
	case "multipoint", "multiline", "multipolygon":
		return p.multi()
	case "collection":
		return p.collection()
	}
	p.fail()
	return nil
}

func stripQuotes(s string) string {
	if len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"' {
		return s[1 : len(s)-1]
	}
	return s
}

// unit spellings by kind; those not listed are not units.
var unitKind = map[string][2]string{}

func init() {
	for _, u := range []string{"PCT", "Pct", "%"} {
		unitKind[u] = [2]string{"percent", ""}
	}
	for _, u := range []string{"bar", "Bar", "BAR"} {
		unitKind[u] = [2]string{"pressure", "Bar"}
	}
	for _, u := range []string{"psi", "Psi", "PSI"} {
		unitKind[u] = [2]string{"pressure", "Psi"}
	}
	for _, u := range []string{"rm", "rM", "Rm", "M"} {
		unitKind[u] = [2]string{"distance", "M"}
	}
	for _, u := range []string{"rkm", "rKM", "Rkm", "km", "Km"} {
		unitKind[u] = [2]string{"distance", "Km"}
	}
	for _, u := range []string{"kph", "Kph", "KPH"} {
		unitKind[u] = [2]string{"speed", "Kph"}
	}
	for _, u := range []string{"mph", "Mph", "MPH"} {
		unitKind[u] = [2]string{"speed", "Mph"}
	}
	for _, u := range []string{"c", "C"} {
		unitKind[u] = [2]string{"temperature", "C"}
	}
	for _, u := range []string{"f", "F"} {
		unitKind[u] = [2]string{"temperature", "F"}
	}
}

var maxInt = new(big.Int).SetInt64(int64(^uint(0) >> 1))

// exactInt returns the value of a decimal integer, and whether it is one an
// int can hold.
func exactInt(s string) (string, bool) {
	for i := 0; i < len(s); i++ {
		if !isDec(s[i]) {
			return "", false
		}
	}
	v, ok := new(big.Int).SetString(s, 10)
	if !ok || v.Cmp(maxInt) > 0 {
		return "", false
	}
	return v.String(), true
}

// exactFloat returns the float64 nearest to a decimal number, computed from
// its exact rational value.
func exactFloat(s string) (float64, bool) {
	dot := false
	for i := 0; i < len(s); i++ {
		if s[i] == '_' { // only between digits
			if i == 0 || i+1 == len(s) || !isDec(s[i-1]) || !isDec(s[i+1]) {
				return 0, false
			}
			continue
		}
		if s[i] == '.' && !dot {
			dot = true
			continue
		}
		if !isDec(s[i]) {
			return 0, false
		}
	}
	r, ok := new(big.Rat).SetString(strings.TrimSuffix(strings.ReplaceAll(s, "_", ""), "."))
	if !ok {
		return 0, false
	}
	v, _ := r.Float64()
	if v > 1.7976931348623157e308 {
		return 0, false
	}
	return v, true
}

// number parses an INT or FLOAT with the unit that follows it; sign is the
// sign in front of it.
func (p *refParser) number(sign string) *node {
	t := p.cur()
	start := p.i
	neg := sign == "-"
	var v float64
	var ival string
	if t.k == "INT" {
		s, ok := exactInt(t.raw)
		if !ok {
			p.fail()
		}
		ival = s
		n, _ := strconv.ParseInt(s, 10, 64)
		v = float64(n)
	} else {
		f, ok := exactFloat(t.raw)
		if !ok {
			p.fail()
		}
		v = f
	}
	p.i++
	u := p.cur()
	var uk [2]string
	if u.k == "SELECTOR" || u.raw == "%" {
		uk = unitKind[u.raw]
	}
	if uk[0] != "" {
		if neg && uk[0] != "temperature" {
			p.fail()
		}
		p.i++
		val := ftoa(v)
		if uk[1] != "" {
			val += " " + uk[1]
		}
		if uk[0] == "temperature" && sign != "" {
			val += " " + sign
		}
		return nd(uk[0], val).at(t.off, u.end)
	}
	if u.k == "SELECTOR" {
		switch u.lit[0] {
		case 'h', 'm', 's':
			d, ok := exactDuration(t.raw + u.lit)
			if neg || !ok {
				p.failAt(start)
			}
			p.i++
			return nd("duration", d).at(t.off, u.end)
		}
	}
	if t.k == "INT" {
		if neg && ival != "0" {
			ival = "-" + ival
		}
		return nd("int", ival).at(t.off, t.end)
	}
	if neg {
		v = -v
	}
	return nd("float", ftoa(v)).at(t.off, t.end)
}

// exactDuration evaluates number unit number unit ..., in nanoseconds. Only
// the standard library is trusted here, not the code under test.
func exactDuration(s string) (string, bool) {
	d, err := time.ParseDuration(s)
	if err != nil {
		return "", false
	}
	return strconv.FormatInt(int64(d), 10), true
}

func (p *refParser) selector() *node {
	id := p.eat("SELECTOR")
	wild := true
	var args []string
	if p.skip("{") {
		star := false
		for !p.skip("}") {
			switch {
			case p.is(","):
			case p.is("*"):
				star = true
			case p.is("STRING"):
				args = append(args, stripQuotes(p.cur().raw))
			default:
				p.fail()
			}
			p.i++
		}
		wild = star || len(args) == 0
	}
	n := nd("selector", selectorValue(id.lit, wild, args))
	if p.skip(":") {
		for {
			n.kids = append(n.kids, p.unary())
			if !p.skip(",") {
				break
			}
		}
	}
	return n.at(id.off, p.prevEnd())
}

var arrayKinds = map[string]bool{"selector": true, "duration": true, "speed": true, "pressure": true,
	"temperature": true, "distance": true, "percent": true, "int": true, "float": true, "string": true,
	"ref": true, "range": true}

func (p *refParser) array() *node {
	open := p.eat("[")
	n := nd("array", "")
	for {
		at := p.i
		e := p.unary()
		if !arrayKinds[e.k] || n.v != "" && n.v != e.k {
			p.failAt(at)
		}
		n.v = e.k
		n.kids = append(n.kids, e)
		if p.is("]") {
			break
		}
		if p.is(",") || p.is(":") && n.v == "int" {
			p.i++
			continue
		}
		p.fail()
	}
	return n.at(open.off, p.eat("]").end)
}

var weekdayNames = map[string]int{"sun": 0, "mon": 1, "tue": 2, "wed": 3, "thu": 4, "fri": 5, "sat": 6}
var monthNames = map[string]int{"jan": 1, "feb": 2, "mar": 3, "apr": 4, "may": 5, "jun": 6, "jul": 7,
	"aug": 8, "sep": 9, "oct": 10, "nov": 11, "dec": 12}

func (p *refParser) intIn(lo, hi int) int {
	t := p.eat("INT")
	s, ok := exactInt(t.raw)
	v, _ := strconv.Atoi(s)
	if !ok || v < lo || v > hi {
		p.failAt(p.i - 1)
	}
	return v
}

func (p *refParser) calendar() *node {
	kw := p.cur()
	p.i++
	p.eat("[")
	item := func() *node {
		at := p.cur().off
		var v string
		switch kw.k {
		case "date":
			y := p.intIn(2022, 2200)
			p.eat("-")
			m := p.intIn(1, 12)
			p.eat("-")
			d := p.intIn(1, 31)
			v = strconv.Itoa(y) + "-" + strconv.Itoa(m) + "-" + strconv.Itoa(d)
		case "time":
			h := p.intIn(0, 24)
			p.eat(":")
			m := p.intIn(0, 59)
			s := 0
			if p.skip(":") {
				s = p.intIn(0, 59)
			}
			u := ""
			if p.is("SELECTOR") {
				switch p.cur().lit {
				case "am", "pm":
					u = " " + strings.ToUpper(p.cur().lit)
				default:
					p.fail()
				}
				p.i++
			}
			v = strconv.Itoa(h) + ":" + strconv.Itoa(m) + ":" + strconv.Itoa(s) + u
		default:
			names := weekdayNames
			if kw.k == "month" {
				names = monthNames
			}
			n, ok := names[p.cur().lit]
			if !p.is("SELECTOR") || !ok {
				p.fail()
			}
			p.i++
			v = strconv.Itoa(n)
		}
		return nd(kw.k, v).at(at, p.prevEnd())
	}
	first := item()
	switch {
	case p.is(","):
		n := nd("array", kw.k, first)
		for p.skip(",") {
			n.kids = append(n.kids, item())
		}
		return n.at(kw.off, p.eat("]").end)
	case p.skip(".."):
		n := nd("range", "", first, item())
		return n.at(kw.off, p.eat("]").end)
	}
	return first.at(kw.off, p.eat("]").end)
}

// position reads the inside of the brackets around a pair of coordinates.
func (p *refParser) position() [2]float64 {
	var xy [2]float64
	for k := 0; k < 2; k++ {
		if k == 1 {
			p.eat(",")
			for p.skip(",") {
			}
		}
		neg := p.skip("-")
		if !p.is("INT") && !p.is("FLOAT") {
			p.fail()
		}
		t := p.cur()
		ok := true
		if t.k == "INT" {
			var s string
			s, ok = exactInt(t.raw)
			n, _ := strconv.ParseInt(s, 10, 64)
			xy[k] = float64(n)
		} else {
			xy[k], ok = exactFloat(t.raw)
		}
		if !ok {
			p.fail()
		}
		if neg {
			xy[k] = -xy[k]
		}
		p.i++
	}
	for p.skip(",") {
	}
	return xy
}

// list reads the members of a bracketed geometry list up to its bracket.
func (p *refParser) list(member func()) {
	for {
		member()
		for p.skip(",") {
		}
		if p.is("]") {
			return
		}
	}
}

func (p *refParser) points() (pts [][2]float64) {
	p.list(func() {
		p.eat("[")
		pts = append(pts, p.position())
		p.eat("]")
	})
	return
}

func (p *refParser) geometry() *node {
	kw := p.cur()
	p.i++
	p.eat("[")
	n := nd(kw.k, "")
	switch kw.k {
	case "point":
		n.v = pointsValue([][2]float64{p.position()})
	case "line":
		n.v = pointsValue(p.points())
	case "polygon":
		var rings [][][2]float64
		p.list(func() {
			p.eat("[")
			rings = append(rings, p.points())
			p.eat("]")
		})
		n.v = ringsValue(rings)
	}
	p.eat("]")
	if kw.k != "polygon" && p.skip(":") {
		if !p.is("INT") && !p.is("FLOAT") {
			p.fail()
		}
		at := p.i
		d := p.number("")
		if d.k != "distance" {
			p.failAt(at)
		}
		n.kids = append(n.kids, d)
	}
	return n.at(kw.off, p.prevEnd())
}

var multiKind = map[string]string{"multipoint": "point", "multiline": "line", "multipolygon": "polygon"}

func (p *refParser) multi() *node {
	kw := p.cur()
	p.i++
	p.eat("[")
	n := nd("multi", kw.k)
	for {
		if !p.is(multiKind[kw.k]) {
			p.fail()
		}
		n.kids = append(n.kids, p.geometry())
		if p.is("]") {
			break
		}
		p.skip(",")
	}
	return n.at(kw.off, p.eat("]").end)
}

func (p *refParser) collection() *node {
	kw := p.cur()
	p.i++
	p.eat("[")
	n := nd("collection", "")
	for {
		switch p.cur().k {
		case "point", "line", "polygon":
			n.kids = append(n.kids, p.geometry())
		case "multipoint", "multiline", "multipolygon":
			n.kids = append(n.kids, p.multi())
		default:
			p.fail()
		}
		if p.is("]") {
			break
		}
		p.skip(",")
	}
	return n.at(kw.off, p.eat("]").end)
}
