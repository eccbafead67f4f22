package main

// Monitor of the raw scanner: C23.

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"testing/iotest"
	tscan "text/scanner"
	"unicode"
	"unicode/utf8"

	"github.com/mmadfox/go-geoql-parser/scanner"
)

const numberModes = scanner.ScanInts | scanner.ScanFloats

// scanSetup is a way to run a scanner.
type scanSetup struct {
	src   string
	mode  uint
	ws    uint64
	ident func(ch rune, i int) bool
	read  func() io.Reader
	how   string
}

var identRunes = []struct {
	name string
	f    func(ch rune, i int) bool
}{
	{"default", nil}, {"default", nil}, {"default", nil},
	{"lower-case", func(ch rune, i int) bool { return ch >= 'a' && ch <= 'z' }},
	{"with minus", func(ch rune, i int) bool { return unicode.IsLetter(ch) || ch == '-' && i > 0 }},
	{"with digits first", func(ch rune, i int) bool { return unicode.IsLetter(ch) || ch >= '0' && ch <= '9' || ch == '.' && i > 0 }},
	{"two runes", func(ch rune, i int) bool { return unicode.IsLetter(ch) && i < 2 }},
	{"all visible", func(ch rune, i int) bool { return ch > ' ' }},
}

var readKinds = []string{"whole", "one byte", "halves", "data with end", "pieces", "pieces", "read error"}

func (c *ctx) someSetup(r *rand.Rand, src string) scanSetup {
	s := scanSetup{src: src}
	switch r.Intn(4) {
	case 0:
		s.mode = scanner.GoTokens
	case 1:
		s.mode = scanner.GoTokens &^ scanner.SkipComments
	default:
		s.mode = uint(r.Intn(1<<9)) &^ 3
	}
	switch r.Intn(4) {
	case 0:
		s.ws = 0
	case 1:
		s.ws = r.Uint64() & (1<<33 - 1) &^ 1
	case 2:
		s.ws = uint64(scanner.GoWhitespace) &^ (1 << '\n')
	default:
		s.ws = scanner.GoWhitespace
	}
	id := identRunes[r.Intn(len(identRunes))]
	s.ident = id.f
	if id.name == "all visible" {
		s.ws &= 1<<33 - 1
	}
	kind := readKinds[r.Intn(len(readKinds))]
	seed := r.Uint64()
	s.how = fmt.Sprintf("mode %#x, white space %#x, identifiers %s, reader %s", s.mode, s.ws, id.name, kind)
	s.read = func() io.Reader {
		rr := newRand(seed)
		switch kind {
		case "one byte":
			return iotest.OneByteReader(strings.NewReader(src))
		case "halves":
			return iotest.HalfReader(strings.NewReader(src))
		case "data with end":
			return iotest.DataErrReader(strings.NewReader(src))
		case "pieces":
			most := 1 + rr.Intn(20)
			return &pieceReader{s: src, size: func() int { return rr.Intn(most + 1) }, early: rr.Intn(2) == 0, end: io.EOF}
		case "read error":
			cut := rr.Intn(len(src) + 1)
			return &pieceReader{s: src[:cut], size: func() int { return 1 + rr.Intn(30) }, early: rr.Intn(2) == 0, end: errReader}
		}
		return strings.NewReader(src)
	}
	return s
}

// fromReader keeps what a reader said; the scanner's own wording is free.
func fromReader(msg string) string {
	if msg == errReader.Error() {
		return "read error"
	}
	return "error"
}

var errReader = errors.New("no more")

// against runs a sequence of calls on the scanner and on Go's own.
func (c *ctx) against(r *rand.Rand, set scanSetup, reuse bool) {
	set.mode &^= numberModes
	var a scanner.Scanner
	var b tscan.Scanner
	if reuse {
		// scanners that have been used on something else
		other := lexSoup(r)
		c.guard("scanner", other, len(other), func() { a.Init(strings.NewReader(other)) })
		b.Init(strings.NewReader(other))
		a.Error = func(*scanner.Scanner, string) {}
		b.Error = func(*tscan.Scanner, string) {}
		a.Mode &^= numberModes
		b.Mode &^= numberModes
		for k := r.Intn(8); k > 0; k-- {
			c.guard("scanner", other, len(other), func() { a.Scan() })
			b.Scan()
		}
	}
	var la, lb []string
	a.Init(set.read())
	b.Init(set.read())
	if uint(a.Mode) != b.Mode || a.Whitespace != b.Whitespace || a.Error != nil || a.ErrorCount != 0 {
		c.fail(set.src, "Init sets mode %#x, white space %#x, error count %d", a.Mode, a.Whitespace, a.ErrorCount)
		return
	}
	a.Mode, a.Whitespace, a.IsIdentRune = set.mode, set.ws, set.ident
	b.Mode, b.Whitespace, b.IsIdentRune = set.mode, set.ws, set.ident
	if set.ident != nil {
		// the predicate is never asked about the end of the input
		b.IsIdentRune = func(ch rune, i int) bool { return ch >= 0 && set.ident(ch, i) }
		a.IsIdentRune = func(ch rune, i int) bool {
			if ch < 0 {
				la = append(la, "IsIdentRune asked about the end of the input")
			}
			return set.ident(ch, i)
		}
	}
	a.Filename, b.Filename = "file", "file"
	a.Error = func(s *scanner.Scanner, msg string) {
		la = append(la, fmt.Sprint(fromReader(msg), " ", s.Position, s.Offset, " ", s.Pos(), s.Pos().Offset, s.ErrorCount))
	}
	b.Error = func(s *tscan.Scanner, msg string) {
		lb = append(lb, fmt.Sprint(fromReader(msg), " ", s.Position, s.Offset, " ", s.Pos(), s.Pos().Offset, s.ErrorCount))
	}
	onlyScan := r.Intn(2) == 0
	ends := 0
	calls := ""
	c.eval()
	for n := 0; n < 3*len(set.src)+20 && ends < 3; n++ {
		op := 0
		if !onlyScan {
			op = weighted(r, 8, 3, 2, 1)
		}
		var ra, rb rune
		switch op {
		case 0:
			if !c.guard("Scan", set.src, len(set.src), func() { ra = a.Scan() }) {
				return
			}
			rb = b.Scan()
			calls = "Scan"
			c.count("tokens")
			c.nontrivial(fmt.Sprintf("%x %x %d %s", set.mode, set.ws&0xff, rb, clip(b.TokenText())))
		case 1:
			if !c.guard("Next", set.src, len(set.src), func() { ra = a.Next() }) {
				return
			}
			rb = b.Next()
			calls = "Next"
			c.count("next")
		case 2:
			ra, rb = a.Peek(), b.Peek()
			calls = "Peek"
			c.count("peek")
		case 3:
			m := uint(r.Intn(1<<9)) &^ 3 &^ numberModes
			a.Mode, b.Mode = m, m
			calls = "mode"
			c.count("mode changes")
		}
		if ra == scanner.EOF && op < 2 {
			ends++
		}
		ta, tb := a.TokenText(), b.TokenText()
		switch {
		case ra != rb:
			c.fail(set.src, "%s number %d gives %s instead of %s (%s)", calls, n, scanner.TokenString(ra), tscan.TokenString(rb), set.how)
		case ta != tb:
			c.fail(set.src, "token text %q instead of %q after %s number %d (%s)", clip(ta), clip(tb), calls, n, set.how)
		case ta != a.TokenText():
			c.fail(set.src, "token text differs when asked for again (%s)", set.how)
		case a.Position.String() != b.Position.String() || a.Offset != b.Offset || a.Line != b.Line || a.Column != b.Column || a.IsValid() != b.IsValid():
			c.fail(set.src, "position %v offset %d instead of %v offset %d after %s number %d (%s)", a.Position, a.Offset, b.Position, b.Offset, calls, n, set.how)
		case a.Pos().String() != b.Pos().String() || a.Pos().Offset != b.Pos().Offset:
			c.fail(set.src, "Pos() %v offset %d instead of %v offset %d after %s number %d (%s)", a.Pos(), a.Pos().Offset, b.Pos(), b.Pos().Offset, calls, n, set.how)
		case a.ErrorCount != b.ErrorCount || strings.Join(la, "\n") != strings.Join(lb, "\n"):
			c.fail(set.src, "errors %q instead of %q after %s number %d (%s)", la, lb, calls, n, set.how)
		default:
			continue
		}
		return
	}
	if len(lb) > 0 {
		c.count("inputs with errors")
	}
	c.sample(fmt.Sprintf("%s: %q", set.how, clip(set.src)))
}

// ---- partition, with numbers, against the definition

type place3 struct{ off, line, col int }

// advance moves a place over some text.
func advance(p place3, text string) place3 {
	for _, r := range decode(text) {
		p.off += r.n
		if r.r == '\n' {
			p.line, p.col = p.line+1, 1
		} else {
			p.col++
		}
	}
	return p
}

type runeAt struct {
	r rune
	n int
}

func decode(s string) (out []runeAt) {
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		out = append(out, runeAt{r, w})
		i += w
	}
	return
}

// skipped marks a comment that is not a token.
const skipped = rune(-1000)

// modelToken gives kind and length of the token at the start of s, which does
// not begin with white space; a comment to be skipped has the kind skipped.
func modelToken(s string, set *scanSetup) (kind rune, n int) {
	if s == "" {
		return scanner.EOF, 0
	}
	isIdent := set.ident
	if isIdent == nil {
		isIdent = func(ch rune, i int) bool { return ch == '_' || unicode.IsLetter(ch) || unicode.IsDigit(ch) && i > 0 }
	}
	r, w := utf8.DecodeRuneInString(s)
	on := func(bit uint) bool { return set.mode&bit != 0 }
	switch {
	case isIdent(r, 0):
		n = w
		if !on(scanner.ScanIdents) {
			return r, n
		}
		for i := 1; n < len(s); i++ {
			q, w := utf8.DecodeRuneInString(s[n:])
			if !isIdent(q, i) {
				break
			}
			n += w
		}
		return scanner.Ident, n
	case r >= '0' && r <= '9' && on(numberModes):
		for n < len(s) && (isDec(s[n]) || s[n] == '_') {
			n++
		}
		if n < len(s) && s[n] == '.' && on(scanner.ScanFloats) {
			for n++; n < len(s) && (isDec(s[n]) || s[n] == '_'); {
				n++
			}
			return scanner.Float, n
		}
		return scanner.Int, n
	case r == '"' && on(scanner.ScanStrings):
		e, _, _ := quoted(s, 0)
		return scanner.String, e
	case r == '\'' && on(scanner.ScanChars):
		e, _, _ := quoted(s, 0)
		return scanner.Char, e
	case r == '`' && on(scanner.ScanRawStrings):
		if e := strings.IndexByte(s[1:], '`'); e >= 0 {
			return scanner.RawString, e + 2
		}
		return scanner.RawString, len(s)
	case strings.HasPrefix(s, "//") && on(scanner.ScanComments):
		n = strings.IndexByte(s, '\n')
		if n < 0 {
			n = len(s)
		}
	case strings.HasPrefix(s, "/*") && on(scanner.ScanComments):
		n = len(s)
		if e := strings.Index(s[2:], "*/"); e >= 0 {
			n = e + 4
		}
	default:
		return r, w
	}
	if on(scanner.SkipComments) {
		return skipped, n
	}
	return scanner.Comment, n
}

func (c *ctx) partition(r *rand.Rand, set scanSetup, mixed bool) {
	var s scanner.Scanner
	s.Init(set.read())
	s.Error = func(*scanner.Scanner, string) {}
	s.Mode, s.Whitespace, s.IsIdentRune = set.mode, set.ws, set.ident
	at := place3{0, 1, 1}
	rest := set.src
	if strings.HasPrefix(rest, "\uFEFF") {
		at.off, at.col, rest = 3, 2, rest[3:]
	}
	eat := func(n int) { at, rest = advance(at, rest[:n]), rest[n:] }
	c.eval()
	for n := 0; n < 2*len(set.src)+10; n++ {
		if mixed && r.Intn(3) == 0 {
			want := rune(scanner.EOF)
			w := 0
			if rest != "" {
				want, w = utf8.DecodeRuneInString(rest)
			}
			var have rune
			peek := s.Peek()
			if !c.guard("Next", set.src, len(set.src), func() { have = s.Next() }) {
				return
			}
			if have != want || peek != want {
				c.fail(set.src, "at offset %d Peek gives %q and Next %q instead of %q (%s)", at.off, peek, have, want, set.how)
				return
			}
			eat(w)
		} else {
			var kind rune
			k := 0
			for {
				for rest != "" && rest[0] < 64 && set.ws&(1<<rest[0]) != 0 {
					eat(1)
				}
				kind, k = modelToken(rest, &set)
				if kind != skipped {
					break
				}
				eat(k)
				c.count("skipped comments")
			}
			var have rune
			if !c.guard("Scan", set.src, len(set.src), func() { have = s.Scan() }) {
				return
			}
			text := s.TokenText()
			switch {
			case have != kind:
				c.fail(set.src, "token %s %q at offset %d instead of %s %q at offset %d (%s)", scanner.TokenString(have), clip(text), s.Offset, scanner.TokenString(kind), clip(rest[:k]), at.off, set.how)
			case text != rest[:k]:
				c.fail(set.src, "%s has text %q instead of %q at offset %d (%s)", scanner.TokenString(kind), clip(text), clip(rest[:k]), at.off, set.how)
			case s.Offset != at.off || kind != scanner.EOF && (s.Line != at.line || s.Column != at.col):
				c.fail(set.src, "%s %q is at offset %d line %d column %d instead of offset %d line %d column %d (%s)", scanner.TokenString(kind), clip(text), s.Offset, s.Line, s.Column, at.off, at.line, at.col, set.how)
			default:
				eat(k)
				c.count("token " + kindName(kind))
				c.nontrivial(fmt.Sprintf("%s %x %x", clip(text), set.mode, set.ws&0xff))
				if kind == scanner.EOF {
					if at.off != len(set.src) {
						c.fail(set.src, "harness: model ended at %d", at.off)
					}
					if !mixed {
						return
					}
				}
				goto pos
			}
			return
		}
	pos:
		if p := s.Pos(); p.Offset != at.off || rest != "" && (p.Line != at.line || p.Column != at.col) {
			c.fail(set.src, "Pos() is offset %d line %d column %d instead of offset %d line %d column %d (%s)", p.Offset, p.Line, p.Column, at.off, at.line, at.col, set.how)
			return
		}
	}
}

func kindName(k rune) string {
	if k >= 0 {
		return "character"
	}
	return scanner.TokenString(k)
}

// scanText is text for the raw scanner.
func scanText(r *rand.Rand) string {
	switch r.Intn(10) {
	case 9:
		q := []string{"\"", "'"}[r.Intn(2)]
		return word(r) + q + escapes(r) + q + lexSoup(r)
	case 0, 1, 5, 6:
		return lexSoup(r)
	case 2:
		return anyText(r)
	case 3: // around the read buffer
		pieces := []string{"é", "日", "🚗", "abc", "\n", " ", "\"x\\n\"", "/* c\n */", "// l\n", "1.5", "'a'", "`r\nr`", "\xff"}
		p := pieces[r.Intn(len(pieces))]
		n := (1000 + r.Intn(60)) / len(p)
		return strings.Repeat(p, n) + lexSoup(r)
	case 4: // one long token
		n := 900 + r.Intn(1500)
		fill := []string{"a", "é", "日", "🚗", "1", "_", "*", "\\n", " ", "x\xff"}[r.Intn(10)]
		open := []string{"\"", "'", "`", "/*", "//", "a", "1", "1.", ""}[r.Intn(9)]
		return lexSoup(r) + open + strings.Repeat(fill, n/len(fill)) + []string{"\"", "'", "`", "*/", "\n", ""}[r.Intn(6)] + lexSoup(r)
	}
	// characters at random
	b := make([]string, r.Intn(40))
	for i := range b {
		switch r.Intn(4) {
		case 0:
			b[i] = oddRunes[r.Intn(len(oddRunes))]
		case 1:
			b[i] = string(rune(r.Intn(128)))
		default:
			b[i] = []string{"/", "*", "\"", "'", "`", "\\", "\n", "\r", " ", ".", "0", "9", "_", "a", "Z", "\\x4", "\\u00", "//", "/*", "*/", "\t"}[r.Intn(21)]
		}
	}
	return strings.Join(b, "")
}

// hugeScanText has a token of great length, or one far behind the start.
func hugeScanText(r *rand.Rand, i int) string {
	n := []int{1 << 16, 1 << 17, 1 << 18, 1 << 20}[r.Intn(4)]
	for _, s := range sizes {
		if s > 1<<16 && s < 1<<22 && r.Intn(3) == 0 {
			n = s
		}
	}
	n += r.Intn(60) - 40 + r.Intn(2)*r.Intn(n)
	if i%3 == 2 {
		gap := []string{" ", "\n", "é", ".", "a ", "/**/", "// c\n", "\xff"}[r.Intn(8)]
		return strings.Repeat(gap, n/len(gap)) + lexSoup(r)
	}
	open := []string{"\"", "`", "/*", "//", "a", "1", "1.", "'"}[i*2/3%8]
	fill := []string{"a", "é", "日", "🚗", "1", "_", "*", "\\n", " ", "x\xff"}[r.Intn(10)]
	switch open {
	case "a":
		fill = []string{"a", "é", "日", "_", "b9"}[r.Intn(5)]
	case "1", "1.":
		fill = []string{"1", "_", "90"}[r.Intn(3)]
	}
	// every stretch of the token differs from the others
	var b strings.Builder
	b.WriteString(lexSoup(r) + open)
	for k := 0; b.Len() < n; k++ {
		b.WriteString(strings.Repeat(fill, 1+r.Intn(500)))
		if open != "'" {
			fmt.Fprint(&b, k)
		}
	}
	return b.String() + []string{"\"", "`", "*/", "\n", "", "'"}[r.Intn(6)] + lexSoup(r)
}

func init() {
	register(&property{id: "C23", need: []string{"tokens", "next", "peek", "mode changes", "inputs with errors", "skipped comments", "token Ident", "token Int", "token Float", "token Char", "token String", "token RawString", "token Comment", "token EOF", "token character"},
		rule:  "random sequences of Scan, Next, Peek and mode changes on texts of all sorts with random modes, white-space sets, identifier predicates and readers, compared call by call (results, texts, positions, error reports) with Go's text/scanner without numbers, and compared with a model of the partition including numbers; non-trivial: distinct combinations of token text, mode and white space",
		notes: []string{"Go's text/scanner of the installed toolchain, of which the package is a copy, is taken to be right where numbers do not matter"},
		parts: []part{
			{"against text/scanner", 110_000, 6_000_000, func(c *ctx, r *rand.Rand, i int) {
				c.against(r, c.someSetup(r, scanText(r)), r.Intn(4) == 0)
			}},
			{"partition", 110_000, 6_000_000, func(c *ctx, r *rand.Rand, i int) {
				set := c.someSetup(r, scanText(r))
				for strings.HasSuffix(set.how, "read error") {
					set = c.someSetup(r, set.src)
				}
				c.partition(r, set, i%3 == 0)
			}},
			{"huge", 48, 2000, func(c *ctx, r *rand.Rand, i int) {
				// every character counts for the time of a comparison
				set := c.someSetup(r, hugeScanText(r, i))
				for strings.HasSuffix(set.how, "read error") || set.ws&(1<<' ') == 0 || set.mode&(scanner.ScanIdents) == 0 || set.mode&scanner.ScanComments == 0 {
					set = c.someSetup(r, set.src)
				}
				set.mode |= uint(scanner.GoTokens) &^ scanner.SkipComments
				c.count("huge")
				c.max("size", len(set.src))
				c.partition(r, set, false)
			}},
			{"tables", 300, 300, func(c *ctx, r *rand.Rand, i int) {
				k := rune(i - 12)
				if i >= 200 {
					k = rune(r.Intn(0x11000))
				}
				c.eval()
				if a, b := scanner.TokenString(k), tscan.TokenString(k); a != b && k != -9 {
					c.fail(fmt.Sprint(k), "TokenString gives %q instead of %q", a, b)
				}
				p := scanner.Position{Filename: []string{"", "f"}[r.Intn(2)], Offset: r.Intn(9), Line: r.Intn(3), Column: r.Intn(3)}
				q := tscan.Position{Filename: p.Filename, Offset: p.Offset, Line: p.Line, Column: p.Column}
				if p.String() != q.String() || p.IsValid() != q.IsValid() {
					c.fail(fmt.Sprint(p), "position %q valid %v instead of %q valid %v", p, p.IsValid(), q, q.IsValid())
				}
			}},
		}})
}
