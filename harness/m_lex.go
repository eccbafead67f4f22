package main

// Monitors of the tokenizer and of layout: C13, C14, C15.

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"strings"
	"unicode"

	g "github.com/mmadfox/go-geoql-parser"
)

// ---- C13

// relay lays the tokens of a text out anew, keeping their spelling.
func relay(src string, style int, r *rand.Rand) string {
	toks, _ := lex(src)
	var gt []gtok
	for _, t := range toks {
		if t.k == "EOF" {
			break
		}
		if strings.HasPrefix(t.k, "not ") || len(t.raw) > len(t.lit) && strings.ContainsAny(t.raw, " \t\r\n/") && t.k != "STRING" {
			gt = append(gt, gtok{text: t.lit, glue: strings.Contains(t.lit, " ")})
			continue
		}
		gt = append(gt, gtok{text: t.raw})
	}
	s, _, _ := layout(gt, style, r)
	return s
}

func (c *ctx) same(base, variant string, want *node, how string) {
	c.eval()
	st, err, ok := c.parse(variant)
	if !ok {
		return
	}
	if err != nil {
		c.fail(variant, "%s makes the text be rejected (%s); it was %q", how, errText(err), clip(base))
		return
	}
	if d := diffTree(convStmt(st), want, false); d != "" {
		c.fail(variant, "%s changes the meaning: %s; the text was %q", how, d, clip(base))
		return
	}
	c.count("variants")
}

func init() {
	each13 := func(c *ctx, src string) {
		if st, err, ok := c.parse(src); ok && err == nil {
			want, r := convStmt(st), newRand(hash64(src))
			for k := 1; k < 4; k++ {
				c.same(src, relay(src, k, r), want, "the layout")
			}
		}
	}
	register(&property{id: "C13", need: []string{"variants", "shifted", "re-cased"},
		rule: "accepted texts re-spaced, commented, re-cased and shifted, compared with the statement of the plain layout; non-trivial: distinct statements",
		parts: []part{
			{"layouts", 60_000, 1_200_000, func(c *ctx, r *rand.Rand, i int) {
				x := newGen(r)
				x.stmt(anyStmt)
				base, _, _ := layout(x.toks, 0, r)
				st, err, ok := c.parse(base)
				if !ok || err != nil {
					c.count("base rejected")
					return
				}
				want := convStmt(st)
				c.nontrivial(want.String())
				c.kinds(want)
				c.sample(base)
				for k := 1; k < 8; k++ {
					s, _, _ := layout(x.toks, min(k, 3), r)
					c.same(base, s, want, "the layout")
				}
				c.count("re-cased")
				for _, pad := range []string{" ", "\n", "\t\t", "\r\n", "/**/", "// x\n", someComment(r)} {
					c.same(base, pad+base+" "+pad, want, "padding")
				}
			}},
			{"edited texts", 100_000, 2_000_000, func(c *ctx, r *rand.Rand, i int) {
				src := nearMiss(r)
				st, err, ok := c.parse(src)
				if !ok || err != nil {
					c.count("base rejected")
					return
				}
				want := convStmt(st)
				c.nontrivial(want.String())
				for k := 0; k < 4; k++ {
					c.same(src, relay(src, k, r), want, "the layout")
				}
			}},
			{"shifts", 700, 12_000, func(c *ctx, r *rand.Rand, i int) {
				// every token boundary crosses the end of the read buffer
				s, _, toks := statement(r, anyStmt, i%3)
				if len(s) > 400 {
					s, _, toks = statement(r, stmtOpts{vars: 1, operands: 2, clauses: true}, 1)
				}
				if len(s) > 900 {
					return
				}
				st, err, ok := c.parse(s)
				if !ok || err != nil {
					return
				}
				want := convStmt(st)
				c.nontrivial(want.String())
				bom := ""
				if strings.HasPrefix(s, "\ufeff") {
					bom, s = s[:3], s[3:]
				}
				size := []int{1024, 2048, 4096}[i%3]
				for k := 0; k <= len(s)+4; k++ {
					pad := size - k - len(bom)
					if pad < 0 {
						break
					}
					c.same(s, bom+strings.Repeat([]string{" ", "\n", "\t"}[i%3], pad)+s, want, fmt.Sprintf("a shift by %d", pad))
					c.count("shifted")
				}
				_ = toks
			}},
			{"gap at one place", 1500, 30_000, func(c *ctx, r *rand.Rand, i int) {
				s, _, toks := statement(r, anyStmt, 0)
				if len(toks) > 80 {
					return
				}
				st, err, ok := c.parse(s)
				if !ok || err != nil {
					return
				}
				want := convStmt(st)
				p := pieces(s)
				for k := range p {
					gap := []string{"\n", "\t ", "\r\n\r\n", strings.Repeat(" ", 1020+r.Intn(10)), "  /* x */ ", " //\n", " " + someComment(r), " " + someComment(r) + someComment(r)}[r.Intn(8)]
					c.same(s, strings.Join(p[:k], "")+gap+strings.Join(p[k:], ""), want, fmt.Sprintf("white space before token %d", k))
				}
			}},
			{"case", 40_000, 800_000, func(c *ctx, r *rand.Rand, i int) {
				x := newGen(r)
				x.stmt(anyStmt)
				base, _, _ := layout(x.toks, 0, r)
				st, err, ok := c.parse(base)
				if !ok || err != nil {
					return
				}
				want := convStmt(st)
				c.nontrivial(want.String())
				variant := make([]gtok, len(x.toks))
				for mode := 0; mode < 3; mode++ {
					for k, t := range x.toks {
						if t.fold {
							t.text = recaseASCII(t.text, func(s string) string {
								switch mode {
								case 0:
									return strings.ToUpper(s)
								case 1:
									return strings.ToUpper(s[:1]) + s[1:]
								}
								b := []byte(s)
								j := r.Intn(len(b))
								if b[j] >= 'a' && b[j] <= 'z' {
									b[j] -= 32
								}
								return string(b)
							})
						}
						variant[k] = t
					}
					s, _, _ := layout(variant, 0, r)
					c.same(base, s, want, "letter case")
				}
			}},
			nestPart(6_000, 200_000, each13),
			wordPart(each13),
			hugePart(60, 600, nil, each13),
			sizedPart(3000, 60000, 4000, nil, each13),
		}})
}

// ---- C15 and C14

type obs struct {
	tok  string
	lit  string
	text string
	off  int
}

func (o obs) String() string { return fmt.Sprintf("%s %q at %d", o.tok, clip(o.lit), o.off) }

// scanAll reads all tokens and more calls after the end.
func (c *ctx) scanAll(src string, rd io.Reader, max int) (out []obs, errs int, err error, ok bool) {
	ok = c.guard("Tokenizer", src, len(src), func() {
		t := g.NewTokenizer(rd)
		for k := 0; k < max; k++ {
			tok, lit := t.Scan()
			out = append(out, obs{nameOf(tok), lit, t.TokenText(), int(t.Offset())})
			if tok == g.EOF {
				break
			}
		}
		for k := 0; k < 3; k++ {
			if tok, lit := t.Scan(); tok != g.EOF || lit != "" {
				c.fail(src, "%s %q after the end", nameOf(tok), lit)
				break
			}
		}
		errs, err = t.ErrorCount(), t.Err()
	})
	return
}

func (c *ctx) tokens(src string) {
	c.eval()
	want, errs := lex(src)
	have, n, err, ok := c.scanAll(src, strings.NewReader(src), len(want)+10)
	if !ok {
		return
	}
	for i, h := range have {
		if i >= len(want) {
			c.fail(src, "token %d is %v, expected nothing more", i, h)
			return
		}
		w := want[i]
		if h.tok != w.k || h.off != w.off || h.lit != w.lit && w.k != ".." && w.k != "EOF" {
			c.fail(src, "token %d is %v, want %s %q at %d", i, h, w.k, clip(w.lit), w.off)
			return
		}
		c.count("token " + h.tok)
		if i > 0 {
			c.nontrivial(have[i-1].tok + " " + h.tok + fmt.Sprint(w.off-want[i-1].end > 1))
		}
	}
	if len(have) != len(want) {
		c.fail(src, "%d tokens, want %d", len(have), len(want))
		return
	}
	if (n > 0) != (errs > 0) || n < errs {
		c.fail(src, "%d lexical errors counted, want %d", n, errs)
	}
	if (err != nil) != (errs > 0) {
		c.fail(src, "Err() is %v with %d lexical errors", err, errs)
	}
	if errs > 0 {
		c.count("with lexical errors")
	}
	c.sample(src)
}

// runes that matter to a scanner
var oddRunes = []string{"é", "日", "🚗", "\u00a0", "\u2028", "\ufeff", "\x00", "\xff", "\xc3", "\xe2\x82", "\xf0\x9f", "İ", "ſ", "K", "ß", "ǅ", "٣", "１", "_", "\u0301", "ª", "Ⅷ", "ʰ", "\v", "\f", "\x7f", "\u0085"}

// fromTable is a character of a Unicode table, every range equally likely.
func fromTable(r *rand.Rand, t *unicode.RangeTable) rune {
	if i := r.Intn(len(t.R16) + len(t.R32)); i < len(t.R16) {
		x := t.R16[i]
		return rune(x.Lo) + rune(x.Stride)*rune(r.Intn(int(x.Hi-x.Lo)/int(x.Stride)+1))
	} else {
		x := t.R32[i-len(t.R16)]
		return rune(x.Lo) + rune(x.Stride)*rune(r.Intn(int(x.Hi-x.Lo)/int(x.Stride)+1))
	}
}

// scriptName is an identifier, or nearly one, of letters and digits of any script.
func scriptName(r *rand.Rand) string {
	var b strings.Builder
	n := 1 + r.Intn(14)
	if r.Intn(10) == 0 {
		n = someSize(r) % 600
	}
	plain := r.Intn(3) == 0 // mostly ASCII
	for k := 0; k < n; k++ {
		switch w := r.Intn(14); {
		case plain && r.Intn(6) > 0 || w == 0:
			b.WriteByte("abz019_AZ"[r.Intn(9)])
		case w == 1 && r.Intn(3) == 0:
			b.WriteRune(fromTable(r, []*unicode.RangeTable{unicode.M, unicode.No, unicode.Nl, unicode.S, unicode.P, unicode.Z, unicode.C}[r.Intn(7)]))
		case w == 2 && r.Intn(4) == 0:
			b.WriteRune(rune(r.Intn(unicode.MaxRune)))
		case w < 6:
			b.WriteRune(fromTable(r, unicode.Nd))
		case w < 8:
			b.WriteRune(fromTable(r, unicode.Lm))
		default:
			b.WriteRune(fromTable(r, unicode.L))
		}
	}
	return b.String()
}

// escapes is some text of escape sequences, good and bad.
func escapes(r *rand.Rand) string {
	var b strings.Builder
	for n := 1 + r.Intn(4); n > 0; n-- {
		kind := "abfnrtv\\'\"01234567xuUN9q{ \n"[r.Intn(25)]
		b.WriteString("\\" + string(kind))
		set := "0123456789abcdefABCDEF"
		k, edges := r.Intn(4), []string{"", "0", "00", "77", "400", "fF"}
		switch kind {
		case 'x':
			k, edges = 2, []string{"00", "7f", "80", "ff", "Fg", "_1"}
		case 'u':
			k, edges = 4, []string{"0000", "D800", "dfff", "d7FF", "FEff", "ffff", "FFFD", "2028", "00_0"}
		case 'U':
			k, edges = 8, []string{"00000000", "0000d800", "0010FFFF", "00110000", "7fffffff", "FFFFFFFF", "0001F697"}
		case '0', '1', '2', '3', '4', '5', '6', '7':
			k, set = 2, "0123456789"
		}
		switch r.Intn(6) {
		case 0:
			k = max(0, k-1-r.Intn(2))
		case 1:
			k++
		}
		if r.Intn(3) == 0 {
			b.WriteString(edges[r.Intn(len(edges))])
		} else {
			for ; k > 0; k-- {
				b.WriteByte(set[r.Intn(len(set))])
			}
		}
		if r.Intn(3) == 0 {
			b.WriteString([]string{"a", "é", "0", " ", "\"", "'", "\xff"}[r.Intn(7)])
		}
	}
	return b.String()
}

func lexSoup(r *rand.Rand) string {
	var b strings.Builder
	for n := 1 + r.Intn(20); n > 0; n-- {
		switch r.Intn(9) {
		case 8:
			b.WriteString(scriptName(r))
		case 0, 1, 2:
			w := word(r)
			if r.Intn(3) == 0 {
				w = strings.ToUpper(w)
			}
			b.WriteString(w)
		case 3:
			b.WriteString(oddRunes[r.Intn(len(oddRunes))])
		case 4:
			const odd = "!<>=.=.!<>@;,:()[]{}/*+-%'\"`\\#$&?|~^_"
			b.WriteByte(odd[r.Intn(len(odd))])
		case 5:
			b.WriteString(strings.Repeat(string("0123456789._aZ"[r.Intn(14)]), 1+r.Intn(4)))
		case 6:
			if r.Intn(3) == 0 {
				q := []string{`"`, `"`, "'"}[r.Intn(3)]
				b.WriteString(q + escapes(r) + q)
				break
			}
			x := newGen(r)
			b.WriteString(`"` + x.stringText() + `"`)
		case 7:
			b.WriteByte(byte(r.Intn(256)))
		}
		if r.Intn(3) == 0 {
			b.WriteString([]string{" ", "\n", "\t", "\r", "  ", someComment(r), "//\n"}[r.Intn(7)])
		}
	}
	return b.String()
}

func init() {
	nv := len(vocab)
	need := []string{"with lexical errors"}
	for _, k := range tokName {
		need = append(need, "token "+k)
	}
	each15 := func(c *ctx, src string) { c.tokens(src) }
	register(&property{id: "C15", need: need,
		rule: "all pairs of vocabulary words with and without a gap, all short strings over the operator characters, random token, character and byte soups, long tokens; every token against the reference lexer; non-trivial: distinct ordered pairs of token kinds, adjacent or apart",
		parts: []part{
			{"pairs of words", nv * nv, nv * nv, func(c *ctx, r *rand.Rand, i int) {
				a, b := vocab[i/nv], vocab[i%nv]
				c.tokens(a + b)
				c.tokens(a + " " + b)
				c.tokens(strings.ToUpper(a) + "\n" + strings.ToUpper(b))
			}},
			{"operator characters", 12 * 12 * 12 * 12, 12 * 12 * 12 * 12, func(c *ctx, r *rand.Rand, i int) {
				const cs = "=!<>./*-+1a "
				s := ""
				for k := 0; k < 4; k++ {
					s += string(cs[i%12])
					i /= 12
				}
				c.tokens(s)
			}},
			{"single characters", 0x3000, 0x30000, func(c *ctx, r *rand.Rand, i int) {
				ch := string(rune(i))
				if i < 256 {
					c.tokens(string([]byte{byte(i)}))
					c.tokens("a" + string([]byte{byte(i)}) + "b")
				}
				c.tokens(ch)
				c.tokens("a" + ch + "1")
				c.tokens("1" + ch + "a \"" + ch + "\"")
			}},
			{"soup", 250_000, 5_000_000, func(c *ctx, r *rand.Rand, i int) { c.tokens(lexSoup(r)) }},
			{"texts", 100_000, 2_000_000, func(c *ctx, r *rand.Rand, i int) { c.tokens(anyText(r)) }},
			{"not", 20_000, 200_000, func(c *ctx, r *rand.Rand, i int) {
				s := ""
				for k := 1 + r.Intn(6); k > 0; k-- {
					s += []string{"not", "NOT", "Not", "eq", "in", "IN", "nearby", "intersects", "a", "not_in", "notin", "1", "@", "==", "\"in\"", "and", "inx", "nearBy"}[r.Intn(18)]
					s += []string{" ", "  ", "\n", "\t", "", "/**/", ","}[r.Intn(7)]
				}
				c.tokens(s)
			}},
			{"names of any script", 60_000, 2_000_000, func(c *ctx, r *rand.Rand, i int) {
				a, b := scriptName(r), scriptName(r)
				c.tokens([]string{a, "a" + a + " " + b, "abcdefgh" + a + " 1" + b, "@" + a + ":" + b, "\"" + a + "\" not " + b + " not in", a + "/*" + b + "*/" + b}[r.Intn(6)])
			}},
			{"long tokens", 3000, 30_000, func(c *ctx, r *rand.Rand, i int) {
				n := []int{1020, 1024, 2047, 5000}[r.Intn(4)] - r.Intn(12)
				unit := []string{"a", "é", "日", "7", "🚗", "_", "7_", "ab "}[r.Intn(8)]
				body := strings.Repeat(unit, n/len(unit))
				c.tokens(lexSoup(r) + []string{body, `"` + body + `"`, "1." + body, `"` + body, "/*" + body + "*/", "//" + body + "\n", "'" + body + "'"}[r.Intn(7)] + lexSoup(r))
			}},
			{"spelling of words", 30_000, 400_000, func(c *ctx, r *rand.Rand, i int) {
				w := vocab[r.Intn(60)]
				b := []byte(w)
				for k := range b {
					if r.Intn(2) == 0 && b[k] >= 'a' && b[k] <= 'z' {
						b[k] -= 32
					}
				}
				s := string(b)
				if r.Intn(2) == 0 {
					s = mutateBytes(r, s, 1)
				}
				c.tokens("x " + s + " y")
				c.tokens(s)
			}},
			nestPart(10_000, 300_000, each15),
			wordPart(each15),
			hugePart(90, 900, nil, each15),
			sizedPart(3000, 60000, 6000, nil, each15),
		}})
	each14 := func(c *ctx, src string) { c.chunked(newRand(hash64(src)), src, 2) }
	register(&property{id: "C14", level: "fault_enumeration", need: []string{"chunkings", "faults injected", "boundaries"},
		rule: "the token stream of a text read in one piece against that of readers splitting it (one byte, random pieces, data with EOF, empty reads), at every place of the read buffer, and with a read error after any byte; non-trivial: distinct texts",
		parts: []part{
			{"chunkings", 60_000, 1_000_000, func(c *ctx, r *rand.Rand, i int) {
				src := chunkText(r)
				c.chunked(r, src, 7)
			}},
			{"long texts", 1500, 30_000, func(c *ctx, r *rand.Rand, i int) {
				var b strings.Builder
				for b.Len() < 900+r.Intn(8000) {
					b.WriteString(chunkText(r))
					b.WriteString([]string{" ", "\n", ""}[r.Intn(3)])
				}
				c.chunked(r, b.String(), 7)
			}},
			{"buffer boundary", 2500, 40_000, func(c *ctx, r *rand.Rand, i int) {
				unit := []string{"when a == \"日本\" and ", "éé 12.5km..", "== != <= >= .. not in ", "\"a\\u00e9🚗\" ", "// c\n/* d */ x ", "@dev{\"1\",*}:", "point[1.25,-2.5]:5km "}[i%7]
				body := strings.Repeat(unit, 4)
				base := []int{1024, 2048, 3072}[i/7%3]
				for k := -2; k < len(unit)+2; k++ {
					src := strings.Repeat(" ", max(0, base-k-r.Intn(3)*len(unit))) + body
					c.chunked(r, src, 2)
					c.count("boundaries")
				}
			}},
			{"read errors", 6000, 100_000, func(c *ctx, r *rand.Rand, i int) {
				src := chunkText(r)
				if len(src) > 200 {
					src = src[:200]
				}
				for k := 0; k <= len(src); k++ {
					c.readFault(r, src, k)
				}
			}},
			{"read errors in long texts", 1500, 30_000, func(c *ctx, r *rand.Rand, i int) {
				var b strings.Builder
				for b.Len() < 900+r.Intn(3000) {
					b.WriteString(chunkText(r) + " ")
				}
				for k := 0; k < 10; k++ {
					c.readFault(r, b.String(), r.Intn(b.Len()+1))
				}
				for _, k := range []int{1022, 1023, 1024, 1025, 2047, 2048} {
					if k <= b.Len() {
						c.readFault(r, b.String(), k)
					}
				}
			}},
			nestPart(4_000, 100_000, each14),
			wordPart(each14),
			hugePart(60, 600, nil, each14),
			sizedPart(2500, 40000, 3000, nil, each14),
		}})
}

func chunkText(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return lexSoup(r)
	case 1:
		return anyText(r)
	}
	s, _, _ := statement(r, anyStmt, r.Intn(4))
	return s
}

// pieceReader delivers a text in pieces chosen by size, then fails with end.
type pieceReader struct {
	s     string
	size  func() int // 0 is an empty read
	early bool       // the last piece comes together with the end
	end   error
	reads int
	rest  string // what comes after the first failure
	more  bool   // the failure passes
}

func (p *pieceReader) Read(b []byte) (int, error) {
	p.reads++
	if len(p.s) == 0 {
		return 0, p.fail()
	}
	n := min(p.size(), len(p.s), len(b))
	copy(b, p.s[:n])
	p.s = p.s[n:]
	if len(p.s) == 0 && p.early {
		return n, p.fail()
	}
	return n, nil
}

func (p *pieceReader) fail() error {
	err := p.end
	if p.more {
		p.s, p.end, p.more, p.rest = p.rest, io.EOF, false, ""
	}
	return err
}

func (c *ctx) compareStream(src, how string, have, want []obs) bool {
	for i := range want {
		if i >= len(have) {
			c.fail(src, "%s: token %v is missing", how, want[i])
			return false
		}
		if have[i] != want[i] {
			c.fail(src, "%s: token %d is %v, in one piece it is %v", how, i, have[i], want[i])
			return false
		}
	}
	if len(have) > len(want) {
		c.fail(src, "%s: additional token %v", how, have[len(want)])
		return false
	}
	return true
}

func (c *ctx) chunked(r *rand.Rand, src string, modes int) {
	want, errs, _, ok := c.scanAll(src, strings.NewReader(src), len(src)+10)
	if !ok {
		return
	}
	// the stream in one piece is itself checked against the reference lexer
	ref, _ := lex(src)
	for i := range ref {
		if i >= len(want) || want[i].tok != ref[i].k || want[i].off != ref[i].off {
			c.fail(src, "in one piece: token %d is not %s %q at %d", i, ref[i].k, clip(ref[i].lit), ref[i].off)
			return
		}
	}
	c.nontrivial(src)
	c.sample(src)
	for m := 0; m < modes; m++ {
		rd := &pieceReader{s: src, end: io.EOF}
		how := ""
		mode := m
		if modes < 7 {
			mode = r.Intn(7)
		}
		switch mode {
		case 0:
			how, rd.size = "one byte at a time", func() int { return 1 }
		case 1:
			how, rd.size = "small pieces", func() int { return 1 + r.Intn(5) }
		case 2:
			how, rd.size, rd.early = "pieces, the last with EOF", func() int { return 1 + r.Intn(40) }, true
		case 3:
			how, rd.size = "empty reads", func() int { return r.Intn(2) * (1 + r.Intn(3)) }
		case 4:
			how, rd.size, rd.early = "one byte at a time, the last with EOF", func() int { return 1 }, true
		case 5:
			how, rd.size = "large pieces", func() int { return 500 + r.Intn(1100) }
		case 6:
			how, rd.size, rd.early = "all at once with EOF", func() int { return 1 << 30 }, true
		}
		c.eval()
		have, n, _, ok := c.scanAll(src, rd, len(src)+10)
		if !ok {
			return
		}
		if !c.compareStream(src, how, have, want) {
			return
		}
		if n != errs {
			c.fail(src, "%s: %d lexical errors, in one piece %d", how, n, errs)
			return
		}
		c.count("chunkings")
	}
}

func (c *ctx) readFault(r *rand.Rand, src string, k int) {
	cut := src[:k]
	want, errs, _, ok := c.scanAll(cut, strings.NewReader(cut), len(cut)+10)
	if !ok {
		return
	}
	boom := errors.New("the disk is on fire")
	if r.Intn(2) == 0 {
		boom = writeErrs[r.Intn(len(writeErrs))]
		if _, mute := boom.(*runtime.TypeAssertionError); mute || boom == io.EOF { // an empty one cannot say its text
			boom = io.ErrUnexpectedEOF
		}
	}
	size := func() int { return 1 + r.Intn(7) }
	if r.Intn(2) == 0 {
		size = func() int { return 1 << 30 }
	}
	rd := &pieceReader{s: cut, size: size, early: r.Intn(2) == 0, end: boom}
	switch r.Intn(4) {
	case 0: // the end after the failure
		rd.more = true
		c.count("passing failures")
	case 1: // more data after it
		rd.more, rd.rest = true, src[k:]
		c.count("passing failures")
	}
	last := rd.rest == ""
	c.eval()
	have, n, err, ok := c.scanAll(cut, rd, len(src)+10)
	if !ok {
		return
	}
	c.count("faults injected")
	c.nontrivial(cut)
	if err == nil || n == 0 {
		c.fail(cut, "a read error after byte %d is not reported (%d errors, Err %v)", k, n, err)
		return
	}
	if errs == 0 && last && !strings.Contains(err.Error(), boom.Error()) {
		c.fail(cut, "a read error after byte %d is reported as %v", k, err)
		return
	}
	// tokens that ended before the last byte delivered cannot be affected
	end := k
	if !last { // more data may complete a character
		end -= 3
	}
	for i, w := range want {
		if w.off+len(w.text) >= end {
			break
		}
		if i+1 < len(want) && (want[i+1].off >= end || !last && want[i+1].off+len(want[i+1].text) >= end) { // may combine with what follows
			break
		}
		if i >= len(have) || have[i] != w {
			c.fail(cut, "a read error after byte %d changes token %d from %v", k, i, w)
			return
		}
	}
}
