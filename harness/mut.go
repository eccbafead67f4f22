package main

// Mutation of texts, at the level of tokens and of bytes, and random texts.

import (
	"math/rand"
	"strings"
)

var vocab = []string{
	"trigger", "set", "when", "repeat", "reset", "every", "after", "rem", "mod", "or", "and", "eq", "in", "not",
	"not in", "not eq", "not nearby", "not intersects", "nearby", "intersects", "range", "time", "date", "weekday", "month",
	"point", "line", "polygon", "multipoint", "multiline", "multipolygon", "collection", "true", "false", "up", "down",
	"=", "==", "!=", "<", ">", "<=", ">=", "..", ".", ",", ";", ":", "(", ")", "[", "]", "{", "}", "+", "-", "*", "/", "@", "%", "!",
	"0", "1", "5", "12", "24", "59", "60", "2022", "2030", "2200", "9223372036854775807", "9223372036854775808", "1.5", "0.5", "3.", "00", "1_0", "1_0.5", "99999999999999999999.0",
	"kph", "Mph", "km", "M", "m", "rm", "rkm", "bar", "psi", "C", "f", "PCT", "h", "s", "ms", "h30m", "m5s", "us", "ns", "hello", "KM", "pct", "kpa",
	"am", "PM", "mon", "sun", "jan", "dec", "foo", "speed", "a", "x", "vv", "é", "_",
	`""`, `"a"`, `"x y"`, `"\""`, `"\\"`, `"\x41"`, "@a", "@vv", "#", "$", "&", "'", "|", "?", "~", "^", "`", `\`,
	`"open`, `"\q"`, "\x00", "\xff", "\u00a0", "\u2028", "//", "/*", "*/", "0x1F", "1e5", ".5", "1..2", "1...2",
	"[1,2]", "point[1,2]", "time[10:00]", "weekday[mon]", "date[2022-01-01]", "month[jan..mar]", "device{\"a\",*}", "10kph",
}

// pieces splits a text into tokens, each with the white space in front of it;
// the last piece is the trailing white space.
func pieces(src string) []string {
	raw, _ := rawLex(src)
	out := make([]string, 0, len(raw))
	at := 0
	for _, t := range raw {
		e := t.off + len(t.text)
		if t.k == rawEOF {
			e = len(src)
		}
		out = append(out, src[at:e])
		at = e
	}
	return out
}

func word(r *rand.Rand) string {
	if len(novelWords) > 0 && r.Intn(8) == 0 {
		return novelWords[r.Intn(len(novelWords))]
	}
	return vocab[r.Intn(len(vocab))]
}

// someSize is a size at, just below or just above one of interest.
func someSize(r *rand.Rand) int { return max(0, sizes[r.Intn(len(sizes))]+r.Intn(5)-2) }

// mutateTokens makes 1..n token-level edits.
func mutateTokens(r *rand.Rand, src string, n int, other func() string) string {
	p := pieces(src)
	for k := 1 + r.Intn(n); k > 0 && len(p) > 0; k-- {
		i := r.Intn(len(p))
		j := r.Intn(len(p))
		switch r.Intn(12) {
		case 0, 1:
			p = append(p[:i:i], p[i+1:]...)
		case 2:
			p = append(p[:i+1:i+1], p[i:]...)
		case 3:
			p[i], p[j] = p[j], p[i]
		case 4, 5:
			p[i] = " " + word(r)
		case 6, 7:
			p = append(p[:i:i], append([]string{" " + word(r)}, p[i:]...)...)
		case 8:
			if i > 0 {
				p = p[:i]
			}
		case 9: // a copy of a stretch elsewhere
			l := 1 + r.Intn(6)
			if i+l > len(p) {
				l = len(p) - i
			}
			seg := append([]string(nil), p[i:i+l]...)
			p = append(p[:j:j], append(seg, p[j:]...)...)
		case 10: // cut a stretch
			l := 1 + r.Intn(5)
			if i+l <= len(p) {
				p = append(p[:i:i], p[i+l:]...)
			}
		case 11:
			if other != nil {
				q := pieces(other())
				a := r.Intn(len(q))
				b := a + r.Intn(len(q)-a+1)
				p = append(p[:i:i], append(append([]string{" "}, q[a:b]...), p[i:]...)...)
			}
		}
	}
	return strings.Join(p, "")
}

// mutateBytes makes 1..n byte-level edits.
func mutateBytes(r *rand.Rand, src string, n int) string {
	b := []byte(src)
	for k := 1 + r.Intn(n); k > 0; k-- {
		if len(b) == 0 {
			b = append(b, byte(r.Intn(256)))
			continue
		}
		i := r.Intn(len(b))
		switch r.Intn(6) {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b = append(b[:i], b[i+1:]...)
		case 2:
			const odd = "\"\\\x00\xff\xc3(){}[]<>=!.,;:+-*/@%_#\n\r\t 019aMmh"
			b = append(b[:i], append([]byte{odd[r.Intn(len(odd))]}, b[i:]...)...)
		case 3:
			b[i] ^= 1 << uint(r.Intn(8))
		case 4:
			b = b[:i]
		case 5:
			j := r.Intn(len(b))
			b[i], b[j] = b[j], b[i]
		}
	}
	return string(b)
}

// soup is a random sequence of tokens.
func soup(r *rand.Rand, n int) string {
	var b strings.Builder
	if r.Intn(3) > 0 {
		b.WriteString("trigger ")
	}
	if r.Intn(3) > 0 {
		b.WriteString("when ")
	}
	for ; n > 0; n-- {
		b.WriteString(word(r))
		if r.Intn(4) > 0 {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

var anyStmt = stmtOpts{vars: 3, operands: 5, clauses: true}

// anyText is a text of any kind: valid, nearly valid, or hostile.
func anyText(r *rand.Rand) string {
	gen := func() string {
		s, _, _ := statement(r, anyStmt, r.Intn(4))
		return s
	}
	switch r.Intn(10) {
	case 0, 1:
		return gen()
	case 2:
		return soup(r, 1+r.Intn(30))
	case 3:
		b := make([]byte, r.Intn(60))
		r.Read(b)
		return string(b)
	case 4:
		return mutateBytes(r, gen(), 4)
	}
	return mutateTokens(r, gen(), 3, gen)
}

// nearMiss is a valid statement after a few token edits.
func nearMiss(r *rand.Rand) string {
	gen := func() string {
		s, _, _ := statement(r, anyStmt, r.Intn(4))
		return s
	}
	return mutateTokens(r, gen(), 2, gen)
}

// evolve runs n mutations of a growing corpus: texts that reach new code, or
// code a new number of times, are mutated further.
func (c *ctx) evolve(r *rand.Rand, n int, check func(src string)) {
	var corpus []string
	for i := 0; i < 20; i++ {
		corpus = append(corpus, anyText(r))
	}
	seen := make([]uint16, len(blockHits()))
	pick := func() string { return corpus[r.Intn(len(corpus))] }
	for i := 0; i < n && !c.stop; i++ {
		src := pick()
		if r.Intn(3) == 0 {
			src = mutateBytes(r, src, 3)
		} else {
			src = mutateTokens(r, src, 3, pick)
		}
		if len(src) > 4000 {
			src = src[:4000]
		}
		h := blockHits()
		for k := range h {
			h[k] = 0
		}
		check(src)
		c.cover()
		fresh := false
		for k, v := range h {
			if v == 0 {
				continue
			}
			b := 0
			for v > 0 && b < 12 {
				v >>= 1
				b++
			}
			if seen[k]&(1<<b) == 0 {
				seen[k] |= 1 << b
				fresh = true
			}
		}
		if fresh {
			corpus = append(corpus, src)
			c.count("corpus growth")
		}
	}
}
