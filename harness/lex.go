package main

// The reference lexer: an independent description of the token language,
// written from the documentation and used as oracle (C15) and as front end of
// the reference parser.

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

type rawKind uint8

const (
	rawEOF rawKind = iota
	rawIdent
	rawInt
	rawFloat
	rawString
	rawChar
	rawIllegal // character literal or raw string
)

type rawTok struct {
	k    rawKind
	text string
	off  int
	bad  bool // a lexical error lies inside
	gap  bool // a lexical error lies in a comment in front
}

// tok is a token of the language.
type tok struct {
	k   string // kind, see kindOf
	lit string // lower-cased text
	raw string // source text
	off int    // first byte
	end int    // last byte
	bad bool
	gap bool
}

func isIdentStart(r rune) bool { return r == '_' || unicode.IsLetter(r) }
func isIdentPart(r rune) bool  { return isIdentStart(r) || unicode.IsDigit(r) }
func isDec(b byte) bool        { return b >= '0' && b <= '9' }

func octal(b byte) bool { return b >= '0' && b <= '7' }
func hexa(b byte) bool {
	return isDec(b) || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F'
}

// quoted reads the string or character literal at src[i]; it returns where it
// ends, the number of characters in it and the number of errors.
func quoted(src string, i int) (end, runes, errs int) {
	q := src[i]
	i++
	for {
		if i >= len(src) {
			return i, runes, errs + 1
		}
		c := src[i]
		if c == '\n' {
			return i + 1, runes, errs + 1 // the scanner swallows the line end
		}
		if c == q {
			return i + 1, runes, errs
		}
		runes++
		if c != '\\' {
			_, w := utf8.DecodeRuneInString(src[i:])
			i += w
			continue
		}
		i++
		if i >= len(src) {
			errs++ // the escape; the literal is an error as well
			continue
		}
		need, digits := 0, hexa
		switch e := src[i]; {
		case strings.IndexByte("abfnrtv\\", e) >= 0 || e == q:
			i++
			continue
		case octal(e):
			need, digits = 3, octal
		case e == 'x':
			need, i = 2, i+1
		case e == 'u':
			need, i = 4, i+1
		case e == 'U':
			need, i = 8, i+1
		default:
			errs++
			continue
		}
		for need > 0 && i < len(src) && digits(src[i]) {
			need--
			i++
		}
		if need > 0 {
			errs++
		}
	}
}

// rawLex splits src; errs is the number of lexical errors in it.
func rawLex(src string) (toks []rawTok, errs int) {
	i := 0
	if strings.HasPrefix(src, "\uFEFF") {
		i = 3
	}
	// characters that are errors wherever they stand
	for j := i; j < len(src); {
		r, w := utf8.DecodeRuneInString(src[j:])
		if r == 0 || r == utf8.RuneError && w == 1 {
			errs++
		}
		j += w
	}
	hasBad := func(s string) bool {
		for j := 0; j < len(s); {
			r, w := utf8.DecodeRuneInString(s[j:])
			if r == 0 || r == utf8.RuneError && w == 1 {
				return true
			}
			j += w
		}
		return false
	}
	gap, gapAt := false, 0
	for {
		if k := len(toks) - 1; k >= 0 && gap && toks[k].off > gapAt {
			toks[k].gap, gap = true, false
		}
		for i < len(src) && (src[i] == ' ' || src[i] == '\t' || src[i] == '\n' || src[i] == '\r') {
			i++
		}
		if strings.HasPrefix(src[i:], "//") {
			e := strings.IndexByte(src[i:], '\n')
			if e < 0 {
				e = len(src) - i
			}
			if hasBad(src[i : i+e]) {
				gap, gapAt = true, i
			}
			i += e
			continue
		}
		if strings.HasPrefix(src[i:], "/*") {
			e := strings.Index(src[i+2:], "*/")
			if e < 0 {
				errs++
				i = len(src)
				toks = append(toks, rawTok{k: rawEOF, off: i, bad: true, gap: true})
				return
			}
			if hasBad(src[i : i+e+4]) {
				gap, gapAt = true, i
			}
			i += e + 4
			continue
		}
		if i >= len(src) {
			toks = append(toks, rawTok{k: rawEOF, off: len(src), gap: gap})
			return
		}
		start := i
		r, w := utf8.DecodeRuneInString(src[i:])
		switch {
		case isIdentStart(r) && !(r == utf8.RuneError && w == 1):
			i += w
			for i < len(src) {
				r, w = utf8.DecodeRuneInString(src[i:])
				if !isIdentPart(r) {
					break
				}
				i += w
			}
			toks = append(toks, rawTok{k: rawIdent, text: src[start:i], off: start})
		case isDec(src[i]):
			k := rawInt
			for i < len(src) && (isDec(src[i]) || src[i] == '_') {
				i++
			}
			if i < len(src) && src[i] == '.' {
				k = rawFloat
				i++
				for i < len(src) && (isDec(src[i]) || src[i] == '_') {
					i++
				}
			}
			toks = append(toks, rawTok{k: k, text: src[start:i], off: start})
		case src[i] == '"', src[i] == '\'':
			q := src[i]
			var n, runes int
			i, runes, n = quoted(src, i)
			k := rawString
			if q == '\'' {
				k = rawIllegal
				if runes != 1 {
					n++
				}
			}
			errs += n
			text := src[start:i]
			toks = append(toks, rawTok{k: k, text: text, off: start, bad: n > 0 || hasBad(text)})
		case src[i] == '`':
			n := 0
			if e := strings.IndexByte(src[i+1:], '`'); e >= 0 {
				i += e + 2
			} else {
				i, n = len(src), 1
			}
			errs += n
			text := src[start:i]
			toks = append(toks, rawTok{k: rawIllegal, text: text, off: start, bad: n > 0 || hasBad(text)})
		default:
			i += w
			toks = append(toks, rawTok{k: rawChar, text: src[start:i], off: start, bad: hasBad(src[start:i])})
		}
	}
}

var wordKinds = map[string]string{
	"trigger": "trigger", "set": "set", "when": "when", "repeat": "repeat", "reset": "reset",
	"rem": "rem", "mod": "rem", "or": "or", "and": "and", "eq": "eq", "in": "in",
	"nearby": "nearby", "intersects": "intersects", "range": "..",
	"time": "time", "date": "date", "weekday": "weekday", "month": "month",
	"point": "point", "line": "line", "polygon": "polygon",
	"multipoint": "multipoint", "multiline": "multiline", "multipolygon": "multipolygon",
	"collection": "collection",
	"true":       "bool", "false": "bool", "up": "bool", "down": "bool",
}

var negated = map[string]bool{"eq": true, "in": true, "nearby": true, "intersects": true}

// lex returns the tokens of src, the last one being EOF.
func lex(src string) (toks []tok, errs int) {
	raws, errs := rawLex(src)
	for i := 0; i < len(raws); i++ {
		r := raws[i]
		t := tok{raw: r.text, lit: strings.ToLower(r.text), off: r.off, end: r.off + len(r.text) - 1, bad: r.bad, gap: r.gap}
		join := func(k string) {
			n := raws[i+1]
			t.k, t.end = k, n.off+len(n.text)-1
			t.raw, t.bad = src[t.off:t.end+1], t.bad || n.bad || n.gap
			i++
		}
		nextIs := func(c string) bool { return raws[i+1].k == rawChar && raws[i+1].text == c }
		switch r.k {
		case rawEOF:
			t.k = "EOF"
		case rawInt:
			t.k = "INT"
		case rawFloat:
			t.k = "FLOAT"
		case rawString:
			t.k = "STRING"
		case rawIllegal:
			t.k = "ILLEGAL"
		case rawIdent:
			switch {
			case t.lit == "not":
				n := strings.ToLower(raws[i+1].text)
				if raws[i+1].k == rawIdent && negated[n] {
					join("not " + n)
					t.lit = t.k
				} else {
					t.k = "ILLEGAL"
				}
			case wordKinds[t.lit] != "":
				t.k = wordKinds[t.lit]
			default:
				t.k = "SELECTOR"
			}
		case rawChar:
			switch r.text {
			case "@", ";", ",", "(", ")", "[", "]", "{", "}", "/", "+", "-", "*", ":":
				t.k = r.text
			case ".", "=", "!", "<", ">":
				switch {
				case r.text == "." && nextIs("."):
					join("..")
					t.lit = t.k
				case r.text != "." && nextIs("="):
					join(r.text + "=")
					t.lit = t.k
				case r.text == "!":
					t.k = "ILLEGAL"
				default:
					t.k = r.text
				}
			default:
				t.k = "ILLEGAL"
			}
		}
		toks = append(toks, t)
	}
	return
}
