package main

// Monitors of the formatter: C10, C11, C12.

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"syscall"

	g "github.com/mmadfox/go-geoql-parser"
)

// format runs the formatter on a statement of a text.
func (c *ctx) format(src string, st g.Statement) (text string, ok bool) {
	var b strings.Builder
	n := len(src)
	ok = c.guard("Format", src, n, func() {
		if err := g.Format(&b, st); err != nil {
			c.fail(src, "Format: %v", err)
			ok = false
		}
	})
	return b.String(), ok
}

// someStatement parses a text that is likely to be accepted.
func (c *ctx) someStatement(r *rand.Rand) (src string, st g.Statement) {
	for try := 0; try < 20; try++ {
		switch r.Intn(3) {
		case 0, 1:
			src, _, _ = statement(r, anyStmt, r.Intn(4))
		default:
			src = nearMiss(r)
		}
		s, err, ok := c.parse(src)
		if ok && err == nil && s != nil {
			return src, s
		}
	}
	return "", nil
}

// literals is a statement whose weight is on unusual values.
func literalText(r *rand.Rand) string {
	x := newGen(r)
	lit := func() {
		if r.Intn(5) == 0 {
			x.emit([]string{"", "+", "-"}[r.Intn(3)] + c04numbers[r.Intn(len(c04numbers))] + c04units[r.Intn(len(c04units))])
			return
		}
		k := scalarKinds[r.Intn(len(scalarKinds))]
		x.scalar(k)
	}
	x.emit("trigger when a in [1,2] and")
	lit()
	x.emit([]string{"==", "..", "+", "in", "-"}[r.Intn(5)])
	lit()
	if r.Intn(3) == 0 {
		x.emit("repeat")
		x.emit(c04numbers[r.Intn(20)])
		x.emit("every")
		x.durationLit(false)
	}
	if r.Intn(3) == 0 {
		x.emit("reset after")
		x.durationLit(false)
	}
	s, _, _ := layout(x.toks, 0, r)
	return s
}

// longText has lists long enough for the formatter to break lines, at every
// place they can occur.
func longText(r *rand.Rand) string {
	x := newGen(r)
	var parts []string
	num := func(n int) string {
		s := make([]string, n)
		for i := range s {
			s[i] = fmt.Sprint(r.Intn(1000))
		}
		return strings.Join(s, ",")
	}
	pts := func(n int) string {
		s := make([]string, n)
		for i := range s {
			s[i] = fmt.Sprintf("[%d.%d,-%d.5]", r.Intn(100), r.Intn(100), r.Intn(100))
		}
		return strings.Join(s, ",")
	}
	ids := func(n int) string {
		s := make([]string, n)
		for i := range s {
			s[i] = fmt.Sprintf("%q", strings.Repeat("d", r.Intn(4))+fmt.Sprint(r.Intn(50)))
		}
		return strings.Join(s, ",")
	}
	one := func() string {
		n := 1 + r.Intn(12)
		switch r.Intn(12) {
		case 0:
			return "[" + num(n) + "]"
		case 1:
			return "line[" + pts(n) + "]" + []string{"", ":5km", ":2.50M"}[r.Intn(3)]
		case 2:
			rings := make([]string, 1+r.Intn(4))
			for i := range rings {
				rings[i] = "[" + pts(1+r.Intn(9)) + "]"
			}
			return "polygon[" + strings.Join(rings, ",") + "]"
		case 3:
			o := make([]string, n)
			for i := range o {
				o[i] = fmt.Sprintf("point[%d,2.5]%s", i, []string{"", ":1km"}[r.Intn(2)])
			}
			return "multipoint[" + strings.Join(o, ",") + "]"
		case 4:
			o := make([]string, 1+r.Intn(6))
			for i := range o {
				o[i] = []string{"point[1,2]:5km", "line[" + pts(2) + "]:5M", "polygon[[" + pts(r.Intn(6)+1) + "]]", "multiline[line[" + pts(3) + "],line[" + pts(1) + "]:1M]", "multipolygon[polygon[[" + pts(4) + "]]]"}[r.Intn(5)]
			}
			return "collection[" + strings.Join(o, ",") + "]"
		case 5:
			return "dev{" + ids(n) + []string{"", ",*"}[r.Intn(2)] + "}:" + []string{"1", "\"p\"", "x", "-5C,10%", "line[" + pts(5) + "]", "dev{" + ids(5) + "}", "[" + num(9) + "]", "(dev{" + ids(4) + "}:1 + 2)"}[r.Intn(8)]
		case 6:
			return "dev{" + ids(n) + "}"
		case 7:
			k := calendarKinds[r.Intn(4)]
			y := newGen(r)
			y.calendar(k, 1)
			s, _, _ := layout(y.toks, 0, r)
			return s
		case 8:
			return "[" + ids(n) + "]"
		case 9:
			return "(" + strings.Repeat("(", r.Intn(5)) + "a in [" + num(n) + "]"
		case 10:
			return "@v" + fmt.Sprint(r.Intn(3))
		}
		s := make([]string, n)
		for i := range s {
			s[i] = fmt.Sprintf("dev%d{%s}", i, ids(r.Intn(4)))
		}
		return "[" + strings.Join(s, ",") + "]"
	}
	close := func(s string) string { return s + strings.Repeat(")", strings.Count(s, "(")-strings.Count(s, ")")) }
	_ = x
	text := "trigger "
	if k := r.Intn(4); k > 0 {
		text += "set "
		for i := 0; i < k; i++ {
			v := close(one())
			for strings.HasPrefix(v, "@") {
				v = close(one())
			}
			text += fmt.Sprintf("v%d = %s; ", i, v)
		}
	}
	for k := 1 + r.Intn(5); k > 0; k-- {
		parts = append(parts, close(one()))
	}
	text += "when " + strings.Join(parts, " "+binOps[r.Intn(len(binOps))]+" ")
	if r.Intn(3) == 0 {
		text += " repeat 3 every 10m"
	}
	if r.Intn(3) == 0 {
		text += " reset after 1h"
	}
	return text
}

// formattable calls f with statements of all sorts.
func (c *ctx) formattable(r *rand.Rand, i int, f func(src string, st g.Statement)) {
	var src string
	var st g.Statement
	switch i % 4 {
	case 0, 1:
		src, st = c.someStatement(r)
	case 2:
		src = literalText(r)
		if s, err, ok := c.parse(src); ok && err == nil {
			st = s
		}
	case 3:
		src = longText(r)
		if s, err, ok := c.parse(src); ok && err == nil {
			st = s
		}
	}
	if st == nil {
		c.count("no statement")
		return
	}
	c.eval()
	f(src, st)
}

func (c *ctx) roundTrip(src string, st g.Statement) {
	have := convStmt(st)
	text, ok := c.format(src, st)
	if !ok {
		return
	}
	st2, err, ok := c.parse(text)
	if !ok {
		return
	}
	if err != nil {
		c.fail(src, "the formatted text is rejected (%s): %q", errText(err), clip(text))
		return
	}
	if d := diffTree(convStmt(st2), have, false); d != "" {
		c.fail(src, "the formatted text means something else: %s; text %q", d, clip(text))
		return
	}
	c.count("round trips")
	c.kinds(have)
	c.nontrivial(have.String())
	c.sample(src)
}

func init() {
	need := []string{"round trips"}
	for _, k := range []string{"int", "float", "percent", "speed", "distance", "temperature", "pressure", "duration", "string", "bool", "date", "time", "weekday", "month",
		"selector", "ref", "assign", "paren", "wildcard", "range", "point", "line", "polygon", "multi", "collection", "count", "interval", "reset"} {
		need = append(need, "node "+k)
	}
	each10 := func(c *ctx, src string) {
		if st, err, ok := c.parse(src); ok && err == nil && st != nil {
			c.eval()
			c.roundTrip(src, st)
		}
	}
	register(&property{id: "C10", need: need,
		rule: "statements parsed from generated texts in all layouts, from accepted edits of them, with unusual values and with long lists, and from coverage-guided evolution; formatted and parsed again; non-trivial: distinct statements",
		parts: []part{
			{"statements", 400_000, 8_000_000, func(c *ctx, r *rand.Rand, i int) { c.formattable(r, i, c.roundTrip) }},
			{"expected", 60_000, 1_000_000, func(c *ctx, r *rand.Rand, i int) {
				// against what the generator meant, so that a parser that loses
				// the same thing twice does not hide it
				src, want, _ := statement(r, anyStmt, i%4)
				st, err, ok := c.parse(src)
				if !ok || err != nil {
					c.count("rejected")
					return
				}
				c.eval()
				text, ok := c.format(src, st)
				if !ok {
					return
				}
				ref := refParse(text)
				if ref.tree == nil {
					c.fail(src, "the formatted text is not well-formed at %s: %q", describe(ref), clip(text))
					return
				}
				have := convStmt(st)
				if !equalTree(have, want) {
					c.count("parse differs") // C02 to C08 decide that
					want = have
				}
				if d := diffTree(ref.tree, want, false); d != "" {
					c.fail(src, "the formatted text says something else: %s; text %q", d, clip(text))
				}
			}},
			{"products of values", len(c04numbers) * len(c04units) * 3, len(c04numbers) * len(c04units) * 3, func(c *ctx, r *rand.Rand, i int) {
				lit := c04signs[i%3] + c04numbers[i/3%len(c04numbers)] + c04units[i/3/len(c04numbers)]
				for _, k := range pickN(r, 19, 5) {
					src := strings.ReplaceAll(strings.ReplaceAll(c04contexts[k], "%[1]s", lit), "%s", lit)
					if st, err, ok := c.parse(src); ok && err == nil {
						c.eval()
						c.roundTrip(src, st)
					}
				}
			}},
			{"evolved", 16, 200, func(c *ctx, r *rand.Rand, i int) {
				c.evolve(r, 10000, func(src string) {
					if st, err, ok := c.parse(src); ok && err == nil && st != nil {
						c.eval()
						c.roundTrip(src, st)
					}
				})
			}},
			nestPart(20_000, 400_000, each10),
			wordPart(each10),
			hugePart(90, 900, nil, each10),
			sizedPart(6000, 100000, 5000, nil, each10),
		}})
}

// ---- C11

func treeDepth(n *node) (depth, count int) {
	for _, k := range n.kids {
		d, m := treeDepth(k)
		depth = max(depth, d)
		count += m
	}
	return depth + 1, count + 1
}

func (c *ctx) stable(src string, st g.Statement) {
	before := convStmt(st).spans()
	a, ok := c.format(src, st)
	if !ok {
		return
	}
	for k := 0; k < 3; k++ {
		b, ok := c.format(src, st)
		if !ok {
			return
		}
		if a != b {
			c.fail(src, "formatting twice gives %q and %q", clip(a), clip(b))
			return
		}
	}
	if after := convStmt(st).spans(); after != before {
		c.fail(src, "formatting changed the statement from %s to %s", clip(before), clip(after))
		return
	}
	if st2, err, ok := c.parse(src); ok && err == nil {
		if b, ok := c.format(src, st2); ok && a != b {
			c.fail(src, "equal statements are formatted as %q and %q", clip(a), clip(b))
			return
		}
	}
	if st3, err, ok := c.parse(a); ok && err == nil {
		b, ok := c.format(src, st3)
		if ok && a != b {
			c.fail(src, "formatting the formatted text changes it from %q to %q", clip(a), clip(b))
			return
		}
		c.count("reformatted")
	}
	n := convStmt(st)
	d, m := treeDepth(n)
	c.max("formatted bytes per byte", len(a)/(len(src)+10))
	if lim := 256 + 16*len(src) + 8*m*(d+4); len(a) > lim {
		c.fail(src, "%d bytes of formatted text for %d bytes with %d nodes of depth %d", len(a), len(src), m, d)
	}
	c.digest(a)
	c.max("device ids", strings.Count(a, "\""))
	if strings.Contains(before, "{") || len(a) > 100 {
		c.nontrivial(a)
	}
	c.sample(src)
}

// someIDs gives device ids of one of several families: of different lengths,
// differing only in letter case, with common beginnings or ends, with equal
// hashes of the common weak sort.
func someIDs(r *rand.Rand) func() string {
	kind := r.Intn(6)
	stem := strings.Repeat([]string{"x", "device-", "é", "A b"}[r.Intn(4)], r.Intn(12))
	return func() string {
		switch kind {
		case 0:
			return strings.Repeat("x", r.Intn(3)) + fmt.Sprint(r.Intn(40))
		case 1: // letter case
			b := []byte("device"[:2+r.Intn(3)])
			for i := range b {
				b[i] -= byte(r.Intn(2)) * 32
			}
			return string(b)
		case 2:
			return stem + fmt.Sprint(r.Intn(60))
		case 3:
			return fmt.Sprint(r.Intn(60)) + stem
		case 4: // the same letters in another order
			b := []byte("abcd1")
			r.Shuffle(len(b), func(i, j int) { b[i], b[j] = b[j], b[i] })
			return string(b)
		}
		return []string{"", " ", "  ", "0", "00", "000", "01", "1", "10", "2", "é", "e\u0301", "É", "ſ", "s", "S", "K", "K", "k", "-1", "+1", "1.0", "a,b", "a", "b", "*", "{", "İ", "i", "I", "ı", "ß", "SS", "ss"}[r.Intn(34)]
	}
}

func init() {
	each11 := func(c *ctx, src string) {
		if st, err, ok := c.parse(src); ok && err == nil && st != nil {
			c.eval()
			c.stable(src, st)
		}
	}
	register(&property{id: "C11", twice: true, need: []string{"reformatted"},
		rule: "statements of all sorts, formatted four times and once more from a second parse and from the formatted text, in two processes each; non-trivial: distinct formatted texts of more than 100 bytes or with a selector",
		parts: []part{
			{"statements", 150_000, 3_000_000, func(c *ctx, r *rand.Rand, i int) { c.formattable(r, i, c.stable) }},
			{"many device ids", 20_000, 300_000, func(c *ctx, r *rand.Rand, i int) {
				var b strings.Builder
				fmt.Fprintf(&b, "when dev{")
				id := someIDs(r)
				for k := 2 + r.Intn(30); k > 0; k-- {
					fmt.Fprintf(&b, "\"%s\"%s", id(), []string{",", ""}[r.Intn(2)])
				}
				b.WriteString("}")
				if r.Intn(2) == 0 {
					b.WriteString(":5km,\"z\" == other{\"q\",\"r\",\"s\"}")
				}
				if st, err, ok := c.parse(b.String()); ok && err == nil {
					c.eval()
					c.stable(b.String(), st)
				}
			}},
			{"nesting", 900, 900, func(c *ctx, r *rand.Rand, i int) {
				src := "when " + strings.Repeat("(", i+1) + "a" + strings.Repeat(")", i+1)
				if i%2 == 1 {
					src = "trigger set v = " + src[5:] + "; when " + strings.Repeat("(b and ", i/2) + "c:(1 + [1,2])" + strings.Repeat(")", i/2)
				}
				if st, err, ok := c.parse(src); ok && err == nil {
					c.eval()
					c.stable(src, st)
					c.count("nested")
				}
			}},
			{"same set of ids", 20_000, 300_000, func(c *ctx, r *rand.Rand, i int) {
				// ids in another order, or repeated, are the same statement
				ids := make([]string, 2+r.Intn(8))
				id := someIDs(r)
				for k := range ids {
					ids[k] = "\"" + id() + "\""
				}
				form := []string{"when dev{%s}:1", "trigger set v = dev{%s}; when @v", "when a and (dev{%s,*} or b)", "when dev{%s} in [1,2]"}[r.Intn(4)]
				text := func(l []string) string { return fmt.Sprintf(form, strings.Join(l, ",")) }
				a := text(ids)
				p := r.Perm(len(ids))
				q := make([]string, len(ids))
				for k := range q {
					q[k] = ids[p[k]]
				}
				q = append(q, q[0])
				b := text(q)
				s1, e1, ok1 := c.parse(a)
				s2, e2, ok2 := c.parse(b)
				if !ok1 || !ok2 || e1 != nil || e2 != nil {
					return
				}
				c.eval()
				t1, _ := c.format(a, s1)
				t2, _ := c.format(b, s2)
				if t1 != t2 {
					c.fail(b, "the same device ids are formatted as %q and %q", clip(t1), clip(t2))
				}
				c.nontrivial(t1)
			}},
			everyPart(func(c *ctx, src string) {
				if st, err, ok := c.parse(src); ok && err == nil && st != nil {
					t, _ := c.format(src, st)
					c.digest(t)
					c.eval()
				}
			}),
			nestPart(15_000, 400_000, each11),
			wordPart(each11),
			hugePart(90, 900, nil, each11),
			sizedPart(3000, 60000, 3000, nil, each11),
		}})
}

// ---- C12

type faultErr struct{ n int }

func (e *faultErr) Error() string { return fmt.Sprintf("write fault %d", e.n) }

// faultWriter fails at write number at, once or from then on.
type faultWriter struct {
	at     int
	once   bool
	short  bool
	err    error
	writes []string
	failed int
}

func (w *faultWriter) WriteString(s string) (int, error) {
	k := len(w.writes)
	w.writes = append(w.writes, s)
	if w.at >= 0 && (k == w.at || k > w.at && !w.once) {
		w.failed++
		n := 0
		if w.short {
			n = len(s) / 2
		}
		return n, w.err
	}
	return len(s), nil
}

// Errors a destination may fail with; none of them is special to Format.

type manyErr struct{ l []string } // cannot be compared

func (e manyErr) Error() string { return strings.Join(e.l, " ") }

type quietErr struct{} // used as a nil pointer

func (e *quietErr) Error() string { return "" }

type passingErr struct{ n int }

func (e passingErr) Error() string   { return "try again" }
func (e passingErr) Timeout() bool   { return true }
func (e passingErr) Temporary() bool { return true }

type runErr struct{ n int }

func (e *runErr) Error() string { return "runtime error: write" }
func (e *runErr) RuntimeError() {}

type stringErr string

func (e stringErr) Error() string { return string(e) }

var writeErrs = []error{io.EOF, io.ErrShortWrite, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, bufio.ErrBufferFull, bufio.ErrTooLong,
	os.ErrDeadlineExceeded, os.ErrClosed, os.ErrExist, os.ErrNotExist, os.ErrPermission, context.Canceled, context.DeadlineExceeded,
	syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, syscall.ENOSPC, syscall.Errno(0), errors.ErrUnsupported, strconv.ErrRange,
	&os.PathError{Op: "write", Path: "x", Err: syscall.EAGAIN}, os.NewSyscallError("write", syscall.EINTR), errors.New(""), stringErr(""),
	fmt.Errorf("wrapped: %w", io.EOF), errors.Join(io.EOF, io.ErrShortWrite), &g.Error{Msg: "trigger", Err: io.EOF},
	manyErr{[]string{"a", "b"}}, (*quietErr)(nil), passingErr{1}, &runErr{2}, tooLong{}, &runtime.TypeAssertionError{}}

func someWriteErr(r *rand.Rand, k int) error {
	if r.Intn(4) == 0 {
		return &faultErr{k}
	}
	return writeErrs[r.Intn(len(writeErrs))]
}

// sameValue tells whether a and b are the very same error.
func sameValue(a, b error) bool {
	x, is := a.(manyErr)
	y, is2 := b.(manyErr)
	if is || is2 {
		return is && is2 && len(x.l) > 0 && len(y.l) > 0 && &x.l[0] == &y.l[0]
	}
	return a == b
}

var errRich = errors.New("not asked for")

// richWriter has every method a destination usually has; whatever is written
// by any of them counts as a write.
type richWriter struct{ faultWriter }

func (w *richWriter) Write(p []byte) (int, error)   { return w.WriteString(string(p)) }
func (w *richWriter) WriteByte(b byte) error        { _, err := w.WriteString(string([]byte{b})); return err }
func (w *richWriter) WriteRune(r rune) (int, error) { return w.WriteString(string(r)) }
func (w *richWriter) Flush() error                  { w.writes = append(w.writes, "flushed"); return errRich }
func (w *richWriter) Sync() error                   { w.writes = append(w.writes, "synced"); return errRich }
func (w *richWriter) Close() error                  { w.writes = append(w.writes, "closed"); return errRich }
func (w *richWriter) Reset()                        { w.writes = append(w.writes, "reset") }
func (w *richWriter) Truncate(int)                  { w.writes = append(w.writes, "truncated") }
func (w *richWriter) Grow(int)                      {}
func (w *richWriter) Len() int                      { return len(strings.Join(w.writes, "")) }
func (w *richWriter) Cap() int                      { return 1 << 20 }
func (w *richWriter) Available() int                { return 1 << 20 }
func (w *richWriter) String() string                { return strings.Join(w.writes, "") }
func (w *richWriter) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := w.WriteString(string(b))
	return int64(n), err
}

// failAfter is an io.Writer that takes some bytes and then fails.
type failAfter struct {
	room   int
	err    error
	failed int
	got    []byte
}

func (w *failAfter) Write(p []byte) (int, error) {
	if len(p) > w.room {
		n := w.room
		w.got = append(w.got, p[:n]...)
		w.room, w.failed = 0, w.failed+1
		return n, w.err
	}
	w.room -= len(p)
	w.got = append(w.got, p...)
	return len(p), nil
}

// destinations formats to destinations of other types.
func (c *ctx) destinations(r *rand.Rand, src string, st g.Statement, text string) {
	const before = "kept "
	run := func(what string, f func()) bool { return c.guard("Format to a "+what, src, len(src), f) }
	var err error
	tell := func(what, got, want string) bool {
		c.count("destinations " + what)
		if err != nil {
			c.fail(src, "Format to a %s, which does not fail, gives %v", what, err)
		} else if got != want {
			c.fail(src, "Format to a %s gives %q instead of %q", what, clip(got), clip(want))
		} else {
			return true
		}
		return false
	}
	switch r.Intn(6) {
	case 0:
		var b bytes.Buffer
		b.WriteString(before)
		_ = run("bytes.Buffer", func() { err = g.Format(&b, st) }) && tell("bytes.Buffer", b.String(), before+text)
	case 1:
		var b strings.Builder
		b.WriteString(before)
		_ = run("strings.Builder", func() { err = g.Format(&b, st) }) && tell("strings.Builder", b.String(), before+text)
	case 2, 3:
		// a buffer in front of a writer that fails somewhere
		room := r.Intn(len(text) + 2)
		w := failAfter{room: room, err: someWriteErr(r, room)}
		b := bufio.NewWriterSize(&w, 16+r.Intn(64))
		if !run("bufio.Writer", func() { err = g.Format(b, st) }) {
			return
		}
		c.count("destinations bufio.Writer")
		switch {
		case w.failed > 0 && (err == nil || !sameValue(err, w.err)):
			c.fail(src, "Format to a bufio.Writer whose writer fails with %v after %d bytes returns %v", w.err, room, err)
		case w.failed == 0 && err != nil:
			c.fail(src, "Format to a bufio.Writer that has not failed returns %v", err)
		case w.failed > 1:
			c.fail(src, "%d writes behind a bufio.Writer failed", w.failed)
		case err == nil:
			if e := b.Flush(); e == nil && string(w.got) != text {
				c.fail(src, "Format to a bufio.Writer gives %q instead of %q", clip(string(w.got)), clip(text))
			}
		}
	case 4:
		w := richWriter{faultWriter{at: -1}}
		_ = run("writer with many methods", func() { err = g.Format(&w, st) }) && tell("writer with many methods", strings.Join(w.writes, ""), text)
		n := len(w.writes)
		k := r.Intn(n)
		v := richWriter{faultWriter{at: k, err: someWriteErr(r, k), once: r.Intn(2) == 0}}
		if !run("failing writer with many methods", func() { err = g.Format(&v, st) }) {
			return
		}
		if err == nil || !sameValue(err, v.err) || len(v.writes) != k+1 {
			c.fail(src, "write %d of %d to a writer with many methods failed with %v, Format made %d more writes and returned %v", k, n, v.err, len(v.writes)-k-1, err)
		}
	case 5:
		f, e := os.CreateTemp("", "geoql-c12-")
		must(e)
		defer f.Close()
		must(os.Remove(f.Name()))
		if !run("file", func() { err = g.Format(f, st) }) {
			return
		}
		got := make([]byte, len(text)+10)
		n, _ := f.ReadAt(got, 0)
		if !tell("file", string(got[:n]), text) {
			return
		}
		f.Close()
		if run("closed file", func() { err = g.Format(f, st) }) && !errors.Is(err, os.ErrClosed) {
			c.fail(src, "Format to a closed file returns %v", err)
		}
	}
}

func (c *ctx) faults(r *rand.Rand, src string, st g.Statement) {
	var whole faultWriter
	whole.at = -1
	var err error
	if !c.guard("Format", src, len(src), func() { err = g.Format(&whole, st) }) {
		return
	}
	if err != nil {
		c.fail(src, "Format fails although every write succeeds: %v", err)
		return
	}
	text := strings.Join(whole.writes, "")
	if ref, ok := c.format(src, st); ok && ref != text {
		c.fail(src, "two writers got different texts %q and %q", clip(ref), clip(text))
		return
	}
	n := len(whole.writes)
	if n == 0 {
		c.fail(src, "Format writes nothing")
		return
	}
	c.max("writes", n)
	at := pickN(r, n, 40)
	if c.thorough() {
		at = pickN(r, n, 400)
	}
	for _, k := range at {
		for mode := 0; mode < 2; mode++ {
			w := faultWriter{at: k, once: mode == 0, short: r.Intn(2) == 0, err: someWriteErr(r, k)}
			var err error
			if !c.guard(fmt.Sprintf("Format with a failing write %d", k), src, len(src), func() { err = g.Format(&w, st) }) {
				return
			}
			c.eval()
			c.count("faults injected")
			switch {
			case err == nil || !sameValue(err, w.err):
				c.fail(src, "write %d of %d (%q) failed with %T %v, Format returned %T %v", k, n, clip(whole.writes[k]), w.err, w.err, err, err)
				return
			case len(w.writes) != k+1:
				c.fail(src, "%d more writes after the failing write %d of %d (%q)", len(w.writes)-k-1, k, n, clip(whole.writes[k]))
				return
			}
			for j, s := range w.writes {
				if s != whole.writes[j] {
					c.fail(src, "write %d differs when write %d fails: %q and %q", j, k, clip(s), clip(whole.writes[j]))
					return
				}
			}
			// what stands around the failing write tells the call site
			ctx := whole.writes[k]
			if k > 0 {
				ctx = clip(whole.writes[k-1]) + "|" + clip(ctx)
			}
			c.nontrivial(ctx)
		}
	}
	if r.Intn(4) == 0 {
		// the same destination and statement once the fault is over
		k := r.Intn(n)
		w := faultWriter{at: k, once: true, err: someWriteErr(r, k)}
		if !c.guard("Format with a passing fault", src, len(src), func() { g.Format(&w, st); w.writes = nil; w.at = -1; err = g.Format(&w, st) }) {
			return
		}
		if got := strings.Join(w.writes, ""); err != nil || got != text {
			c.fail(src, "after a failure at write %d the same destination gets %q and %v instead of %q", k, clip(got), err, clip(text))
			return
		}
		c.count("formatted after a fault")
	}
	c.destinations(r, src, st, text)
	c.kinds(convStmt(st))
	c.sample(fmt.Sprintf("%d writes: %s", n, src))
}

func init() {
	each12 := func(c *ctx, src string) {
		if st, err, ok := c.parse(src); ok && err == nil && st != nil {
			c.eval()
			c.faults(newRand(hash64(src)), src, st)
		}
	}
	register(&property{id: "C12", level: "fault_enumeration", need: []string{"faults injected", "formatted after a fault", "destinations bufio.Writer", "destinations file", "destinations bytes.Buffer", "destinations strings.Builder", "destinations writer with many methods", "node bool", "node selector", "node collection", "node reset", "node interval"},
		rule: "every write index (up to 40 per statement, 400 thorough) of the formatter failing once or persistently, with partial and empty writes and errors of 35 kinds, and writes to files, buffers and writers with other methods, failing and not; non-trivial: distinct pairs of failing write and the one before it",
		parts: []part{
			{"statements", 100_000, 600_000, func(c *ctx, r *rand.Rand, i int) {
				c.formattable(r, i, func(src string, st g.Statement) { c.faults(r, src, st) })
			}},
			{"long", 2000, 30_000, func(c *ctx, r *rand.Rand, i int) {
				src := longText(r)
				if st, err, ok := c.parse(src); ok && err == nil && st != nil {
					c.faults(r, src, st)
				}
			}},
			{"every kind", 600, 6000, func(c *ctx, r *rand.Rand, i int) {
				src := "trigger set b = true; d = [1,2]; when " + []string{"true", "up", "a == false", "(down)", "[1,2]", "a{\"x\",\"y\"}:true,false", "point[1,2]:5km", "1 .. 2", "time[10:30am]", "weekday[mon,tue]", "collection[point[1,2],line[[1,2],[3,4],[5,6],[7,8]]:1M]", "polygon[[[1,2],[3,4],[5,6],[1,2]],[[1,2],[2,3],[1,2]]]", "*", "@b", "-5C", "10%", "1h", "date[2022-01-01 .. 2023-01-01]", "month[jan]", "\"s\""}[i%20] + " repeat 5 every 10m reset after 1h"
				if st, err, ok := c.parse(src); ok && err == nil {
					c.faults(r, src, st)
				}
			}},
			nestPart(2_000, 40_000, each12),
			wordPart(each12),
			sizedPart(2500, 30000, 2000, nil, each12),
			{"long tokens", 300, 4000, func(c *ctx, r *rand.Rand, i int) {
				kind := []string{"string", "id", "name", "ref name", "var name", "digits", "fraction"}[i%7]
				n := 1000 << uint(r.Intn(8))
				n += r.Intn(n)
				if i%7 >= 5 {
					n = min(n, 5000)
				}
				c.max("token size", n)
				src := sizedText(r, kind, n)
				if i%2 == 0 && i%7 < 2 { // a run of one character
					src = strings.Replace(src, "\"", "\""+strings.Repeat([]string{"a", " ", "é"}[r.Intn(3)], n), 1)
				}
				each12(c, src)
			}},
		}})
}
