package main

// P01 tokens cover the text, P02 positions, P03 token classes.

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"unicode"

	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/token"
)

var kindOf = map[token.Type]lexKind{
	token.EOF: lkEOF, token.Space: lkSpace, token.Comment: lkComment, token.SpecialSymbol: lkSymbol,
	token.Identifier: lkIdent, token.ReservedWord: lkReserved, token.NumeralInt: lkInt, token.NumeralReal: lkReal,
	token.CharacterString: lkString, token.Illegal: lkUnknown,
}

// tokenize reads all tokens up to and including the first EOF.
func (x *ctx) tokenize(text []rune, flags token.TokeninzerFlag) ([]*token.Token, *token.Tokenizer) {
	tk := token.NewTokenizer(&text, flags)
	var out []*token.Token
	for {
		t := tk.GetNext()
		if t == nil {
			x.fail("the tokenizer returned no token after %d tokens", len(out))
		}
		out = append(out, t)
		if t.Type == token.EOF {
			return out, tk
		}
		if len(out) > len(text)+1 {
			x.fail("more tokens than characters")
		}
	}
}

func tokKey(t *token.Token) string {
	return fmt.Sprintf("%d %d-%d %d:%d-%d:%d", t.Type, t.Start.Index, t.End.Index, t.Start.Line, t.Start.Col, t.End.Line, t.End.Col)
}

// lexText picks the text of a case of the lexical checks.
func (x *ctx) lexText(enumLen int) (string, string, []rune) {
	if x.k < enumCases(enumLen, 0) {
		return "enum", "", nil
	}
	if x.k < enumCases(enumLen, 0)+sweepCases {
		return "sweep", "", nil
	}
	if x.k%100 == 57 {
		return "long tokens", "expr", longTokens(x.r)
	}
	size := 60
	switch x.k % 50 {
	case 0:
		size = 3000
	case 1, 2, 3:
		size = 400
	}
	return rawText(x.r, size)
}

// longTokens draws a text of few tokens around sizes at which a counter or a buffer may end.
func longTokens(r *rand.Rand) []rune {
	var b strings.Builder
	for i := 1 + r.Intn(5); i > 0; i-- {
		n := []int{64, 127, 255, 256, 1000, 1023, 1024, 4095, 4096, 8192, 10000, 16384, 32767, 32768, 65535, 65536}[r.Intn(16)] + r.Intn(5) - 2
		if r.Intn(3) > 0 && n > 20000 {
			n /= 16
		}
		switch r.Intn(9) {
		case 0, 1:
			b.WriteString(rep([]string{"x", "B", "値", "_", "e1"}[r.Intn(5)], n))
		case 2:
			b.WriteString(rep("7", n))
		case 3:
			b.WriteString("1." + rep("5", n))
		case 4:
			b.WriteString("'" + rep([]string{"s", " ", "表", "{"}[r.Intn(4)], n) + "'")
		case 5:
			b.WriteString("{" + rep([]string{"c", "\n", "'", "*"}[r.Intn(4)], n) + "}")
		case 6:
			b.WriteString("(*" + rep([]string{"c", "\r\n", "*", "("}[r.Intn(4)], n) + "*)")
		case 7:
			b.WriteString("//" + rep([]string{"c", "/", "'"}[r.Intn(3)], n) + "\n")
		case 8:
			b.WriteString("a" + rep([]string{" ", "\n", "\t", "\r\n"}[r.Intn(4)], n))
		}
		b.WriteString([]string{" ", ";", "+", "\n", ""}[r.Intn(5)])
	}
	return []rune(b.String())
}

const enumChunk = 2000

// eachText runs f on the texts of the case: a chunk of the enumeration of all
// short texts, or one drawn text.
func (x *ctx) eachText(enumLen int, f func(kind, mode string, text []rune)) {
	kind, mode, text := x.lexText(enumLen)
	if kind == "sweep" {
		x.sweep((x.k-enumCases(enumLen, 0))*sweepChunk, f)
		return
	}
	if kind != "enum" {
		x.only("text", string(text))
		x.sample(fmt.Sprintf("%s: %q", kind, clip(string(text), 600)))
		f(kind, mode, text)
		x.feat(kind)
		return
	}
	e := enumCount(enumLen)
	for i := x.k * enumChunk; i < (x.k+1)*enumChunk && i < e; i++ {
		t := enumText(i)
		x.inputs["text"] = string(t)
		f("enumerated text", "", t)
		x.res.Feats["enumerated text"]++
	}
}

const sweepChunk = 4096
const sweepCases = (unicode.MaxRune + 1) / sweepChunk

// sweep puts every character of a block between, before and after others.
func (x *ctx) sweep(from int, f func(kind, mode string, text []rune)) {
	for c := rune(from); c < rune(from+sweepChunk); c++ {
		if c >= 0xD800 && c < 0xE000 {
			continue
		}
		s := string(c)
		t := "a" + s + "b 1" + s + "2 -" + s + " '" + s + "' {" + s + "} (*" + s + "*) ." + s + "_" + s + s + "/" + s + "\n//" + s + "x\r\n" + s
		x.inputs["text"] = t
		f("enumerated text", "", []rune(t))
		x.res.Feats["every character"]++
	}
}

func enumCases(l, more int) int { return (enumCount(l)+enumChunk-1)/enumChunk + more }

func init() {
	register(&check{id: "P01", quick: enumCases(4, sweepCases+12000), thorough: enumCases(5, sweepCases+400000),
		rule: "texts: every text of up to 4 (thorough 5) characters over a 24-character alphabet of all lexical classes, every Unicode character in 12 surroundings, generated sources in all layouts, their character mutations, token soups, texts of tokens of up to 65,540 characters, rune noise (NUL, BOM, surrogate-free astral, unterminated comments and strings); non-trivial: at least two tokens besides the end",
		need: []string{"long tokens", "soup", "noise", "generated source", "mutated source", "enumerated text", "every character", "resumed clones"},
		run: func(x *ctx) {
			l := 4
			if x.thoroughRun() {
				l = 5
			}
			x.eachText(l, x.checkCover)
		}})
	register(&check{id: "P02", quick: enumCases(4, sweepCases+9000), thorough: enumCases(5, sweepCases+200000),
		rule:   "texts as for P01 plus parses of generated and mutated sources by every entry point; every token and every identifier reachable in the result is compared with an independent count of lines and columns; non-trivial: the text has a line break or a character outside ASCII",
		need:   []string{"long tokens", "soup", "noise", "generated source", "mutated source", "enumerated text", "every character", "identifiers", "identifiers after a line break", "resumed clones"},
		assume: []string{"texts that start with a line feed are left out (known finding)"},
		run: func(x *ctx) {
			l := 4
			if x.thoroughRun() {
				l = 5
			}
			x.eachText(l, x.checkPositions)
			if x.k == 0 {
				x.leadingLF()
			}
		}})
	register(&check{id: "P03", quick: enumCases(4, sweepCases+12000), thorough: enumCases(5, sweepCases+400000),
		rule: "texts as for P01 plus every reserved word in several letter cases alone, with one letter less, more or changed; split and classes compared with an independent reference lexer; non-trivial: at least two different token classes besides the end",
		need: []string{"long tokens", "soup", "noise", "generated source", "mutated source", "enumerated text", "every character", "reserved word", "identifier", "UNKNOWN", "words near reserved words"},
		run: func(x *ctx) {
			l := 4
			if x.thoroughRun() {
				l = 5
			}
			x.eachText(l, x.checkClasses)
			if x.k < 64 {
				x.nearReserved()
			}
		}})
}

func (x *ctx) checkCover(kind, mode string, text []rune) {
	src := string(text)
	all, tk := x.tokenize(text, token.LoadSpace|token.LoadComment)
	at := 0
	var joined strings.Builder
	for i, t := range all {
		if t.Start.Index != at {
			x.fail("token %d (%v) starts at offset %d, the one before it ended at %d", i, t, t.Start.Index, at)
		}
		if t.Type == token.EOF {
			break
		}
		if t.End.Index <= t.Start.Index || t.End.Index > len(text) {
			x.fail("token %d (%v) reaches from %d to %d in a text of %d characters", i, t, t.Start.Index, t.End.Index, len(text))
		}
		if t.Len() != t.End.Index-t.Start.Index {
			x.fail("token %d (%v) tells a wrong length", i, t)
		}
		at = t.End.Index
		joined.WriteString(t.RawString())
	}
	if at != len(text) {
		x.fail("the tokens end at offset %d, the text at %d", at, len(text))
	}
	if joined.String() != src {
		x.fail("the joined tokens are not the text")
	}
	for i := 0; i < 3; i++ {
		if t := tk.GetNext(); t == nil || t.Type != token.EOF {
			x.fail("after the end comes %v", t)
		}
	}
	if string(text) != src {
		x.fail("the text was changed")
	}
	// filtered sequences
	for _, fl := range []token.TokeninzerFlag{0, token.LoadSpace, token.LoadComment} {
		got, _ := x.tokenize(text, fl)
		j := 0
		for _, t := range all {
			if t.Type == token.Space && fl&token.LoadSpace == 0 || t.Type == token.Comment && fl&token.LoadComment == 0 {
				continue
			}
			if j >= len(got) || got[j].Type != t.Type || got[j].Start.Index != t.Start.Index || (t.Type != token.EOF && got[j].End.Index != t.End.Index) {
				x.fail("with flags %d, token %d is not %v", fl, j, t)
			}
			j++
		}
		if j != len(got) {
			x.fail("with flags %d there are %d tokens, not %d", fl, len(got), j)
		}
	}
	x.resume(text, all, func(a, b *token.Token) bool {
		return a.Type == b.Type && a.Start.Index == b.Start.Index && a.End.Index == b.End.Index
	})
	x.count("tokens", len(all))
	x.eval(src, len(all) > 2)
}

// resume: a clone goes ahead, the original continues unaffected; a clone
// continues like the original.
func (x *ctx) resume(text []rune, all []*token.Token, same func(a, b *token.Token) bool) {
	if len(all) < 3 {
		return
	}
	tk := token.NewTokenizer(&text, token.LoadSpace|token.LoadComment)
	for i := range all {
		if len(all) < 40 || x.r.Intn(len(all)) < 10 {
			c := tk.Clone()
			for j := i; j < len(all) && j < i+3; j++ {
				if t := c.GetNext(); t == nil || !same(t, all[j]) {
					x.fail("a cloned tokenizer reads %v instead of %v", t, all[j])
				}
			}
			x.res.Counts["resumed clones"]++
		}
		if t := tk.GetNext(); t == nil || !same(t, all[i]) {
			x.fail("after a clone read ahead the original reads %v instead of %v", t, all[i])
		}
	}
}

func (x *ctx) checkPositions(kind, mode string, text []rune) {
	if len(text) > 0 && text[0] == '\n' {
		return
	}
	src := string(text)
	ln, cl := positions(text)
	all, _ := x.tokenize(text, token.LoadSpace|token.LoadComment)
	chk := func(ts []*token.Token) {
		for _, t := range ts {
			s, e := t.Start, t.End
			if s.Index > len(text) || e.Index > len(text) || s.Index < 0 || e.Index < s.Index {
				x.fail("token %v has offsets %d-%d in a text of %d characters", t, s.Index, e.Index, len(text))
			}
			if s.Line != ln[s.Index] || s.Col != cl[s.Index] {
				x.fail("token %v (offset %d) starts at %d:%d, not at %d:%d", t, s.Index, ln[s.Index], cl[s.Index], s.Line, s.Col)
			}
			if e.Line != ln[e.Index] || e.Col != cl[e.Index] {
				x.fail("token %v (offset %d-%d) ends at %d:%d, not at %d:%d", t, s.Index, e.Index, ln[e.Index], cl[e.Index], e.Line, e.Col)
			}
		}
	}
	chk(all)
	sig, _ := x.tokenize(text, 0)
	chk(sig)
	x.resume(text, all, func(a, b *token.Token) bool { return tokKey(a) == tokKey(b) })
	x.count("tokens", len(all)+len(sig))
	nontriv := strings.ContainsAny(src, "\n") || len(src) != len(text)
	x.eval(src, nontriv)
	if kind == "enumerated text" {
		return
	}
	// identifiers in the results of parsing it
	ref := map[int]tokPos{}
	for _, t := range sigToks(text) {
		ref[t.idx] = t
	}
	modes := []string{mode}
	for _, m := range modes {
		o := parseMode(m, text)
		if o.err != nil || o.node == nil {
			x.count("texts not parsed", 1)
			continue
		}
		x.count("texts parsed", 1)
		eachIdent(o.node, func(id *astcore.Ident) {
			if id.Location == nil || id.Location.Start == nil {
				return // predefined
			}
			if id.Location.Path == "" && id.Location.Start.Index == 0 && id.Location.End == nil {
				return
			}
			s, e := id.Location.Start, id.Location.End
			t, ok := ref[s.Index]
			if !ok || e == nil {
				x.fail("identifier %q is located at offset %d, where no token starts", id.Name, s.Index)
			}
			if t.text != id.Name {
				x.fail("identifier %q is located at offset %d, where %q stands", id.Name, s.Index, t.text)
			}
			if t.line != s.Line || t.col != s.Col || t.eline != e.Line || t.ecol != e.Col || t.end != e.Index {
				x.fail("identifier %q at offset %d is located at %d:%d-%d:%d(%d), not at %d:%d-%d:%d(%d)", id.Name, s.Index,
					s.Line, s.Col, e.Line, e.Col, e.Index, t.line, t.col, t.eline, t.ecol, t.end)
			}
			x.res.Counts["identifiers"]++
			if t.line > 1 {
				x.res.Counts["identifiers after a line break"]++
			}
		})
	}
}

// eachIdent calls f for every identifier reachable from v.
func eachIdent(v interface{}, f func(*astcore.Ident)) {
	seen := map[uintptr]bool{}
	it := reflect.TypeOf(&astcore.Ident{})
	stack := []reflect.Value{reflect.ValueOf(v)}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		switch x.Kind() {
		case reflect.Interface:
			if !x.IsNil() {
				stack = append(stack, x.Elem())
			}
		case reflect.Ptr:
			if x.IsNil() || seen[x.Pointer()] {
				continue
			}
			seen[x.Pointer()] = true
			if x.Type() == it {
				if x.CanInterface() {
					f(x.Interface().(*astcore.Ident))
				}
				continue
			}
			stack = append(stack, x.Elem())
		case reflect.Struct:
			for i := x.NumField() - 1; i >= 0; i-- {
				if x.Type().Field(i).PkgPath == "" {
					stack = append(stack, x.Field(i))
				}
			}
		case reflect.Slice, reflect.Array:
			if k := x.Type().Elem().Kind(); k != reflect.Ptr && k != reflect.Interface && k != reflect.Struct && k != reflect.Slice {
				continue
			}
			for i := x.Len() - 1; i >= 0; i-- {
				stack = append(stack, x.Index(i))
			}
		}
	}
}

func (x *ctx) leadingLF() {
	text := []rune("\na b")
	ln, cl := positions(text)
	all, _ := x.tokenize(text, 0)
	for _, t := range all {
		if t.Start.Line != ln[t.Start.Index] || t.Start.Col != cl[t.Start.Index] {
			x.res.Known["a line feed as the very first character of a text is not counted as a line break"]++
			return
		}
	}
}

func (x *ctx) checkClasses(kind, mode string, text []rune) {
	src := string(text)
	want := refLex(text)
	all, _ := x.tokenize(text, token.LoadSpace|token.LoadComment)
	for i, w := range want {
		if i >= len(all) {
			x.fail("the tokens end before %s %q", lkNames[w.kind], string(text[w.start:w.end]))
		}
		t := all[i]
		k, ok := kindOf[t.Type]
		if !ok || k != w.kind || t.Start.Index != w.start || (w.kind != lkEOF && t.End.Index != w.end) {
			x.fail("token %d is %v (offset %d-%d), not the %s %q (offset %d-%d)", i, t, t.Start.Index, t.End.Index, lkNames[w.kind], string(text[w.start:w.end]), w.start, w.end)
		}
		if w.kind == lkReserved && t.Value() != strings.ToUpper(string(text[w.start:w.end])) {
			x.fail("the value of the reserved word %v is %q", t, t.Value())
		}
	}
	kinds := map[lexKind]bool{}
	for _, w := range want {
		if w.kind != lkEOF {
			kinds[w.kind] = true
			x.res.Feats[lkNames[w.kind]]++
		}
	}
	x.eval(src, len(kinds) > 1)
}

func (x *ctx) nearReserved() {
	var words []string
	for w := range refReserved {
		words = append(words, w)
	}
	sort.Strings(words)
	for _, w := range words {
		rs := []rune(w)
		for _, v := range []string{w, strings.ToUpper(w), recase(w, 3, x.r), w + "s", w + "1", w + "_", "_" + w, w[1:], w[:len(w)-1],
			string(append(append([]rune{}, rs[:len(rs)-1]...), rs[len(rs)-1]+1)), string(rs[0]+1) + w[1:], w + w, w + "é"} {
			for _, tpl := range []string{"%s", "a %s;", "(%s)", "%s.x", "{}%s(**)"} {
				t := fmt.Sprintf(tpl, v)
				x.inputs["text"] = t
				x.checkClasses("words near reserved words", "", []rune(t))
				x.res.Feats["words near reserved words"]++
			}
		}
	}
}
