package main

// Rendering: token list -> text, with spelling and layout chosen at random.

import (
	"math/rand"
	"strings"
	"unicode"
)

type style struct {
	layout int // 0 single spaces, 1 as few spaces as possible, 2 wild, 3 one token per line
	cases  int // 0 as is, 1 upper, 2 lower, 3 random per letter, 4 random per token
	sjis   bool
	noBrk  bool // no line breaks
	eol    int  // line ends: 0 any, 1 CR only, 2 LF only, 3 CR LF only
}

type rendered struct {
	text  []rune
	toks  []tokPos
	texts []string
}

func recase(s string, mode int, r *rand.Rand) string {
	out := s
	switch mode {
	case 1:
		out = strings.ToUpper(s)
	case 2:
		out = strings.ToLower(s)
	case 3:
		rs := []rune(s)
		for i := range rs {
			if r.Intn(2) == 0 {
				rs[i] = unicode.ToUpper(rs[i])
			} else {
				rs[i] = unicode.ToLower(rs[i])
			}
		}
		out = string(rs)
	case 4:
		return recase(s, 1+r.Intn(3), r)
	}
	if strings.ToLower(out) != strings.ToLower(s) {
		return s
	}
	return out
}

func wordish(r rune) bool { return r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) }

// needSep tells whether two token texts must not touch.
func needSep(a, b string) bool {
	x, y := lastRune(a), []rune(b)[0]
	if wordish(x) && wordish(y) {
		return true
	}
	if (unicode.IsDigit(x) || x == '.') && y == '.' {
		return true
	}
	if isNumText(a) && (y == '.' || wordish(y)) {
		return true
	}
	if a == "." && unicode.IsDigit(y) {
		return true
	}
	if x == '-' && unicode.IsDigit(y) {
		return true
	}
	switch string([]rune{x, y}) {
	case ":=", "<=", ">=", "<>", "..", "(.", ".)", "(*", "//", "''", "*)":
		return true
	}
	return false
}

func isNumText(s string) bool {
	r := []rune(s)
	return unicode.IsDigit(r[0]) || (len(r) > 1 && r[0] == '-' && unicode.IsDigit(r[1]))
}

func lastRune(s string) rune { r := []rune(s); return r[len(r)-1] }

var blanks = []string{" ", "  ", "\t", "\n", "\r\n", "\n\n", " \t ", "\u3000", "\r", "\v", "\f", "\u00a0", "\u2003"}
var blanksSJIS = []string{" ", "  ", "\t", "\n", "\r\n", "\n\n", " \t ", "\u3000", "\r"}
var comments = []string{"{}", "{ c }", "{ begin end; }", "{ 'quote }", "{ (* }", "{ // }", "{\n}", "{ l1\r\nl2 }", "{$R+}", "{ (*) }", "(* c *)", "(**)", "(* { *)", "(* ' *)", "(* // *)", "(*\n\n*)", "(* * ) *)", "(***)", "(* ** *)", "// c\n", "//\n", "// { (* ' \r\n", "// end.\n", "{ ソ表 }", "(* 日本語 *)", "// コメント\n", "{ \x1a }", "(* \x00\x01 *)", "// \x7f\f\x1a\n", "{\x00}"}

func (st style) gap(r *rand.Rand, need bool) string {
	switch st.layout {
	case 0:
		return " "
	case 1:
		if need {
			return " "
		}
		return ""
	case 3:
		if st.noBrk {
			return " "
		}
		return st.ends("\n")
	}
	bl := blanks
	if st.sjis {
		bl = blanksSJIS
	}
	s := ""
	for {
		switch r.Intn(8) {
		case 0, 1:
			s += st.ends(bl[r.Intn(len(bl))])
		case 2:
			s += st.ends(comments[r.Intn(len(comments))])
		case 3, 4:
			s += " "
		default:
			if need && s == "" {
				continue
			}
			if st.noBrk && strings.ContainsAny(s, "\n") {
				return " "
			}
			return s
		}
	}
}

// ends gives a piece of a gap the line ends of the style.
func (st style) ends(s string) string {
	switch st.eol {
	case 1:
		if strings.HasPrefix(s, "//") { // only a line feed ends it
			return " "
		}
		return strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\r"), "\n", "\r")
	case 2:
		return strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
	case 3:
		return strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n"), "\n", "\r\n")
	}
	return s
}

// farGap is a gap that takes lines, columns or offsets beyond the usual sizes.
func (st style) farGap(r *rand.Rand) string {
	n := []int{120 + r.Intn(20), 250 + r.Intn(20), 1000 + r.Intn(60), 32760 + r.Intn(20), 65520 + r.Intn(40), 66000 + r.Intn(9000)}[r.Intn(6)]
	k := r.Intn(8)
	if st.noBrk {
		k = r.Intn(2)
	}
	switch k {
	case 0:
		return strings.Repeat(" ", n)
	case 1:
		return "{" + strings.Repeat("x", n) + "}"
	case 2:
		return "{" + strings.Repeat("\n", n) + "}"
	case 3:
		return "(*" + strings.Repeat("a\r\n", n) + "*)"
	case 4:
		return "//" + strings.Repeat("y", n) + "\n"
	case 5:
		return strings.Repeat("// z\n", n)
	case 6:
		return strings.Repeat("\r\n", n)
	}
	return strings.Repeat("\n", n)
}

// renderSpelled chooses spelling and layout from different generators.
func renderSpelled(toks []gtok, sr *rand.Rand, cases int, lr *rand.Rand, st style) *rendered {
	t := make([]gtok, len(toks))
	for i, k := range toks {
		t[i] = k
		if k.kind == 'k' || k.kind == 'd' || k.kind == 'i' {
			t[i].text = recase(k.text, cases, sr)
		}
	}
	st.cases = 0
	return render(t, lr, st)
}

// render fixes the text of a file. Positions of tokens are computed here.
func render(toks []gtok, r *rand.Rand, st style) *rendered {
	out := &rendered{}
	var b []rune
	line, col := 1, 1
	add := func(s string) {
		for _, c := range s {
			b = append(b, c)
			if c == '\n' {
				line++
				col = 1
			} else {
				col++
			}
		}
	}
	prev := ""
	far := -1
	if st.layout == 2 && len(toks) > 0 && r.Intn(150) == 0 {
		far = r.Intn(len(toks))
	}
	for i, t := range toks {
		tx := t.text
		if t.kind == 'k' || t.kind == 'd' || t.kind == 'i' {
			tx = recase(tx, st.cases, r)
		}
		if i == 0 {
			if st.layout == 2 && r.Intn(3) == 0 {
				g := st.gap(r, false)
				if !strings.HasPrefix(g, "\n") {
					add(g)
				}
			}
		} else {
			need := needSep(prev, tx)
			g := st.gap(r, need)
			if i == far {
				g = " " + st.ends(st.farGap(r))
			}
			// a gap must not join its neighbours into something else
			if g != "" && joins(prev, g) || g == "" && need {
				g = " " + g
			}
			if g != "" && joins(g, tx) && !strings.HasSuffix(g, " ") {
				g += " "
			}
			add(g)
		}
		p := tokPos{idx: len(b), line: line, col: col, text: tx}
		add(tx)
		p.end, p.eline, p.ecol = len(b), line, col
		out.toks = append(out.toks, p)
		out.texts = append(out.texts, tx)
		prev = tx
	}
	if st.layout == 2 {
		g := st.gap(r, false)
		if joins(prev, g) {
			g = " " + g
		}
		add(g)
	}
	out.text = b
	return out
}

// joins: the end of a and the start of b would make a comment start or such.
func joins(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	switch string([]rune{lastRune(a), []rune(b)[0]}) {
	case "(*", "//", "(.", ".)", "*)":
		return true
	}
	return false
}

// expand fills the place holders of an expected form. all gives the renderings by tag.
func (g *Gen) expand(f *gfile, exp string, all map[string]*rendered, computed bool) string {
	me := all[f.tag]
	var b strings.Builder
	num := func(i int) (int, int) {
		n := 0
		for ; exp[i] >= '0' && exp[i] <= '9'; i++ {
			n = n*10 + int(exp[i]-'0')
		}
		return n, i
	}
	for i := 0; i < len(exp); i++ {
		switch exp[i] {
		case '\x02':
			n, j := num(i + 1)
			b.WriteString(me.texts[n])
			b.WriteByte('#')
			b.WriteString(itoa(n))
			i = j
		case '\x04':
			n, j := num(i + 1)
			b.WriteString(me.texts[n])
			i = j
		case '\x0b', '\x10':
			k := strings.IndexByte(exp[i:], ':') + i
			tag := exp[i+1 : k]
			n, j := num(k + 1)
			b.WriteString(all[tag].texts[n])
			if exp[i] == '\x0b' {
				b.WriteString("@" + tag + "#" + itoa(n))
			}
			i = j
		case '\x06':
			n, j := num(i + 1)
			d := g.decls[n]
			b.WriteString("^{")
			switch {
			case d.miss:
				b.WriteString("nil")
			case d.emb != "":
				b.WriteString("embedded " + d.emb)
			default:
				b.WriteString(d.tag + "#" + itoa(d.ord) + ":" + d.kind)
			}
			b.WriteByte('}')
			i = j
		case '\x0e':
			if !computed {
				i += strings.IndexByte(exp[i:], '\x0f')
			}
		case '\x0f':
		default:
			b.WriteByte(exp[i])
		}
	}
	return b.String()
}
