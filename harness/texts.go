package main

// Workloads of raw texts: generated sources, their mutations, token soups,
// noise, enumerated short texts.

import (
	"math/rand"
	"strings"
)

var soupWords = strings.Fields(`and array as asm begin case class const constructor destructor dispinterface div do downto else end
except exports file finalization finally for function goto if implementation in inherited initialization inline interface is label
library mod nil not object of or out packed procedure program property raise record repeat resourcestring set shl shr string then
threadvar to try type unit until uses var while with xor
forward external name index read write stored default nodefault implements private protected public published virtual
override overload abstract dynamic reintroduce cdecl stdcall on at absolute platform deprecated message self result true false
integer char boolean word double ansistring pchar longint byte variant
a b c foo bar x1 _y ends ending begins ina orb notx typed ofs ifx endasm nilx label1 stringx é 日本 ソ ﾆﾎﾝ Ｆｕｌｌ Ünï ß`)

var soupSyms = strings.Fields(`( ) [ ] ; ; ; , . .. : := = < > <= >= <> + - * / @ ^ ^. (. .) # $ & } *) -- -1 1. 1.5 1..2 0 007 12345 3.14 99999999999999999999 'a' '' 'it' 'a;b' 'x y' '日本語' ' ! % ? \ | ~ " `)

var soupGaps = []string{" ", " ", " ", "  ", "\t", "\n", "\r\n", "", "", "{}", "{ c }", "(*c*)", "// c\n", "{\n}", "\u3000", "(*)", "{", "(*", "//", "'", "\x00", "\ufeff"}

func soup(r *rand.Rand, n int, tame bool) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch {
		case r.Intn(2) == 0:
			b.WriteString(recase(soupWords[r.Intn(len(soupWords))], r.Intn(5), r))
		default:
			b.WriteString(soupSyms[r.Intn(len(soupSyms))])
		}
		if tame {
			b.WriteString(soupGaps[r.Intn(16)])
		} else {
			b.WriteString(soupGaps[r.Intn(len(soupGaps))])
		}
	}
	return b.String()
}

var noiseRunes = []rune("aZ_09  \n\r\t''(){}[]**//..::==<>+-@^;,#$&!%?|~\"\\eE\x00\x01\x7f\u0080\u00a0\u00e9\u3000\u3042\u4e9c\uff71\ufeff\ufffd\U0001f600\U0010ffff\u0301\u200bß")

func noise(r *rand.Rand, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(noiseRunes[r.Intn(len(noiseRunes))])
	}
	return b.String()
}

// enumText is the k-th text over the alphabet, shortest first.
var enumAlphabet = []rune("a1_ \n'(){*}/.:=<>-+;\\\t\rE")

func enumText(k int) []rune {
	n := len(enumAlphabet)
	l, c := 0, 1
	for k >= c {
		k -= c
		c *= n
		l++
	}
	out := make([]rune, l)
	for i := 0; i < l; i++ {
		out[i] = enumAlphabet[k%n]
		k /= n
	}
	return out
}

func enumCount(maxLen int) int {
	t, c := 0, 1
	for l := 0; l <= maxLen; l++ {
		t += c
		c *= len(enumAlphabet)
	}
	return t
}

// mutateText changes characters of a text.
func mutateText(r *rand.Rand, t []rune, other []rune) []rune {
	t = append([]rune{}, t...)
	for i, c := 0, 1+r.Intn(4); i < c; i++ {
		if len(t) == 0 {
			t = []rune(noise(r, 3))
		}
		p := r.Intn(len(t))
		switch r.Intn(7) {
		case 0: // delete
			q := p + 1 + r.Intn(8)
			if q > len(t) {
				q = len(t)
			}
			t = append(t[:p:p], t[q:]...)
		case 1: // insert
			ins := []rune(noise(r, 1+r.Intn(3)))
			if r.Intn(2) == 0 {
				ins = []rune(soup(r, 1+r.Intn(2), false))
			}
			t = append(append(append([]rune{}, t[:p]...), ins...), t[p:]...)
		case 2: // replace
			t[p] = noiseRunes[r.Intn(len(noiseRunes))]
		case 3: // truncate
			if r.Intn(3) == 0 {
				t = t[:p]
			}
		case 4: // duplicate a part
			q := p + 1 + r.Intn(40)
			if q > len(t) {
				q = len(t)
			}
			t = append(append(append([]rune{}, t[:q]...), t[p:q]...), t[q:]...)
		case 5: // splice
			if len(other) > 0 {
				a := r.Intn(len(other))
				b := a + 1 + r.Intn(60)
				if b > len(other) {
					b = len(other)
				}
				t = append(append(append([]rune{}, t[:p]...), other[a:b]...), t[p:]...)
			}
		case 6: // swap two parts
			q := r.Intn(len(t))
			t[p], t[q] = t[q], t[p]
		}
	}
	return t
}

var modePick = []string{"program", "unit", "program", "unit", "expr", "stmt", "type", "typesec", "varsec", "constsec", "threadvarsec", "block", "heading"}

// validText draws a generated source.
func validText(r *rand.Rand, size int) (string, []rune, *memCase, *rendered) {
	mode := modePick[r.Intn(len(modePick))]
	m := makeMem(r.Int63(), caseCfg{mode: mode, size: 5 + r.Intn(size), depth: 2 + r.Intn(4), wantCls: r.Intn(6), rich: r.Intn(6) == 0})
	rd := m.render(r, randStyle(r))
	return mode, rd.text, m, rd
}

func randStyle(r *rand.Rand) style {
	return style{layout: []int{0, 1, 2, 2, 2, 3}[r.Intn(6)], cases: r.Intn(5)}
}

// rawText draws a text of any kind; kind names where it comes from.
func rawText(r *rand.Rand, size int) (kind, mode string, text []rune) {
	switch r.Intn(8) {
	case 0:
		return "soup", allModes[r.Intn(len(allModes))], []rune(soup(r, 1+r.Intn(size), r.Intn(2) == 0))
	case 1:
		return "noise", allModes[r.Intn(len(allModes))], []rune(noise(r, 1+r.Intn(size)))
	case 2, 3, 4:
		m, t, _, _ := validText(r, size)
		return "generated source", m, t
	default:
		m, t, _, _ := validText(r, size)
		_, o, _, _ := validText(r, 20)
		return "mutated source", m, mutateText(r, t, o)
	}
}
