package main

// Independent reference lexer, written from the token tests and the language
// notes, not from the tokenizer's code.

import (
	"strings"
	"unicode"
)

type lexKind int

const (
	lkEOF lexKind = iota
	lkSpace
	lkComment
	lkSymbol
	lkIdent
	lkReserved
	lkInt
	lkReal
	lkString
	lkUnknown
)

var lkNames = []string{"EOF", "space", "comment", "special symbol", "identifier", "reserved word", "int", "real", "character string", "UNKNOWN"}

type lexTok struct {
	kind       lexKind
	start, end int // rune index
}

var refReserved = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`and array as asm begin case class const constructor destructor dispinterface div do downto else end
except exports file finalization finally for function goto if implementation in inherited initialization inline interface is label
library mod nil not object of or out packed procedure program property raise record repeat resourcestring set shl shr string then
threadvar to try type unit until uses var while with xor`) {
		refReserved[w] = true
	}
}

func isDig(r rune) bool      { return r >= '0' && r <= '9' }
func isWordHead(r rune) bool { return r == '_' || unicode.IsLetter(r) }

// refLex splits text completely.
func refLex(text []rune) []lexTok {
	var out []lexTok
	n := len(text)
	at := func(i int) rune {
		if i < n {
			return text[i]
		}
		return -1
	}
	i := 0
	for i < n {
		s := i
		c := text[i]
		k := lkUnknown
		switch {
		case c == '{':
			for i < n && text[i] != '}' {
				i++
			}
			if i < n {
				i++
			}
			k = lkComment
		case c == '/' && at(i+1) == '/':
			for i < n && text[i] != '\n' {
				i++
			}
			k = lkComment
		case c == '(' && at(i+1) == '*':
			// the terminator is searched from the opening star on
			j := i + 1
			for j < n && !(text[j] == '*' && at(j+1) == ')') {
				j++
			}
			if j < n {
				j += 2
			}
			i = j
			k = lkComment
		case c == '\'':
			i++
			for i < n {
				if text[i] == '\'' && text[i-1] != '\\' {
					break
				}
				if text[i] == '\'' && i-1 == s {
					break
				}
				i++
			}
			k = lkString
			if i < n {
				i++
			} else {
				k = lkUnknown
			}
		case isDig(c) || (c == '-' && isDig(at(i+1))):
			i++
			k = lkInt
			for i < n {
				if isDig(text[i]) {
					i++
					continue
				}
				if text[i] == '.' && at(i+1) != '.' && k == lkInt {
					k = lkReal
					i++
					continue
				}
				break
			}
		case c == '_' || unicode.IsLetter(c):
			for i < n && (isWordHead(text[i]) || isDig(text[i])) {
				i++
			}
			k = lkIdent
			if refReserved[strings.ToLower(string(text[s:i]))] {
				k = lkReserved
			}
		case unicode.IsSpace(c):
			for i < n && unicode.IsSpace(text[i]) {
				i++
			}
			k = lkSpace
		case strings.ContainsRune("#$&()*+,-./:;<=>@[]^}", c):
			i++
			k = lkSymbol
			switch string([]rune{c, at(i)}) {
			case "(.", ".)", "..", ":=", "<=", ">=", "<>":
				i++
			}
		default:
			i++
		}
		out = append(out, lexTok{k, s, i})
	}
	out = append(out, lexTok{lkEOF, n, n})
	return out
}

// positions returns, for each rune index 0..n, its 1-based line and column.
func positions(text []rune) (line, col []int) {
	n := len(text)
	line = make([]int, n+1)
	col = make([]int, n+1)
	l, c := 1, 1
	for i := 0; i <= n; i++ {
		line[i], col[i] = l, c
		if i < n {
			if text[i] == '\n' {
				l++
				c = 1
			} else {
				c++
			}
		}
	}
	return
}

// sigToks returns the significant tokens (no spaces, comments) with positions.
func sigToks(text []rune) []tokPos {
	ln, cl := positions(text)
	var out []tokPos
	for _, t := range refLex(text) {
		if t.kind == lkSpace || t.kind == lkComment || t.kind == lkEOF {
			continue
		}
		out = append(out, tokPos{idx: t.start, end: t.end, line: ln[t.start], col: cl[t.start], eline: ln[t.end], ecol: cl[t.end], text: string(text[t.start:t.end])})
	}
	return out
}
