package main

// P23 walking a tree.

import (
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
)

var nodeT = reflect.TypeOf((*ast.Node)(nil)).Elem()

// ownedNodes lists the nodes which a tree owns (pointers to non-empty structs
// reachable without following references).
func ownedNodes(root interface{}, f func(nd reflect.Value, path string)) {
	seen := map[uintptr]map[reflect.Type]bool{}
	var walk func(x reflect.Value, path string)
	walk = func(x reflect.Value, path string) {
		switch x.Kind() {
		case reflect.Interface:
			if !x.IsNil() {
				walk(x.Elem(), path)
			}
		case reflect.Ptr:
			if x.IsNil() {
				return
			}
			switch x.Interface().(type) {
			case *astcore.Decl, *ast.Unit:
				if path != "" {
					return
				}
			}
			if x.Elem().Kind() == reflect.Struct && x.Type().Elem().Size() == 0 {
				return
			}
			m := seen[x.Pointer()]
			if m == nil {
				m = map[reflect.Type]bool{}
				seen[x.Pointer()] = m
			}
			if m[x.Type()] {
				return
			}
			m[x.Type()] = true
			if x.Type().Implements(nodeT) {
				f(x, path)
			}
			if _, ok := x.Interface().(*astcore.Ident); ok {
				return
			}
			walk(x.Elem(), path)
		case reflect.Struct:
			for i := 0; i < x.NumField(); i++ {
				ft := x.Type().Field(i)
				if ft.PkgPath != "" {
					continue
				}
				switch ft.Name {
				case "Parent", "Actual", "DeclMap", "Ref", "Location":
					continue
				}
				walk(x.Field(i), x.Type().Name()+"."+ft.Name)
			}
		case reflect.Slice:
			k := x.Type().Elem().Kind()
			if k != reflect.Ptr && k != reflect.Interface && k != reflect.Struct && k != reflect.Slice {
				return
			}
			for i := 0; i < x.Len(); i++ {
				walk(x.Index(i), path+"[]")
			}
		}
	}
	walk(reflect.ValueOf(root), "")
}

type nodeKey struct {
	p uintptr
	t reflect.Type
}

func keyOf(n interface{}) (nodeKey, bool) {
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Ptr || v.IsNil() || v.Type().Elem().Size() == 0 {
		return nodeKey{}, false
	}
	return nodeKey{v.Pointer(), v.Type()}, true
}

var reIdentMark = regexp.MustCompile("\x02([0-9]+)\x03")

func init() {
	register(&check{id: "P23", quick: 8000, thorough: 300000,
		rule: "the results of generated sources of all entry points, and of mutated ones that are accepted; the visits of a walk are compared with the nodes a reflective scan of the result finds (each exactly once, owner first), with the identifiers of the source in source order, and the walk is cut by an error at random visits; non-trivial: at least 10 nodes",
		need: []string{"nodes visited", "walks cut by an error", "identifiers in source order", "mutated sources accepted"},
		run: func(x *ctx) {
			mode, toks, m := x.anyToks()
			rd := render(toks, x.r, style{layout: x.r.Intn(4), cases: x.r.Intn(5)})
			x.only("mode", mode)
			x.input("text", string(rd.text))
			o := parseMode(mode, rd.text)
			if o.err != nil || o.node == nil {
				if m != nil {
					x.fail("a source of the grammar is rejected: %v", o.err)
				}
				x.count("mutated sources rejected", 1)
				return
			}
			if m == nil {
				x.count("mutated sources accepted", 1)
			}
			x.walkCase(o.node.(ast.Node), rd, m)
			if len(toks) < 60 {
				x.sample(mode + ": " + string(rd.text))
			}
		}})
}

func (x *ctx) walkCase(root ast.Node, rd *rendered, m *memCase) {
	visited := map[nodeKey]int{}
	kinds := map[string]bool{}
	n := 0
	var order []int
	err := astcore.WalkDown(root, func(nd ast.Node) error {
		if nd == nil || (reflect.ValueOf(nd).Kind() == reflect.Ptr && reflect.ValueOf(nd).IsNil()) {
			x.fail("visit %d is of a missing node (%T)", n, nd)
		}
		n++
		if k, ok := keyOf(nd); ok {
			if _, dup := visited[k]; dup {
				x.fail("a node (%T) is visited twice", nd)
			}
			visited[k] = n
			kinds[k.t.String()] = true
		}
		var id *astcore.Ident
		switch v := nd.(type) {
		case *astcore.Ident:
			id = v
		case *ast.VarDeclAbsoluteIdent:
			id = (*astcore.Ident)(v)
		}
		if id != nil && id.Location != nil && id.Location.Start != nil {
			order = append(order, id.Location.Start.Index)
		}
		return nil
	})
	if err != nil {
		x.fail("walking gives an error that the visitor did not: %v", err)
	}
	// every owned node, after its owner
	owned := 0
	ownedNodes(root, func(v reflect.Value, path string) {
		owned++
		k := nodeKey{v.Pointer(), v.Type()}
		if visited[k] == 0 {
			x.fail("a %v (part of %s) is never visited", v.Type(), path)
		}
	})
	if owned != len(visited) {
		x.fail("%d nodes are visited, the tree has %d", len(visited), owned)
	}
	x.ownersFirst(root, visited)
	// identifiers in source order
	idx := map[int]int{}
	for i, t := range rd.toks {
		idx[t.idx] = i
	}
	if m != nil {
		want := map[int]bool{}
		for _, s := range reIdentMark.FindAllStringSubmatch(m.f.exp, -1) {
			i, _ := strconv.Atoi(s[1])
			want[i] = true
		}
		last := -1
		for _, p := range order {
			i, ok := idx[p]
			if !ok {
				continue // positions are another property's matter
			}
			if last >= 0 && i < last && !m.g.sameExport(i, last) {
				x.fail("%q (token %d) is visited after %q (token %d)", rd.texts[i], i, rd.texts[last], last)
			}
			last = i
			delete(want, i)
			x.res.Counts["identifiers in source order"]++
		}
		if len(want) > 0 {
			var l []int
			for i := range want {
				l = append(l, i)
			}
			sort.Ints(l)
			x.fail("the identifier %q (token %d) is never visited", rd.texts[l[0]], l[0])
		}
	}
	// a visitor may itself walk parts of the tree
	inner, c, budget := 0, 0, 4*n+100
	err = astcore.WalkDown(root, func(nd ast.Node) error {
		c++
		if budget > 0 && x.r.Intn(3) == 0 {
			stop := 1 + x.r.Intn(20)
			i := 0
			_ = astcore.WalkDown(nd, func(ast.Node) error {
				i++
				budget--
				if i == stop {
					return errors.New("stop")
				}
				return nil
			})
			inner++
		}
		return nil
	})
	if err != nil || c != n {
		x.fail("while the visitor walks parts of the tree itself, %d nodes are visited instead of %d (error: %v)", c, n, err)
	}
	x.count("walks inside a walk", inner)
	// an error ends the walk
	for i := 0; i < 3; i++ {
		stop := 1 + x.r.Intn(n)
		e := errors.New("stop")
		c := 0
		got := astcore.WalkDown(root, func(nd ast.Node) error {
			c++
			if c == stop {
				return e
			}
			return nil
		})
		if got == nil || !(got == e || errors.Is(got, e) || strings.Contains(got.Error(), "stop")) {
			x.fail("the visitor returned an error at visit %d, the walk gave %v", stop, got)
		}
		if c != stop {
			x.fail("the visitor returned an error at visit %d and was called %d times", stop, c)
		}
		x.res.Counts["walks cut by an error"]++
	}
	x.count("nodes visited", n)
	for k := range kinds {
		x.feat(k)
	}
	x.eval(fmt.Sprint(rd.texts), n >= 10)
}

// ownersFirst: each node is visited after the node that holds it.
func (x *ctx) ownersFirst(root ast.Node, visited map[nodeKey]int) {
	var walk func(v reflect.Value, owner int)
	seen := map[nodeKey]bool{}
	walk = func(v reflect.Value, owner int) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), owner)
			}
		case reflect.Ptr:
			if v.IsNil() {
				return
			}
			k := nodeKey{v.Pointer(), v.Type()}
			if seen[k] {
				return
			}
			seen[k] = true
			switch v.Interface().(type) {
			case *astcore.Decl, *ast.Unit:
				if owner > 0 {
					return
				}
			case *astcore.Ident:
				if visited[k] > 0 && visited[k] < owner {
					x.fail("an identifier is visited before the node that holds it")
				}
				return
			}
			if at := visited[k]; at > 0 {
				if at < owner {
					x.fail("a %v is visited before the node that holds it", v.Type())
				}
				owner = at
			}
			walk(v.Elem(), owner)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				ft := v.Type().Field(i)
				if ft.PkgPath != "" {
					continue
				}
				switch ft.Name {
				case "Parent", "Actual", "DeclMap", "Ref", "Location":
					continue
				}
				walk(v.Field(i), owner)
			}
		case reflect.Slice:
			k := v.Type().Elem().Kind()
			if k != reflect.Ptr && k != reflect.Interface && k != reflect.Struct && k != reflect.Slice {
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), owner)
			}
		}
	}
	walk(reflect.ValueOf(root), 0)
}
