package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"
)

// ---------------------------------------------------------------------------------------------------------------------
// JSON values and their generator
// ---------------------------------------------------------------------------------------------------------------------

type M = map[string]interface{}
type A = []interface{}

func deepCopyV(v interface{}) interface{} {
	switch x := v.(type) {
	case M:
		m := make(M, len(x))
		for k, e := range x {
			m[k] = deepCopyV(e)
		}
		return m
	case A:
		a := make(A, len(x))
		for i, e := range x {
			a[i] = deepCopyV(e)
		}
		return a
	}
	return v
}

func same(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

func keysOf(m M) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Keys that can be written as a property of a JSON path, and keys that cannot but may occur in documents all the same.
var pathKeys = []string{"a", "b", "c", "d", "aa", "name", "id", "k-2", "_x", "Z9", "list", "over-forty", "array", "Aa"}
var oddKeys = []string{"a b", "", "$", "ключ", "0", "12", "@id", "a.b", "__proto__", "toString", "length", "constructor", "'q'", "\"dq\"", "[0]", "é", "日本", "#//!", "_-", "hasOwnProperty", "a,b", "*", "100%d", "%s%v", "<k>", "<anonymous>"}

var strPool = []string{"", "x", "hello", "a", "b", "true", "1", "null", "naïve ☃", "日本語", "tab\there", "line\nbreak", "quo\"te", "it's", "back\\slash", "$.a", "@", "#//!", "#//!j", "// c", "# c", "{}", "[1]", "  lead", "trail  ", "'''", "\u2028", "😀", "<b>&amp;</b>", "#//!lua5\nx=1", "a:b, c", "\x01\x1f", "0123", "-5", "1e3", "\u00a0", "100%d", "%!s(x) %v"}

// spice is what spiced strings are made of.
var spice = []string{"\r", "\r\n", "\n", "\n\n", " ", "  ", "\t", "\v", "\f", "\b", "\x00", "\x1b", "\x7f", "\u0085", "\u00a0", "\u2028", "\u2029", "\ufeff", "\u200b", "\uFFFD", "é", "e\u0301", "日", "😀", "\"", "'", "\\", "\\n", "\\u0041", "`", "%", "%s", "%%", "$", "@", "$.a", "#", "#//!", "//", "/*", "*/", ",", ":", ";", "{", "}", "[", "]", "(", ")", "<", ">", "&", "=", "+", "-", "0", "1", "a", "B", "_", ".", "..", "*", "?", "!", "null", "true", "NaN", "-0", "<anonymous>"}

type gen struct {
	*rand.Rand
	odd bool // odd keys
}

// spiced gives a string of characters that might be treated in a special way. It is not a script.
func (g gen) spiced() string {
	for {
		s := ""
		for n := 1 + g.Intn(6); n > 0; n-- {
			s += spice[g.Intn(len(spice))]
		}
		if first := strings.SplitN(s, "\n", 2)[0]; !strings.HasPrefix(first, "#//!") || len(first) != 6 {
			return s
		}
	}
}

func (g gen) scalar() interface{} {
	switch g.Intn(10) {
	case 0:
		return nil
	case 1:
		return g.Intn(2) == 0
	case 2, 3, 4:
		return float64(g.Intn(12))
	case 5:
		return []float64{-1, 0.5, 2.25, 1e21, 1e-7, 123456789012, -0.125, 3e300, 9007199254740991, 0.1, 5e-324, 100, 1e6}[g.Intn(13)]
	case 6:
		if g.Intn(2) == 0 {
			return g.spiced()
		}
	}
	return strPool[g.Intn(len(strPool))]
}

// keyBreaks takes out line breaks: traces show the keys that lead to a script, and are read line by line.
var keyBreaks = strings.NewReplacer("\n", "|", "\r", "|", "\u2028", "|", "\u2029", "|", "\u0085", "|")

func (g gen) key() string {
	if g.odd && g.Intn(5) == 0 {
		if g.Intn(6) == 0 {
			return keyBreaks.Replace(g.spiced())
		}
		return oddKeys[g.Intn(len(oddKeys))]
	}
	return pathKeys[g.Intn(len(pathKeys))]
}

func (g gen) value(depth int) interface{} {
	if depth <= 0 {
		return g.scalar()
	}
	switch g.Intn(10) {
	case 0, 1, 2, 3:
		return g.obj(depth - 1)
	case 4, 5, 6, 7:
		return g.arr(depth - 1)
	default:
		return g.scalar()
	}
}

func (g gen) obj(depth int) M {
	m := M{}
	n := g.Intn(5)
	for i := 0; i < n; i++ {
		m[g.key()] = g.value(depth)
	}
	return m
}

func (g gen) arr(depth int) A {
	a := A{}
	n := g.Intn(6)
	switch g.Intn(3) {
	case 0: // records with the same keys
		k1, k2 := g.key(), g.key()
		for i := 0; i < n; i++ {
			m := M{}
			if g.Intn(6) > 0 {
				m[k1] = g.value(depth - 1)
			}
			if g.Intn(6) > 0 {
				m[k2] = g.scalar()
			}
			a = append(a, m)
		}
	default:
		for i := 0; i < n; i++ {
			a = append(a, g.value(depth))
		}
	}
	return a
}

// doc makes a document that has an object at its root.
func (g gen) doc() M {
	for {
		m := M{}
		n := 1 + g.Intn(5)
		for i := 0; i < n; i++ {
			m[g.key()] = g.value(1 + g.Intn(4))
		}
		if len(js(m)) < 6000 {
			return m
		}
	}
}

// ---------------------------------------------------------------------------------------------------------------------
// JSON paths: syntax tree, rendering
// ---------------------------------------------------------------------------------------------------------------------

type stepKind int

const (
	sProp stepKind = iota
	sIndex
	sIndices
	sWildDot
	sWildIdx
	sSlice
	sFirst
	sRec
	sFilter
)

type step struct {
	kind    stepKind
	name    string
	idx     []int
	from    *int
	to      *int
	n       int // number of First descents
	dotted  bool
	filter  fexpr
	sep     string
	fspaces string
}

func ip(i int) *int { return &i }

type pathT []step

func (s step) render() string {
	dot := ""
	if s.dotted {
		dot = "."
	}
	switch s.kind {
	case sProp:
		return "." + s.name
	case sIndex:
		return fmt.Sprintf("%s[%d]", dot, s.idx[0])
	case sIndices:
		var b []string
		for _, i := range s.idx {
			b = append(b, fmt.Sprint(i))
		}
		return dot + "[" + strings.Join(b, ","+s.sep) + "]"
	case sWildDot:
		return ".*"
	case sWildIdx:
		return dot + "[*]"
	case sSlice:
		f, t := "", ""
		if s.from != nil {
			f = fmt.Sprint(*s.from)
		}
		if s.to != nil {
			t = fmt.Sprint(*s.to)
		}
		return dot + "[" + f + ":" + t + "]"
	case sFirst:
		return strings.Repeat(".", s.n+2) // the property that follows is written without a dot of its own
	case sRec:
		return ".." + s.name
	case sFilter:
		return dot + "[?(" + s.fspaces + s.filter.src() + s.fspaces + ")]"
	}
	panic("kind")
}

func (p pathT) render() string {
	var b strings.Builder
	b.WriteString("$")
	for i, s := range p {
		r := s.render()
		if i > 0 && p[i-1].kind == sFirst {
			// "...name", "...[0]", "....*": the dots of the first descent are followed by the next key directly
			r = strings.TrimPrefix(r, ".")
		}
		b.WriteString(r)
	}
	return b.String()
}

// randomStep makes a step that suits the given value most of the time.
func (g gen) randomStep(cur interface{}, root M, depth int) step {
	s := step{dotted: g.Intn(8) == 0, sep: []string{"", " ", "  "}[g.Intn(3)]}
	if g.Intn(12) == 0 {
		// anything at all
		switch g.Intn(8) {
		case 0:
			s.kind, s.name = sProp, pathKeys[g.Intn(len(pathKeys))]
		case 1:
			s.kind, s.idx = sIndex, []int{g.Intn(6)}
		case 2:
			s.kind, s.idx = sIndices, []int{g.Intn(4), g.Intn(4)}
		case 3:
			s.kind = sWildDot
		case 4:
			s.kind = sWildIdx
		case 5:
			g.slice(&s, g.Intn(5))
		case 6:
			s.kind, s.n = sFirst, 1+g.Intn(2)
		case 7:
			s.kind, s.name = sRec, pathKeys[g.Intn(len(pathKeys))]
		}
		return s
	}
	if g.Intn(8) == 0 {
		s.kind, s.filter = sFilter, g.fexprFor(cur, root)
		s.fspaces = []string{"", "", " "}[g.Intn(3)]
		return s
	}
	if g.Intn(10) == 0 {
		s.kind, s.name = sRec, g.someKey(cur)
		return s
	}
	switch x := cur.(type) {
	case M:
		ks := pathableKeys(x)
		switch r := g.Intn(10); {
		case r < 7 && len(ks) > 0:
			s.kind, s.name = sProp, ks[g.Intn(len(ks))]
		case r < 8:
			s.kind = sWildDot
		case r < 9:
			s.kind, s.n = sFirst, 1+g.Intn(3)*g.Intn(2)
		default:
			s.kind = sWildIdx
		}
	case A:
		n := len(x)
		switch r := g.Intn(12); {
		case r < 4:
			s.kind, s.idx = sIndex, []int{g.Intn(n + 1)}
			if n > 0 && g.Intn(6) > 0 {
				s.idx[0] = g.Intn(n)
			}
		case r < 6:
			s.kind = sIndices
			k := 2 + g.Intn(2)
			if g.Intn(15) == 0 {
				k = 5 + g.Intn(40) // a long list
			}
			for ; k > 0; k-- {
				if n > 0 && g.Intn(10) > 0 {
					s.idx = append(s.idx, g.Intn(n))
				} else {
					s.idx = append(s.idx, g.Intn(n+2))
				}
			}
		case r < 8:
			s.kind = sWildIdx
		case r < 9:
			g.slice(&s, n)
		default:
			s.kind, s.name = sProp, g.elemKey(x)
		}
	default:
		s.kind, s.name = sProp, pathKeys[g.Intn(len(pathKeys))]
	}
	return s
}

func (g gen) slice(s *step, n int) {
	s.kind = sSlice
	switch g.Intn(5) {
	case 0:
		s.from, s.to = ip(g.Intn(n+2)), ip(g.Intn(n+2))
	case 1:
		s.from = ip(g.Intn(n + 2))
	case 2:
		s.to = ip(g.Intn(n + 2))
	case 3:
		s.from = ip(-1 - g.Intn(n+1))
	case 4:
		s.to = ip(-1 - g.Intn(n+1))
	}
	if g.Intn(2) == 0 && n > 0 {
		if s.from != nil && s.to != nil && *s.from > *s.to {
			s.from, s.to = s.to, s.from
		}
	}
}

func pathable(k string) bool {
	if k == "" {
		return false
	}
	for i, c := range []byte(k) {
		alpha := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
		if !alpha && (i == 0 || !(c >= '0' && c <= '9' || c == '-')) {
			return false
		}
	}
	return true
}

func pathableKeys(m M) (out []string) {
	for _, k := range keysOf(m) {
		if pathable(k) {
			out = append(out, k)
		}
	}
	return
}

func (g gen) elemKey(a A) string {
	var ks []string
	for _, e := range a {
		if m, ok := e.(M); ok {
			ks = append(ks, pathableKeys(m)...)
		}
	}
	if len(ks) == 0 {
		return pathKeys[g.Intn(len(pathKeys))]
	}
	return ks[g.Intn(len(ks))]
}

func (g gen) someKey(v interface{}) string {
	set := map[string]bool{}
	var walk func(v interface{})
	walk = func(v interface{}) {
		switch x := v.(type) {
		case M:
			for k, e := range x {
				if pathable(k) {
					set[k] = true
				}
				walk(e)
			}
		case A:
			for _, e := range x {
				walk(e)
			}
		}
	}
	walk(v)
	if len(set) == 0 || g.Intn(8) == 0 {
		return pathKeys[g.Intn(len(pathKeys))]
	}
	var ks []string
	for k := range set {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks[g.Intn(len(ks))]
}

// path makes a path of up to max steps, walking the document with the reference evaluation.
func (g gen) path(doc M, max int) pathT {
	var p pathT
	n := 1 + g.Intn(max)
	var cur interface{} = doc
	for i := 0; i < n; i++ {
		s := g.randomStep(cur, doc, i)
		if len(p) > 0 && p[len(p)-1].kind == sFirst {
			// "..." has to be followed by a property, an index or a wildcard; not by more dots
			if s.kind == sFirst || s.kind == sRec {
				continue
			}
		}
		p = append(p, s)
		vals, err := evalRaw(cur, s, doc)
		if err != nil || len(vals) == 0 {
			if g.Intn(3) > 0 {
				break
			}
			continue
		}
		cur = vals[g.Intn(len(vals))]
	}
	// "$...": a first descent at the end of a path is a complete path too
	return p
}

// ---------------------------------------------------------------------------------------------------------------------
// Reference evaluation
// ---------------------------------------------------------------------------------------------------------------------

var errPath = fmt.Errorf("path cannot be followed")

// evalRaw follows one step from one value. It gives one value per alternative (several only for [x, y]).
func evalRaw(cur interface{}, s step, root M) ([]interface{}, error) {
	if s.kind == sIndices {
		var out []interface{}
		for _, i := range s.idx {
			v, err := evalRaw(cur, step{kind: sIndex, idx: []int{i}}, root)
			if err != nil {
				return nil, err
			}
			out = append(out, v...)
		}
		return out, nil
	}
	one := func(v interface{}) ([]interface{}, error) { return []interface{}{v}, nil }
	if s.kind == sFilter && !prepared(s.filter, root) {
		return nil, errOutside{}
	}
	switch x := cur.(type) {
	case M:
		switch s.kind {
		case sProp:
			v, ok := x[s.name]
			if !ok {
				return nil, errPath
			}
			return one(v)
		case sWildDot, sWildIdx:
			l := A{}
			for _, k := range keysOf(x) {
				l = append(l, x[k])
			}
			return one(l)
		case sFirst:
			k, ok := firstContainer(x)
			if !ok {
				return nil, errPath
			}
			if s.n > 1 {
				return evalRaw(x[k], step{kind: sFirst, n: s.n - 1}, root)
			}
			return one(x[k])
		case sFilter:
			l := A{}
			for _, k := range keysOf(x) {
				if ok, err := s.filter.truth(x[k], root); err != nil {
					return nil, err
				} else if ok {
					l = append(l, x[k])
				}
			}
			return one(l)
		case sRec:
			return one(recFind(x, s.name))
		}
		return nil, errPath
	case A:
		switch s.kind {
		case sProp:
			l := A{}
			for _, e := range x {
				if m, ok := e.(M); ok {
					if v, ok := m[s.name]; ok {
						l = append(l, v)
					}
				}
			}
			return one(l)
		case sIndex:
			if s.idx[0] < 0 || s.idx[0] >= len(x) {
				return nil, errPath
			}
			return one(x[s.idx[0]])
		case sWildDot, sWildIdx:
			return one(x)
		case sSlice:
			lo, hi, ok := sliceBounds(s, len(x))
			if !ok {
				return nil, errPath
			}
			return one(append(A{}, x[lo:hi]...))
		case sFilter:
			l := A{}
			for _, e := range x {
				if ok, err := s.filter.truth(e, root); err != nil {
					return nil, err
				} else if ok {
					l = append(l, e)
				}
			}
			return one(l)
		case sRec:
			return one(recFind(x, s.name))
		}
		return nil, errPath
	}
	return nil, errPath
}

func sliceBounds(s step, n int) (lo, hi int, ok bool) {
	lo, hi = 0, n
	if s.from != nil {
		if lo = *s.from; lo < 0 {
			lo += n
		}
	}
	if s.to != nil {
		if hi = *s.to; hi < 0 {
			hi += n
		}
	}
	return lo, hi, lo >= 0 && hi <= n && lo <= hi
}

func firstContainer(m M) (string, bool) {
	for _, k := range keysOf(m) {
		switch m[k].(type) {
		case M, A:
			return k, true
		}
	}
	return "", false
}

func recFind(v interface{}, name string) A {
	out := A{}
	var walk func(v interface{})
	walk = func(v interface{}) {
		switch x := v.(type) {
		case M:
			for _, k := range keysOf(x) {
				if k == name {
					if l, ok := x[k].(A); ok {
						out = append(out, l...)
					} else {
						out = append(out, x[k])
					}
				}
				walk(x[k])
			}
		case A:
			for _, e := range x {
				walk(e)
			}
		}
	}
	walk(v)
	return out
}

// refGet gives the values that a path selects, in order.
func refGet(doc M, p pathT) (A, error) {
	if len(p) == 0 {
		return A{}, nil
	}
	curs := []interface{}{doc}
	for _, s := range p {
		var next []interface{}
		for _, c := range curs {
			vs, err := evalRaw(c, s, doc)
			if err != nil {
				return nil, err
			}
			next = append(next, vs...)
		}
		curs = next
	}
	out := A{}
	for _, c := range curs {
		if l, ok := c.(A); ok {
			out = append(out, l...)
		} else {
			out = append(out, c)
		}
	}
	return out, nil
}

// alternatives expands [x, y] into one path per choice, in order.
func alternatives(p pathT) []pathT {
	out := []pathT{{}}
	for _, s := range p {
		var next []pathT
		for _, q := range out {
			if s.kind == sIndices {
				for _, i := range s.idx {
					next = append(next, append(append(pathT{}, q...), step{kind: sIndex, idx: []int{i}}))
				}
			} else {
				next = append(next, append(append(pathT{}, q...), s))
			}
		}
		out = next
	}
	return out
}

// refSet sets (or deletes, for nil) the locations that a path leads to. The document is modified in place, also if an error
// is returned part of the way. [x, y] is applied from left to right.
func refSet(doc M, p pathT, value interface{}) error {
	if len(p) == 0 {
		return nil
	}
	for _, q := range alternatives(p) {
		frozen := doc // the paths within filters are followed in the document as it was
		if len(q) > 1 {
			frozen = deepCopyV(doc).(M)
		}
		if _, err := refSet1(doc, q, value, frozen); err != nil {
			return err
		}
	}
	return nil
}

func refSet1(cur interface{}, p pathT, value interface{}, root M) (interface{}, error) {
	s, rest := p[0], p[1:]
	if s.kind == sFilter && !prepared(s.filter, root) {
		return nil, errOutside{}
	}
	if s.kind == sFirst && s.n > 1 {
		rest = append(pathT{{kind: sFirst, n: s.n - 1}}, rest...)
		s.n = 1
	}
	last := len(rest) == 0
	del := last && value == nil
	setKey := func(m M, k string) error {
		switch {
		case del:
			delete(m, k)
		case last:
			m[k] = deepCopyV(value)
		default:
			n, err := refSet1(m[k], rest, value, root)
			if err != nil {
				return err
			}
			m[k] = n
		}
		return nil
	}
	setIdx := func(a A, idx []int) (A, error) {
		if del {
			out := A{}
			gone := map[int]bool{}
			for _, i := range idx {
				gone[i] = true
			}
			for i, e := range a {
				if !gone[i] {
					out = append(out, e)
				}
			}
			return out, nil
		}
		for _, i := range idx {
			if last {
				a[i] = deepCopyV(value)
				continue
			}
			n, err := refSet1(a[i], rest, value, root)
			if err != nil {
				return nil, err
			}
			a[i] = n
		}
		return a, nil
	}
	rangeIdx := func(lo, hi int) (out []int) {
		for i := lo; i < hi; i++ {
			out = append(out, i)
		}
		return
	}
	var rec func(v interface{}) (interface{}, error)
	rec = func(v interface{}) (interface{}, error) {
		switch x := v.(type) {
		case M:
			for _, k := range keysOf(x) {
				if k == s.name {
					if err := setKey(x, k); err != nil {
						return nil, err
					}
					continue
				}
				n, err := rec(x[k])
				if err != nil {
					return nil, err
				}
				x[k] = n
			}
		case A:
			for i := range x {
				n, err := rec(x[i])
				if err != nil {
					return nil, err
				}
				x[i] = n
			}
		}
		return v, nil
	}
	switch x := cur.(type) {
	case M:
		switch s.kind {
		case sProp:
			if _, ok := x[s.name]; !ok && !last {
				return nil, errPath
			}
			return x, setKey(x, s.name)
		case sWildDot, sWildIdx:
			for _, k := range keysOf(x) {
				if err := setKey(x, k); err != nil {
					return nil, err
				}
			}
			return x, nil
		case sFirst:
			k, ok := firstContainer(x)
			if !ok {
				return nil, errPath
			}
			return x, setKey(x, k)
		case sFilter:
			var hit []string
			for _, k := range keysOf(x) {
				if ok, err := s.filter.truth(x[k], root); err != nil {
					return nil, err
				} else if ok {
					hit = append(hit, k)
				}
			}
			for _, k := range hit {
				if err := setKey(x, k); err != nil {
					return nil, err
				}
			}
			return x, nil
		case sRec:
			return rec(x)
		}
		return nil, errPath
	case A:
		switch s.kind {
		case sProp:
			for _, e := range x {
				if m, ok := e.(M); ok {
					if _, ok := m[s.name]; ok {
						if err := setKey(m, s.name); err != nil {
							return nil, err
						}
					}
				}
			}
			return x, nil
		case sIndex:
			if s.idx[0] < 0 || s.idx[0] >= len(x) {
				return nil, errPath
			}
			return setIdxV(setIdx(x, s.idx[:1]))
		case sWildDot, sWildIdx:
			return setIdxV(setIdx(x, rangeIdx(0, len(x))))
		case sSlice:
			lo, hi, ok := sliceBounds(s, len(x))
			if !ok {
				return nil, errPath
			}
			return setIdxV(setIdx(x, rangeIdx(lo, hi)))
		case sFilter:
			var hit []int
			for i, e := range x {
				if ok, err := s.filter.truth(e, root); err != nil {
					return nil, err
				} else if ok {
					hit = append(hit, i)
				}
			}
			return setIdxV(setIdx(x, hit))
		case sRec:
			return rec(x)
		}
		return nil, errPath
	}
	return nil, errPath
}

func setIdxV(a A, err error) (interface{}, error) {
	if err != nil {
		return nil, err
	}
	return a, nil
}

// single says whether a path leads to at most one location (so that a failed set cannot have changed anything).
func (p pathT) single() bool {
	for _, s := range p {
		switch s.kind {
		case sProp, sIndex, sFirst:
		default:
			return false
		}
	}
	return true
}

func (p pathT) kinds() string {
	var b []string
	for _, s := range p {
		b = append(b, [...]string{"prop", "index", "indices", "wild", "wildidx", "slice", "first", "rec", "filter"}[s.kind])
	}
	return strings.Join(b, "/")
}

// parseJSON is encoding/json, which the harness trusts.
func parseJSON(b []byte) interface{} {
	var v interface{}
	if err := json.Unmarshal(b, &v); err != nil {
		panic(fmt.Sprintf("harness: bad JSON %q: %v", b, err))
	}
	return v
}

func validUTF8(s string) bool { return utf8.ValidString(s) }
