package main

import (
	"bytes"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync"

	_ "github.com/andygello555/json-dom/code/go"
	jsl "github.com/andygello555/json-dom/code/js"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
)

// ---------------------------------------------------------------------------------------------------------------------
// Documents with scripts: a model of what evaluation does to them
// ---------------------------------------------------------------------------------------------------------------------

// safeBuf is written to by console.log.
type safeBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *safeBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.Write(p)
}

func (s *safeBuf) take() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := s.b.String()
	s.b.Reset()
	return out
}

var stdoutBuf, stderrBuf = &safeBuf{}, &safeBuf{}

func init() {
	jsl.ExternalConsoleLogStdout = stdoutBuf
	jsl.ExternalConsoleLogStderr = stderrBuf
}

// effect is one change that a script makes to its scope.
type effect struct {
	op    string // set, delete, push, replace
	key   string
	value interface{}
}

// scriptV stands for a script within a model document.
type scriptV struct {
	id      string
	effects []effect
	extra   string // more JavaScript, without an effect on the document
	post    string // the same, at the end of the script
}

// event is one observed execution.
type event struct {
	id    string
	scope string
}

// toJS writes a model value as a JavaScript literal.
func toJS(v interface{}) string {
	switch x := v.(type) {
	case *scriptV:
		return jsLit(x.source(), '"')
	case M:
		var b []string
		for _, k := range keysOf(x) {
			b = append(b, jsLit(k, '"')+": "+toJS(x[k]))
		}
		return "{" + strings.Join(b, ", ") + "}"
	case A:
		var b []string
		for _, e := range x {
			b = append(b, toJS(e))
		}
		return "[" + strings.Join(b, ", ") + "]"
	case string:
		return jsLit(x, '"')
	}
	return js(v)
}

// source gives the script's text, with its shebang.
func (s *scriptV) source() string {
	var b strings.Builder
	b.WriteString("#//!js\n")
	fmt.Fprintf(&b, "console.log(%s);\n", jsLit("EV:"+s.id, '\''))
	b.WriteString(s.extra)
	for _, e := range s.effects {
		at := "json.trail[" + jsLit(e.key, '"') + "]"
		switch e.op {
		case "set":
			fmt.Fprintf(&b, "%s = %s;\n", at, toJS(e.value))
		case "delete":
			fmt.Fprintf(&b, "delete %s;\n", at)
		case "push":
			fmt.Fprintf(&b, "%s.push(%s);\n", at, toJS(e.value))
		case "replace":
			fmt.Fprintf(&b, "json.trail = %s;\n", toJS(e.value))
		}
	}
	b.WriteString(s.post)
	return b.String()
}

// toReal turns a model value into what is put in a document: scripts become JavaScript or Go callbacks.
func toReal(v interface{}, goLang bool, log func(event)) interface{} {
	switch x := v.(type) {
	case *scriptV:
		if !goLang {
			return x.source()
		}
		return func(jm json_map.JsonMapInt) {
			log(event{x.id, jm.GetCurrentScopePath()})
			for _, e := range x.effects {
				in := *jm.GetInsides()
				switch e.op {
				case "set":
					in[e.key] = toReal(e.value, goLang, log)
				case "delete":
					delete(in, e.key)
				case "push":
					in[e.key] = append(in[e.key].(A), toReal(e.value, goLang, log))
				case "replace":
					for k := range in {
						delete(in, k)
					}
					for k, ev := range e.value.(M) {
						in[k] = toReal(ev, goLang, log)
					}
				}
			}
		}
	case M:
		m := M{}
		for k, e := range x {
			m[k] = toReal(e, goLang, log)
		}
		return m
	case A:
		a := A{}
		for _, e := range x {
			a = append(a, toReal(e, goLang, log))
		}
		return a
	}
	return v
}

// cloneModel copies a model document (scripts are shared; they do not change).
func cloneModel(v interface{}) interface{} {
	switch x := v.(type) {
	case M:
		m := M{}
		for k, e := range x {
			m[k] = cloneModel(e)
		}
		return m
	case A:
		a := A{}
		for _, e := range x {
			a = append(a, cloneModel(e))
		}
		return a
	}
	return v
}

// modelRun evaluates a model document in place and gives the scripts run, grouped by scope. Sibling scopes are visited in
// key order here; in which order they are visited is left open.
func modelRun(m M, scope string, emit func(event)) {
	var ids []string
	scripts := map[string]*scriptV{}
	for k, v := range m {
		if s, ok := v.(*scriptV); ok {
			ids = append(ids, k)
			scripts[k] = s
		}
	}
	sort.Strings(ids)
	for _, k := range ids {
		// whatever an earlier script did to it
		s := scripts[k]
		emit(event{s.id, scope})
		for _, e := range s.effects {
			switch e.op {
			case "set":
				m[e.key] = cloneModel(e.value)
			case "delete":
				delete(m, e.key)
			case "push":
				m[e.key] = append(m[e.key].(A), cloneModel(e.value))
			case "replace":
				for k := range m {
					delete(m, k)
				}
				for k, v := range e.value.(M) {
					m[k] = cloneModel(v)
				}
			}
		}
		delete(m, k)
	}
	for _, k := range keysOf(m) {
		modelRunV(m[k], scope+"."+k, emit)
	}
}

func modelRunV(v interface{}, scope string, emit func(event)) {
	switch x := v.(type) {
	case M:
		modelRun(x, scope, emit)
	case A:
		for i, e := range x {
			modelRunV(e, fmt.Sprintf("%s.[%d]", scope, i), emit)
		}
	}
}

// modelStrip removes the scripts of a model document.
func modelStrip(v interface{}) interface{} {
	switch x := v.(type) {
	case M:
		m := M{}
		for k, e := range x {
			if _, ok := e.(*scriptV); !ok {
				m[k] = modelStrip(e)
			}
		}
		return m
	case A:
		a := A{}
		for _, e := range x {
			a = append(a, modelStrip(e))
		}
		return a
	}
	return v
}

func countScripts(v interface{}) int {
	n := 0
	switch x := v.(type) {
	case *scriptV:
		return 1
	case M:
		for _, e := range x {
			n += countScripts(e)
		}
	case A:
		for _, e := range x {
			n += countScripts(e)
		}
	}
	return n
}

// sgen generates model documents with scripts.
type sgen struct {
	gen
	nextID  int
	pollute bool // scripts try to influence each other by other means than the document
	replace bool // scripts may replace their whole scope
	budget  int
}

var decoys = []string{"#//!j", "#//!jsx\n1", " #//!js\nthrow 1", "x\n#//!js\nthrow 1", "#//! js\n", "#//!js \nthrow 1", "#/!js\n", "//!js\nthrow 1", "#//!", "#//!javascript\nthrow 1", "\n#//!js\nthrow 1", "#//!js\r\nthrow 1", "\ufeff#//!js\nthrow 1"}

// Keys of scripts: they sort before, between and after other keys, and byte order differs from numeric and case order.
var scriptKeys = []string{"script", "a", "Z", "s10", "s9", "s2", "_", "zz", "B", "é", "x-1", "x_1", "script 1", "0", "日"}

func (g *sgen) script(m M, depth int) *scriptV {
	g.nextID++
	s := &scriptV{id: fmt.Sprintf("s%d", g.nextID)}
	if g.pollute {
		s.post = pollution[g.Intn(len(pollution))]
	}
	for k := g.Intn(3); k > 0; k-- {
		switch g.Intn(6) {
		case 0, 1:
			s.effects = append(s.effects, effect{"set", fmt.Sprintf("e%d", g.Intn(4)), g.value(1)})
		case 2:
			if depth > 0 && g.budget > 0 {
				// a new object which has a script of its own
				s.effects = append(s.effects, effect{"set", fmt.Sprintf("n%d", g.Intn(3)), g.sobj(depth - 1)})
			}
		case 3:
			for _, k := range keysOf(m) {
				if isObj(m[k]) && !inList(scriptKeys, k) && g.Intn(2) == 0 {
					s.effects = append(s.effects, effect{"delete", k, nil})
					break
				}
			}
		case 4:
			s.effects = append(s.effects, effect{"set", "list0", A{}}, effect{"push", "list0", g.scalar()})
			if depth > 0 && g.budget > 0 {
				s.effects = append(s.effects, effect{"push", "list0", g.sobj(depth - 1)})
			}
		case 5:
			if g.replace && g.Intn(2) == 0 {
				v := g.obj(1)
				if depth > 0 && g.Intn(2) == 0 {
					v["n9"] = g.sobj(depth - 1)
				}
				s.effects = []effect{{"replace", "", v}}
				return s
			}
		}
	}
	return s
}

// sobj makes an object with scripts.
func (g *sgen) sobj(depth int) M {
	m := M{}
	for k := g.Intn(4); k > 0; k-- {
		key := g.key()
		if strings.Contains(key, ".") || key == "__proto__" {
			continue // the scope path would not tell where that is
		}
		switch r := g.Intn(8); {
		case r < 3 && depth > 0:
			m[key] = g.sobj(depth - 1)
		case r < 5 && depth > 0:
			m[key] = g.sarr(depth - 1)
		case r < 6:
			m[key] = decoys[g.Intn(len(decoys))]
		default:
			m[key] = g.scalar()
		}
	}
	replaced := false
	var ks []string
	for k := g.Intn(4); k > 0 && g.budget > 0; k-- {
		ks = append(ks, scriptKeys[g.Intn(len(scriptKeys))])
	}
	sort.Strings(ks)
	for i, key := range ks {
		if i > 0 && ks[i-1] == key {
			continue
		}
		g.budget--
		s := g.script(m, depth)
		for _, e := range s.effects {
			if e.op == "replace" {
				replaced = true
			}
		}
		m[key] = s
		_ = replaced
	}
	// a script that replaces its scope has to be the last one of its level: what becomes of the others is left open
	var last string
	for _, key := range keysOf(m) {
		if _, ok := m[key].(*scriptV); ok {
			last = key
		}
	}
	for _, key := range keysOf(m) {
		if s, ok := m[key].(*scriptV); ok && key != last {
			for _, e := range s.effects {
				if e.op == "replace" {
					s.effects = nil
					break
				}
			}
		}
	}
	// a script may do something to itself or to those which are still to be run
	ks = nil
	for _, key := range keysOf(m) {
		if _, ok := m[key].(*scriptV); ok {
			ks = append(ks, key)
		}
	}
	for i, key := range ks {
		s := m[key].(*scriptV)
		if g.Intn(4) > 0 || len(s.effects) > 0 && s.effects[0].op == "replace" {
			continue
		}
		at := ks[i+g.Intn(len(ks)-i)]
		switch g.Intn(4) {
		case 0:
			s.effects = append(s.effects, effect{"delete", at, nil})
		case 1:
			s.effects = append(s.effects, effect{"set", at, g.value(1)})
		case 2:
			g.nextID++
			s.effects = append(s.effects, effect{"set", at, &scriptV{id: fmt.Sprintf("s%d", g.nextID), effects: []effect{{"set", "never", true}}}})
		case 3:
			g.nextID++
			s.effects = append(s.effects, effect{"set", at, M{"in": &scriptV{id: fmt.Sprintf("s%d", g.nextID)}}})
		}
	}
	return m
}

// doc makes a document with at least one script.
func (g *sgen) doc() M {
	budget := g.budget
	for {
		g.budget = budget
		if m := g.sobj(2 + g.Intn(3)); countScripts(m) > 0 {
			return m
		}
	}
}

// bigDoc makes a document with scripts at the bottom of many levels, or far into a long array or among many members.
func (g *sgen) bigDoc() M {
	if g.budget < 4 {
		g.budget = 4
	}
	in := g.doc()
	if g.Intn(4) == 0 {
		// a script puts many elements, with scripts among them, somewhere
		l := A{}
		for n := 30 + g.Intn(150); n > 0; n-- {
			if g.Intn(30) == 0 || n == 1 {
				g.nextID++
				l = append(l, M{"s": &scriptV{id: fmt.Sprintf("s%d", g.nextID), effects: []effect{{"set", "v", float64(n)}}}})
			} else {
				l = append(l, g.scalar())
			}
		}
		var v interface{} = l
		if g.Intn(2) == 0 {
			v = M{"in": A{l}}
		}
		g.nextID++
		in = M{"in": in, "w": M{"adder": &scriptV{id: fmt.Sprintf("s%d", g.nextID), effects: []effect{{"set", "added", v}}}}}
	}
	switch g.Intn(4) {
	case 0:
		var v interface{} = in
		for n := 20 + g.Intn(80); n > 0; n-- {
			switch g.Intn(4) {
			case 0:
				v = A{v}
			case 1:
				v = A{g.scalar(), A{}, v}
			case 2:
				m := M{"k": v, "b": g.scalar()}
				if g.Intn(8) == 0 {
					g.nextID++
					m["script"] = &scriptV{id: fmt.Sprintf("s%d", g.nextID), effects: []effect{{"set", "seen", g.value(1)}}}
				}
				v = m
			default:
				v = M{g.key(): v}
			}
		}
		return M{"x": v}
	case 1:
		l := A{}
		n := 50 + g.Intn(400)
		for k := 0; k < n; k++ {
			l = append(l, []interface{}{g.scalar(), A{}, M{}, A{A{}}, M{"v": float64(k)}}[g.Intn(5)])
		}
		l[n-1-g.Intn(3)] = in
		l[g.Intn(n)] = M{"s": &scriptV{id: "far", effects: []effect{{"set", "v", float64(n)}}}}
		return M{"a": 1.0, "list": l}
	case 2:
		m := M{}
		for k := 40 + g.Intn(300); k > 0; k-- {
			m[fmt.Sprintf("k%d", g.Intn(10000))] = []interface{}{g.scalar(), A{}, M{}, A{A{}}, M{"v": float64(k)}}[g.Intn(5)]
		}
		m["k5"] = in
		return M{"o": m, "a": A{}}
	default: // a script on each of many elements
		l := A{}
		for n := 12 + g.Intn(30); n > 0; n-- {
			g.nextID++
			l = append(l, M{"s": &scriptV{id: fmt.Sprintf("s%d", g.nextID), effects: []effect{{"set", "at", float64(n)}}}, "v": g.scalar()})
		}
		return M{"list": l, "in": in}
	}
}

func (g *sgen) sarr(depth int) A {
	a := A{}
	for k := g.Intn(4); k > 0; k-- {
		switch r := g.Intn(6); {
		case r < 3:
			a = append(a, g.sobj(depth))
		case r < 4 && depth > 0:
			a = append(a, g.sarr(depth-1))
		case r < 5:
			a = append(a, "#//!js\nthrow 'strings in arrays are not scripts'")
		default:
			a = append(a, g.scalar())
		}
	}
	return a
}

var pollution = []string{
	"leak = 'leaked';\n",
	"Object.prototype.polluted = 1;\n",
	"Array.prototype.push = function() { return 'broken' };\n",
	"json.extra = {a: 1}; json.scopePathCopy = json.scopePath;\n",
	"JSON.mine = 1; Math.max = function() { return 'broken' };\n",
	"var script = 'x'; var a = 'y'; this.globalThing = 1;\n",
	"Array.prototype.forEach = function() { throw 'broken' };\n",
	"String.prototype.split = null;\n",
	"console.log = function() {}; console.extra = 1;\n",
	"delete console.log; console.error = null; printlnExternal = null;\n",
	"console = {log: function() {}};\n",
	"json.jsonPathSelector = function() { return 'broken'; };\n",
	"delete json.jsonPathSelector; JSON.parse = null;\n",
	"Object.keys = function() { return ['broken']; }; Function.prototype.call = null; RegExp.prototype.test = null; Date = 'broken';\n",
	"json.jsonPathSelector('$').constructor.prototype.polluted = 1;\n",
}

// cleanProbe is JavaScript that throws if something that another script did can be seen.
const cleanProbe = `if (typeof leak !== 'undefined' || ({}).polluted !== undefined || typeof globalThing !== 'undefined' || json.extra !== undefined || JSON.mine !== undefined || Math.max(1, 2) !== 2 || [].push.call([], 1) !== 1 || 'a b'.split(' ').length !== 2 || console.extra !== undefined || typeof console.error !== 'function' || typeof printlnExternal !== 'function' || typeof json.jsonPathSelector('$.*').getValues !== 'function' || typeof JSON.parse !== 'function' || Object.keys({a: 1})[0] !== 'a' || !/b/.test('abc') || isNaN(new Date().getTime())) { throw 'another script can be seen'; }
[1].forEach(function(x) {});
`

var evRe = regexp.MustCompile(`Print call from: <(.*)>:(\d+):(\d+)\n\tEV:(\S+)\n`)

// jsEvents reads the events that scripts wrote with console.log.
func jsEvents(out string) (evs []event) {
	for _, m := range evRe.FindAllStringSubmatch(out, -1) {
		evs = append(evs, event{m[4], m[1]})
	}
	return
}

// checkOrder checks a trace of events against the events that the model gives: the same executions, exactly once each; the
// scripts of one scope in order; and the scripts of a scope before those of the scopes within it.
func checkOrder(got, want []event) string {
	count := map[event]int{}
	for _, e := range want {
		count[e]++
	}
	for _, e := range got {
		count[e]--
	}
	for e, n := range count {
		if n > 0 {
			return fmt.Sprintf("script %s at %s was not run %d time(s)", e.id, e.scope, n)
		}
		if n < 0 {
			return fmt.Sprintf("script %s at %s was run %d time(s) too often", e.id, e.scope, -n)
		}
	}
	byScope := func(evs []event) map[string][]string {
		m := map[string][]string{}
		for _, e := range evs {
			m[e.scope] = append(m[e.scope], e.id)
		}
		return m
	}
	gs, ws := byScope(got), byScope(want)
	for scope, ids := range ws {
		if !same(gs[scope], ids) {
			return fmt.Sprintf("scripts of scope %s ran in the order %v, want %v", scope, gs[scope], ids)
		}
	}
	for i, e := range got {
		for _, f := range got[i+1:] {
			if f.scope != e.scope && strings.HasPrefix(e.scope, f.scope+".") {
				return fmt.Sprintf("script %s at %s ran before script %s of the enclosing scope %s", e.id, e.scope, f.id, f.scope)
			}
		}
	}
	return ""
}

// runDoc evaluates a real document and gives what it panicked with, if it did.
func runDoc(m *jom.JsonMap) (p interface{}) {
	return caught(m.Run)
}
