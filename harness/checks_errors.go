package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
)

// callWays are ways of calling a function once.
var callWays = []string{"CALL;", "(function() { CALL; })();", "[0].forEach(function(scopePath) { CALL; });", "if (true) { CALL; } else { CALL; }", "try { CALL; } finally { }", "try { throw 1; } catch (e) { CALL; }", "for (var i = 0; i < 1; i++) CALL;", "({f: function() { CALL; }, scopePath: 'fake'}).f();", "new (function() { this.scopePath = 'fake'; CALL; })();", "var x = CALL;", "true && CALL;", "with ({scopePath: 'fake', trail: 'fake'}) { CALL; }", "switch (1) { case 1: CALL; break; default: CALL; }", "var f = FN; f(ARGS);", "var o = {p: FN, scopePath: 'fake'}; o.p(ARGS);", "function named() { CALL; } named();", "(function f$1(n) { if (n) f$1(n - 1); else { CALL; } })(5);", "var scopePath = {f: function log() { return CALL; }}; scopePath.f();"}

// evalSafe calls Eval; a panic that escapes it is a violation.
func evalSafe(t *T, src []byte) (out []byte, err error) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(bailout); ok {
				panic(p)
			}
			t.Fail("panic-escaped", "evaluation panicked: %v", p)
		}
	}()
	return jom.Eval(src, false)
}

// errorScripts end with an error, whatever the document.
var errorScripts = []string{
	"throw 'plain string';", "throw new Error('e');", "throw new TypeError('t');", "throw {a: 1};", "throw undefined;", "throw null;", "throw 7;", "throw [1, 2];", "throw function() {};",
	"var = ;", "function (", "}", "json.trail['a", "/* unterminated", "'abc", "return 5 +;", "let x = 1 ==== 2;", "\x00", "@", "#", "if (", "var a = [1, 2",
	"nope();", "json.nope.nope;", "undefined.x;", "null();", "json.trail();", "new 5;", "({}).f();", "x.y = 1;", "Object.defineProperty(1);", "new Array(-1);", "(1).toFixed(1000);", "'x'.repeat(3);", "decodeURIComponent('%');", "JSON.parse('{');", "new RegExp('[');",
	"json.trail.self = json.trail;", "json.trail = {l: []}; json.trail.l.push(json.trail);", "var a = []; a.push(a); json.trail.a = a;",
	"json.trail = 5;", "json.trail = 'text';", "json.trail = true;", "json.trail = [1];", "json.trail = undefined;", "json.trail = function() {};", "delete json.trail;", "json = undefined;", "json = 5;", "json = {};", "json = null;",
	"json.trail.toJSON = function() { throw 'in toJSON'; };", "json.trail.toJSON = function() { return 5; };", "Object.defineProperty(json.trail, 'g', {enumerable: true, get: function() { throw 'in getter'; }});",
	"json.jsonPathSelector('no dollar');", "json.jsonPathSelector('$.certainly.not.there').getValues();", "json.jsonPathSelector('$[?(@.a.b.c)]').setValues();", "json.jsonPathSelector();", "json.jsonPathSelector(5);", "json.jsonPathSelector('$.a', '$.b');", "json.jsonPathSelector('$').nope();", "json.jsonPathSelector('$[?(')",
	"console.nope('x');", "console = null; console.log(1);",
	"JSON = undefined;", "JSON.stringify = undefined;", "JSON.stringify = 5;",
	"var f = function() { throw 'deep'; }; [1].forEach(f);", "[1, 2].map(function(x) { return x.y.z; });", "'a'.replace(/a/, function() { throw 'r'; });", "[2, 1].sort(function() { throw 's'; });",
	"try { throw 'a'; } finally { throw 'b'; }", "try { nope(); } catch (e) { throw e; }", "eval('throw 1');", "eval('(');", "new Function('(')();", "(function f() { f(); })();", "var o = {toString: function() { return o + ''; }}; '' + o;",
	"JSON.parse('[1]', function() { throw 'reviver'; });", "with (json.trail) { nothing_here(); }", "throw json;", "throw json.trail;", "throw new (function Custom() {})();", "throw '%s %d %!v(MISSING)';", "throw '日本語 ☃';", "throw 'line 1\\nline 2';", "throw Object.create(null);", "throw {toString: function() { return 'custom'; }};", "throw {toString: function() { throw 'again'; }};", "throw {toString: function() { return {}; }, valueOf: function() { return {}; }};", "json.scopePath = 5; console.log(1);", "delete json.scopePath; console.error(1);",
}

// okAfterError leave the evaluation intact although something went wrong within the script.
var caughtScripts = []string{
	"try { throw 1; } catch (e) {}", "try { nope(); } catch (e) { }", "try { json.jsonPathSelector('x'); } catch (e) {}", "try { json.jsonPathSelector('$.certainly.not.there').getValues(); } catch (e) {}", "try { eval('('); } catch (e) {}",
	"try { json.jsonPathSelector('$.certainly.not.there.x').setValues(5); } catch (e) {}", "try { (function f() { f(); })(); } catch (e) {}", "try { JSON.stringify(function() { var a = []; a.push(a); return a; }()); } catch (e) {}",
	"try { console.log({get g() { throw new TypeError('in getter'); }}); } catch (e) { if (!(e instanceof TypeError) || e.message != 'in getter') throw 'not the exception: ' + e; }",
	"try { console.error(1, {o: {p: Object.defineProperty({}, 'g', {enumerable: true, get: function() { throw 'text'; }})}}); } catch (e) { if (e !== 'text') throw 'not the exception: ' + e; }",
	"try { printlnExternal({get g() { return nope(); }}); } catch (e) { if (e.name != 'ReferenceError') throw 'not the exception: ' + e; }",
	"try { json.jsonPathSelector('$').setValues(); } catch (e) {}", "try { json.jsonPathSelector('$.a', 1); } catch (e) {}",
}

var goPanics = []struct {
	name string
	f    func()
}{
	{"string", func() { panic("callback panic") }}, {"error", func() { panic(errors.New("callback error")) }}, {"int", func() { panic(42) }},
	{"nil-deref", func() { var m *jom.JsonMap; m.Array = true }}, {"index", func() { var a []int; i := 3; a[i] = 1 }}, {"nil-map", func() { var m map[string]int; m["x"] = 1 }}, {"division", func() { z := 0; _ = 1 / z }}, {"type-assertion", func() { var x interface{} = 5; _ = x.(string) }},
	{"struct", func() { panic(struct{ a, b int }{1, 2}) }}, {"nil", func() { panic(nil) }}, {"closed-channel", func() { c := make(chan int); close(c); close(c) }}, {"func", func() { panic(func() {}) }}, {"must", func() { jom.New().MustGet("$.nope") }},
	{"empty", func() { panic("") }}, {"empty error", func() { panic(errors.New("")) }}, {"blank", func() { panic(" \n") }}, {"false", func() { panic(false) }}, {"zero", func() { panic(0) }}, {"nil pointer", func() { panic((*int)(nil)) }}, {"nil error", func() { var e *ownError; panic(e) }}, {"named like the limit", func() { panic("halting problem") }}, {"empty struct", func() { panic(struct{}{}) }}, {"own error type", func() { panic(ownError{}) }},
}

type ownError struct{}

func (ownError) Error() string { return "an error of its own" }

// spot puts a script into a random document, next to other scripts, and tells where.
func (g *sgen) spot(key string, script interface{}) (doc M, scope string) {
	inner := g.obj(1)
	delete(inner, key)
	inner[key] = script
	switch g.Intn(7) {
	case 6:
		k := oddKeys[g.Intn(len(oddKeys))]
		return M{k: M{"list": A{inner}}, "b": nil}, "$." + k + ".list.[0]"
	case 0, 1:
		return inner, "$"
	case 2:
		return M{"a": 1.0, "in": M{"ner": inner}}, "$.in.ner"
	case 3:
		return M{"l": A{nil, inner, 1.0}, "z": M{}}, "$.l.[1]"
	case 4:
		return M{"l": A{A{A{}, inner}}}, "$.l.[0].[1]"
	}
	return M{"deep": M{"l": A{M{"k": inner}}}}, "$.deep.l.[0].k"
}

const probeDoc = `{"n": {"x": [3, 1, 2], "s": "#//!js\njson.trail.sum = 0; json.trail.x.forEach(function(v) { json.trail.sum += v; }); json.trail.first = json.jsonPathSelector('$.x[0]').getValues()[0];"}}`

// probe evaluates a fixed document and checks that it comes out the same as ever.
func probe(t *T) {
	out, err := evalSafe(t, []byte(probeDoc))
	// a starved machine can take a second over anything, but not over and over
	for try := 0; try < 5 && err != nil && strings.Contains(err.Error(), "(-1)"); try++ {
		time.Sleep(time.Duration(try+1) * time.Second)
		t.Inconclusive("an unrelated evaluation took over the limit, and was repeated")
		t.Input("%s", t.input)
		out, err = evalSafe(t, []byte(probeDoc))
	}
	if err != nil || string(out) != `{"n":{"first":3,"sum":6,"x":[3,1,2]}}` {
		t.Fail("probe", "an unrelated evaluation afterwards gave %q, %v", out, err)
	}
}

func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + r.Intn(6); k > 0 && len(b) > 0; k-- {
		i := r.Intn(len(b))
		switch r.Intn(7) {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b = append(b[:i], b[i+1:]...)
		case 2:
			b = append(b[:i], append([]byte{"{}[]:,'\"\\\n#/ \x00\xff"[r.Intn(15)]}, b[i:]...)...)
		case 3:
			j := i + r.Intn(len(b)-i)
			b = append(b[:i], b[j:]...)
		case 4:
			b = b[:i]
		case 5:
			j := i + r.Intn(len(b)-i)
			b = append(b[:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		case 6:
			b[i] ^= 1 << r.Intn(8)
		}
	}
	return b
}

var argPool = []struct{ js, text string }{
	{"'plain'", "plain"}, {"''", ""}, {"'two words'", "two words"}, {"'line 1\\nline 2'", "line 1\nline 2"}, {"'\\n'", "\n"}, {"'tab\\there'", "tab\there"}, {"'日本 ☃'", "日本 ☃"}, {"'%d %s %v'", "%d %s %v"}, {"'100%'", "100%"},
	{"5", "5"}, {"-17", "-17"}, {"0", "0"}, {"1.5", "1.5"}, {"0.25", "0.25"}, {"true", "true"}, {"false", "false"}, {"undefined", "undefined"}, {"null", "undefined"}, {"1 + 2", "3"}, {"'a' + 1", "a1"}, {"json.scopePath", "SCOPE"}, {"typeof json", "object"}, {"'<anonymous>'", "<anonymous>"},
}

func init() {
	register(&Check{
		ID:     "C16",
		Rule:   "a case is a document with something in it that goes wrong (scripts that throw, do not parse or destroy what they are given; unsupported languages; Go callbacks that panic; malformed text), or with a script that catches the error itself; the monitor checks that evaluation ends with an error (or none), no output, no escaped panic, that the error names scope and script, and that evaluations afterwards are not affected; non-trivial: an error was reported, keyed by kind and place",
		Assume: []string{"documents nested at most 3000 levels deep", "which text an error has beyond the scope path and the script is left open"},
		Run: func(r *Runner) {
			r.Group("scripts", r.N(len(errorScripts)*10, len(errorScripts)*250), func(t *T) {
				g := &sgen{gen: gen{t.R, false}, budget: 6}
				body := errorScripts[t.Idx%len(errorScripts)]
				if g.Intn(10) == 0 {
					// the whole script has to be named, however long it is
					pad := "// " + strings.Repeat("x ", g.Intn(40000)) + fmt.Sprint(g.Intn(1000)) + "\n"
					if g.Intn(2) == 0 {
						pad = strings.Repeat("/**/\n", g.Intn(3000))
					}
					body = pad + body
				}
				doc, scope := g.spot("s", "#//!js\n"+body)
				src := js(doc)
				t.Input("%s", src)
				out, err := evalSafe(t, []byte(src))
				if err == nil {
					t.Fail("no-error", "evaluated to %s", out)
				}
				if len(out) != 0 {
					t.Fail("output-with-error", "error %v, output %q", err, out)
				}
				if !strings.Contains(err.Error(), "<"+scope+">") || !strings.Contains(err.Error(), body) {
					t.Fail("error-text", "the error does not name scope %s and the script: %v", scope, err)
				}
				t.Count("script-errors", 1)
				m := jom.New()
				if e := m.Unmarshal([]byte(src)); e != nil {
					t.Fail("unmarshal", "%v", e)
				}
				if p := caught(m.Run); p == nil {
					t.Fail("run-no-panic", "no error was reported by the evaluation of a document in place")
				}
				if t.Idx%9 == 0 {
					probe(t)
				}
				t.Nontrivial(fmt.Sprint("script ", clip(body, 100), scope))
			})
			// what a script did before it failed is not in the document that Run leaves behind
			r.Group("undone", r.N(900, 20000), func(t *T) {
				g := &sgen{gen: gen{t.R, false}}
				inner := g.obj(1 + g.Intn(3))
				if g.Intn(2) == 0 {
					inner["list"] = A{1.0, M{"x": "y"}, A{}}
				}
				want := deepCopyV(inner).(M)
				var did []string
				for n := 1 + g.Intn(3); n > 0; n-- {
					switch g.Intn(8) {
					case 0:
						did = append(did, "json.trail.certainlyNew = {a: 1};")
					case 1:
						did = append(did, "json.trail = {replaced: [1]};")
					case 2:
						did = append(did, "for (var k in json.trail) delete json.trail[k];")
					case 3:
						did = append(did, "for (var k in json.trail) if (k != 'scr') json.trail[k] = 'changed';")
					case 4:
						did = append(did, "for (var k in json.trail) if (json.trail[k] && typeof json.trail[k] == 'object') json.trail[k].added = 1;")
					case 5:
						did = append(did, "json.jsonPathSelector('$.certainlyNewToo').setValues({set: 1});")
					case 6:
						did = append(did, "for (var k in json.trail) if (/^\\w+$/.test(k)) json.jsonPathSelector('$.' + k).setValues('set');")
					case 7:
						did = append(did, "if (json.trail.list) { json.trail.list.push(5); json.trail.list[1].x = 'pushed'; json.jsonPathSelector('$.list[0]').setValues('set'); json.jsonPathSelector('$.list[1].x').setValues(null); }")
					}
				}
				end := []string{"throw 'undone';", "nope();", "json.jsonPathSelector('bad');", "json.trail = 5;", "json.trail.self = json.trail;", "delete json.trail;", "JSON = undefined;", "json.trail.toJSON = function() { throw 'in toJSON'; };"}[g.Intn(8)]
				body := strings.Join(did, "\n") + "\n" + end
				inner["scr"] = "#//!js\n" + body
				doc, get, where := g.embed(inner)
				t.Input("%s", js(doc))
				m := jom.NewFromMap(deepCopyV(doc).(M))
				p := caught(m.Run)
				if p == nil {
					t.Fail("undone-no-error", "no error was reported")
				}
				left, ok := parseJSON([]byte(js(*m.GetInsides()))).(M)
				if !ok {
					t.Fail("undone-broken", "the document is %s", js(*m.GetInsides()))
				}
				got, _ := get(left).(M)
				got = deepCopyV(got).(M)
				// whether the script itself is still there is left open
				delete(got, "scr")
				if !same(got, want) {
					t.Fail("undone", "after %v the document has %s\nwant %s", p, js(got), js(want))
				}
				t.Nontrivial(fmt.Sprint("undone ", where, len(did), end, did))
			})
			// Known: texts nested so deep that the stack of a decoder overflows, which ends the process
			deepTexts := []struct {
				sig, what string
				text      func() string
			}{
				{"deep-text", "4000000 opening brackets", func() string { return strings.Repeat("[", 4000000) }},
				{"deep-script", "a script with 2000000 opening brackets", func() string { return `{"x": "#//!js\nvar a = ` + strings.Repeat("(", 2000000) + `"}` }},
			}
			r.Group("deep-texts", len(deepTexts), func(t *T) {
				d := deepTexts[t.Idx-(r.next-len(deepTexts))]
				t.Input("%s", d.what)
				file := filepath.Join(r.scratch, "deep.json")
				if err := os.WriteFile(file, []byte(d.text()), 0o600); err != nil {
					panic(err)
				}
				defer os.Remove(file)
				self, err := os.Executable()
				if err != nil {
					panic(err)
				}
				out, err := exec.Command(self, "eval", file).CombinedOutput()
				if strings.Contains(string(out), "stack overflow") {
					t.Fail(d.sig, "the evaluation of %s ended the process: %s", d.what, clip(string(out), 100))
				}
				if err != nil || !strings.HasPrefix(string(out), "ERR:") {
					t.Fail("deep-other", "the evaluation of %s gave %v: %s", d.what, err, clip(string(out), 300))
				}
				t.Nontrivial(d.what)
			})
			r.Group("throws-name-scope", r.N(300, 3000), func(t *T) {
				g := &sgen{gen: gen{t.R, false}}
				body := []string{"throw 'marker';", "throw new Error('marker');", "null.marker;", "(function marker() { nope(); })();", "json.trail.marker.marker = 1;", "throw {toString: function() { return 'marker'; }};"}[g.Intn(6)] + fmt.Sprintf(" // %d", g.Intn(1000))
				doc, scope := g.spot("s", "#//!js\n"+body)
				t.Input("%s", js(doc))
				_, err := evalSafe(t, []byte(js(doc)))
				if err == nil || !strings.Contains(err.Error(), "<"+scope+">") || !strings.Contains(err.Error(), body) {
					t.Fail("error-text", "the error does not name scope %s and the script: %v", scope, err)
				}
				t.Nontrivial("named " + scope + body[:12])
			})
			r.Group("caught", r.N(200, 4000), func(t *T) {
				g := &sgen{gen: gen{t.R, false}}
				body := caughtScripts[t.Idx%len(caughtScripts)]
				inner := g.obj(2)
				want := deepCopyV(inner).(M)
				inner["s 1"] = "#//!js\n" + body
				doc, get, where := g.embed(inner)
				t.Input("%s", js(doc))
				out, err := evalSafe(t, []byte(js(doc)))
				if err != nil {
					t.Fail("caught-error", "%v", err)
				}
				if got := get(parseJSON(out).(M)); !same(got, want) {
					t.Fail("caught-result", "got %s\nwant %s", js(got), js(want))
				}
				t.Nontrivial("caught " + body + where)
			})
			r.Group("language", r.N(300, 4000), func(t *T) {
				g := &sgen{gen: gen{t.R, false}}
				lang := string([]byte{byte('a' + g.Intn(26)), "abcdefghijklmnopqrstuvwxyz0123456789_"[g.Intn(37)]})
				if lang == "js" || lang == "go" {
					lang = "py"
				}
				doc, scope := g.spot("s", "#//!"+lang+"\nprint(1)")
				t.Input("%s", js(doc))
				out, err := evalSafe(t, []byte(js(doc)))
				if err == nil || len(out) != 0 {
					t.Fail("unsupported-language", "language %s: output %q, error %v", lang, out, err)
				}
				if !strings.Contains(err.Error(), lang) {
					t.Fail("unsupported-language-text", "the error does not name the language %s: %v", lang, err)
				}
				t.Nontrivial("language " + lang + scope)
			})
			r.Group("go", r.N(500, 8000), func(t *T) {
				g := &sgen{gen: gen{t.R, false}}
				p := goPanics[t.Idx%len(goPanics)]
				before := 0
				doc, scope := g.spot("s", func(json_map.JsonMapInt) { before++; p.f() })
				t.Input("Go callback that panics (%s) at %s", p.name, scope)
				m := jom.NewFromMap(doc)
				if e := caught(m.Run); e == nil {
					t.Fail("go-no-panic", "a panicking Go callback (%s) was not reported", p.name)
				} else if want := fmt.Sprint(caught(p.f)); p.name != "func" && !strings.Contains(fmt.Sprint(e), want) {
					t.Fail("go-what", "the callback failed with %q, which was reported as %v", want, e)
				}
				if before != 1 {
					t.Fail("go-runs", "the callback ran %d times", before)
				}
				if t.Idx%5 == 0 {
					probe(t)
				}
				t.Nontrivial("go " + p.name + scope)
			})
			r.Group("text", r.N(6000, 200000), func(t *T) {
				g := &sgen{gen: gen{t.R, true}, budget: 3}
				var src []byte
				switch g.Intn(4) {
				case 0:
					src = []byte(js(toReal(g.sobj(3), false, nil)))
				case 1:
					src = []byte(renderHjson(g.gen, g.obj(3), true))
				case 2:
					src = []byte(js(g.arr(3)))
				case 3:
					for k := g.Intn(40); k > 0; k-- {
						src = append(src, []string{"{", "}", "[", "]", ":", ",", "'''", "\"", "'", "a", "1", "-", "\n", " ", "#", "//", "/*", "*/", "\\", "\\u12", "null", "true", "\xff", "\x00", "é", "#//!js\n", "1e999", "0x", "."}[g.Intn(29)]...)
					}
				}
				if g.Intn(10) > 0 {
					src = mutate(t.R, src)
				}
				t.Input("%q", src)
				out, err := evalSafe(t, src)
				if err != nil && len(out) != 0 {
					t.Fail("output-with-error", "error %v, output %q", err, out)
				}
				if err == nil && !json.Valid(out) {
					t.Fail("invalid-output", "output %q is not JSON", out)
				}
				if err != nil {
					t.Nontrivial("text " + regexp.MustCompile(`\d+|'.*'|".*"`).ReplaceAllString(clip(err.Error(), 60), ""))
					t.Count("texts-rejected", 1)
				} else {
					t.Count("texts-accepted", 1)
				}
			})
			deep := []int{10, 100, 1000, 3000}
			List(r, "deep", deep, func(t *T, n int) {
				for _, src := range []string{strings.Repeat(`{"a":`, n) + "1" + strings.Repeat("}", n), `{"a":` + strings.Repeat("[", n) + strings.Repeat("]", n) + "}", strings.Repeat(`[{"k":`, n/2) + `"#//!js\nnope()"` + strings.Repeat("}]", n/2), strings.Repeat("[", n), strings.Repeat(`{"a":`, n)} {
					t.Input("%s", clip(src, 300))
					out, err := evalSafe(t, []byte(src))
					if err != nil && len(out) != 0 {
						t.Fail("output-with-error", "error %v, output %q", err, out)
					}
					if err == nil && !same(parseJSON(out), parseJSON([]byte(src))) {
						t.Fail("deep", "a document %d levels deep came out different", n)
					}
					t.Nontrivial(fmt.Sprint("deep ", n, src[:4]))
				}
			})
		},
	})

	register(&Check{
		ID:     "C23",
		Rule:   "a case is a document whose scripts print random arguments with console.log, console.error and printlnExternal in a known order; everything that is written to either stream is compared with the expected records; non-trivial: at least one record, keyed by scope and kinds of arguments",
		Assume: []string{"numbers of at most five digits, as larger ones are written in an exponent notation", "the column of the call and how objects are written are left open"},
		Run: func(r *Runner) {
			// the name of the calling function may be told, too
			colRe := regexp.MustCompile(`(?m)^((?:Print|Error) call from: )(?:[\w$]+ \()?(.*:\d+):\d+\)?$`)
			r.Group("records", r.N(3000, 60000), func(t *T) {
				g := &sgen{gen: gen{t.R, false}}
				n := 1 + g.Intn(3)
				fails := g.Intn(8) == 0
				inner := M{"v": 1.0}
				doc, _, scope := g.embed(inner)
				var wantOut, wantErr strings.Builder
				var kinds []string
				for s := 0; s < n; s++ {
					var b strings.Builder
					b.WriteString("#//!js\n")
					line := 1
					if g.Intn(3) == 0 {
						// names of the script's own
						b.WriteString("var scopePath = 'fake', trail = {scopePath: 'fake'}, call = 'fake', out = 'fake', $ = 'fake', printed = 'fake', location = 'fake'; ")
					}
					for k := g.Intn(6); k > 0; k-- {
						for g.Intn(3) == 0 {
							b.WriteString("\n")
							line++
						}
						fn, dst, word := "console.log", &wantOut, "Print"
						switch g.Intn(5) {
						case 0, 1:
							fn, dst, word = "console.error", &wantErr, "Error"
						case 2:
							fn = "printlnExternal"
						}
						var args, texts []string
						for a := g.Intn(4); a > 0; a-- {
							p := argPool[g.Intn(len(argPool))]
							if g.Intn(4) == 0 {
								p.text = strings.ReplaceAll(g.spiced(), "CALL", "")
								p.js = jsLit(p.text, "'\""[g.Intn(2)])
							}
							args = append(args, p.js)
							texts = append(texts, strings.ReplaceAll(p.text, "SCOPE", scope))
						}
						way := 0
						if g.Intn(3) == 0 {
							way = 1 + g.Intn(len(callWays)-1)
						}
						b.WriteString(strings.NewReplacer("named", fmt.Sprint("named", line), "FN", fn, "CALL", fn+"("+strings.Join(args, ", ")+")", "ARGS", strings.Join(args, ", ")).Replace(callWays[way]) + "\n")
						fmt.Fprintf(dst, "%s call from: <%s>:%d\n", word, scope, line)
						for _, l := range strings.Split(strings.Join(texts, " "), "\n") {
							fmt.Fprintf(dst, "\t%s\n", l)
						}
						line++
						kinds = append(kinds, fmt.Sprint(fn, args, way))
					}
					if fails && s == n-1 {
						b.WriteString("throw 'end';")
					}
					inner[fmt.Sprintf("s%d", s)] = b.String()
				}
				src := js(doc)
				t.Input("%s", src)
				stdoutBuf.take()
				stderrBuf.take()
				_, err := evalSafe(t, []byte(src))
				if (err != nil) != fails {
					t.Fail("console-error", "%v", err)
				}
				gotOut := colRe.ReplaceAllString(stdoutBuf.take(), "$1$2")
				gotErr := colRe.ReplaceAllString(stderrBuf.take(), "$1$2")
				if gotOut != wantOut.String() {
					t.Fail("console-stdout", "got:\n%s\nwant:\n%s", gotOut, wantOut.String())
				}
				if gotErr != wantErr.String() {
					t.Fail("console-stderr", "got:\n%s\nwant:\n%s", gotErr, wantErr.String())
				}
				t.Count("records", len(kinds))
				if len(kinds) > 0 {
					t.Nontrivial(fmt.Sprint(scope, kinds))
				}
			})
			// long texts, and many lines
			r.Group("long", r.N(90, 1500), func(t *T) {
				g := gen{t.R, false}
				fn := []string{"console.log", "console.error", "printlnExternal"}[t.Idx%3]
				n := []int{1000, 4095, 4096, 4097, 8192, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 300000}[g.Intn(13)]
				unit := []string{"x", "ab", "é", "x\n", "\n", "%d ", "<anonymous>"}[g.Intn(7)]
				text, args := strings.Repeat(unit, n/len(unit)), 1
				call := fmt.Sprintf("var s = new Array(%d).join(%s);", n/len(unit)+1, jsLit(unit, '\''))
				if g.Intn(3) == 0 {
					args = 2 + g.Intn(3)
				}
				call += fmt.Sprintf(" for (var i = 0; i < 2; i++) { %s(%s, 'end'); }", fn, strings.TrimSuffix(strings.Repeat("s, ", args), ", "))
				src := js(M{"s": "#//!js\n" + call})
				t.Input("%s", src)
				stdoutBuf.take()
				stderrBuf.take()
				if _, err := evalSafe(t, []byte(src)); err != nil {
					t.Fail("long-error", "%v", err)
				}
				got, other := colRe.ReplaceAllString(stdoutBuf.take(), "$1$2"), colRe.ReplaceAllString(stderrBuf.take(), "$1$2")
				word := "Print"
				if fn == "console.error" {
					got, other, word = other, got, "Error"
				}
				want := word + " call from: <$>:1\n"
				want += "\t" + strings.ReplaceAll(strings.Repeat(text+" ", args)+"end", "\n", "\n\t") + "\n"
				if other != "" || got != want+want {
					t.Fail("long", "%d bytes were written instead of %d, and %d to the other stream: %s", len(got), 2*len(want), len(other), clip(got, 300))
				}
				t.Nontrivial(fmt.Sprint("long ", fn, n, unit, args))
				t.Count("records", 2)
			})
			// how objects are written is left open, but everything within them has to be in the record
			r.Group("leaves", r.N(1500, 40000), func(t *T) {
				g := gen{t.R, false}
				id := 0
				tokens := map[string]int{}
				token := func() string { id++; return fmt.Sprintf("t%dk", id+100) }
				var val func(d int) string
				val = func(d int) string {
					switch k := g.Intn(8); {
					case d > 0 && k < 3:
						var parts []string
						for n := g.Intn(4); n > 0; n-- {
							key := token()
							tokens[key]++
							parts = append(parts, key+": "+val(d-1))
						}
						return "{" + strings.Join(parts, ", ") + "}"
					case d > 0 && k < 5:
						var parts []string
						for n := g.Intn(5); n > 0; n-- {
							parts = append(parts, val(d-1))
						}
						return "[" + strings.Join(parts, ", ") + "]"
					case k == 5:
						id++
						v := fmt.Sprint(1000 + id)
						tokens[v]++
						return v
					case k == 6 && d < 3:
						return []string{"null", "undefined", "true", "''", "0"}[g.Intn(5)]
					}
					v := token()
					tokens[v]++
					return "'" + v + "'"
				}
				a, b := val(1+g.Intn(4)), val(g.Intn(4))
				twice := g.Intn(3) == 0
				call := fmt.Sprintf("var a = %s; console.log(a, %s);", a, b)
				if twice {
					// an object that is used twice is no circle
					call = fmt.Sprintf("var a = %s; console.log([a, {x: a}], %s); ", a, b)
					re := regexp.MustCompile(`t\d+k|\b1\d\d\d\b`)
					for _, m := range re.FindAllString(a, -1) {
						tokens[m]++
					}
				}
				src := js(M{"s": "#//!js\n" + call})
				t.Input("%s", src)
				stdoutBuf.take()
				if _, err := evalSafe(t, []byte(src)); err != nil {
					t.Fail("leaves-error", "%v", err)
				}
				got := stdoutBuf.take()
				got = got[strings.Index(got, "\n")+1:]
				for k, n := range tokens {
					if c := strings.Count(got, k); c != n {
						t.Fail("leaves", "%s is %d times in the record, want %d:\n%s", k, c, n, got)
					}
				}
				t.Count("leaves", len(tokens))
				if len(tokens) > 1 {
					t.Nontrivial(fmt.Sprint("leaves ", twice, len(tokens), regexp.MustCompile(`\w+`).ReplaceAllString(a+b, "")))
				}
			})
			objects := []string{"{}", "[]", "{a: 1}", "[1, [2], {b: null}]", "function() {}", "new Date(0)", "/x/", "json", "json.trail", "console", "Math", "JSON", "(function() { var o = {}; o.o = o; return o; })()", "(function() { var a = [], b = [a]; a.push(b); return a; })()", "new Error('x')", "NaN", "1/0", "1e300", "1e21", "arguments", "this", "{get a() { return 5; }}", "new String('x')", "Object.create(null)", "json.jsonPathSelector('$.v')", "(function() { var a = {}; for (var i = 0; i < 200; i++) a = {a: a}; return a; })()"}
			List(r, "objects", objects, func(t *T, o string) {
				// how these are written is left open, but a record has to be written, and the evaluation goes on
				for _, fn := range []string{"console.log", "console.error", "printlnExternal"} {
					src := js(M{"v": 1.0, "s": "#//!js\n(function() { " + fn + "('before', " + o + ", 'after'); })(1, 2); json.trail.done = true;"})
					t.Input("%s", src)
					stdoutBuf.take()
					stderrBuf.take()
					out, err := evalSafe(t, []byte(src))
					if err != nil || string(out) != `{"done":true,"v":1}` {
						t.Fail("console-object", "%s of %s: %s, %v", fn, o, out, err)
					}
					a, b := stdoutBuf.take(), stderrBuf.take()
					if fn == "console.error" {
						a, b = b, a
					}
					if b != "" || !strings.Contains(a, "<$>:1:") || !strings.Contains(a, "\tbefore ") || !strings.HasSuffix(a, " after\n") {
						t.Fail("console-object-record", "%s of %s wrote %q", fn, o, a)
					}
					t.Nontrivial(fn + o)
				}
			})
		},
	})

	register(&Check{
		ID:     "C25",
		Rule:   "a case is a random document with scripts, paths and filters whose outcome depends on the order of keys or results; it is evaluated several times, each time with the keys of its source in another order, and the outputs are compared byte for byte; non-trivial: the document evaluated without error, keyed by its shape",
		Assume: []string{"scripts that use the clock or random numbers are left out"},
		Run: func(r *Runner) {
			bodies := []string{
				"var ks = []; for (var k in json.trail) ks.push(k); json.trail.order = ks.join('|');",
				"json.trail.keys = Object.keys(json.trail);",
				"json.trail.text = JSON.stringify(json.trail);",
				"try { json.trail.sel = json.jsonPathSelector('$.*').getValues(); } catch (e) { json.trail.sel = 'error'; }",
				"try { json.trail.rec = json.jsonPathSelector('$..id').getValues(); } catch (e) { json.trail.rec = 'error'; }",
				"try { json.trail.fd = json.jsonPathSelector('$...*').getValues(); } catch (e) { json.trail.fd = 'error'; }",
				"try { json.trail.flt = json.jsonPathSelector('$[?(@)]').getValues(); } catch (e) { json.trail.flt = 'error'; }",
				"try { json.trail.fk = json.jsonPathSelector('$[?(Object.keys(@)[0] < \"m\")]').getValues(); } catch (e) { json.trail.fk = 'error'; }",
				"try { json.trail.fj = json.jsonPathSelector('$.*[?(JSON.stringify(@).length > 6)]').getValues(); } catch (e) { json.trail.fj = 'error'; }",
				"try { json.jsonPathSelector('$..name').setValues({x: [1]}); } catch (e) { json.trail.err = true; }",
				"try { json.jsonPathSelector('$[?(@ && @.id)].id').setValues(null); } catch (e) { json.trail.err2 = true; }",
				"try { json.jsonPathSelector('$.a[?($..b )]').setValues('s'); } catch (e) { json.trail.err3 = true; }",
				"var first; for (var k in json.trail) { first = first || k; } json.trail['first of ' + first] = 1;",
				"json.trail.count = (json.trail.count || 0) * 2 + 1;",
				"json.trail.tail = (json.trail.tail || '') + 'Q';",
				"for (var k in json.trail) { if (json.trail[k] && typeof json.trail[k] === 'object') { json.trail[k].seen = k; break; } }",
				"if (json.trail.a === undefined) { json.trail.a = []; } else { delete json.trail.a; }",
				"if (typeof g === 'undefined') { g = 1; } else { g++; } json.trail.g = g;",
				"Object.prototype.z = 1; Array.prototype.y = 2;",
				"console.log(json.scopePath);", "console.log(json.trail); console.error(json.scopePath);",
				"console.error(Object.keys(json.trail).length);",
				"try { json.jsonPathSelector('$.*.*').setValues(7); } catch (e) { console.log(e.message); }",
			}
			failing := []string{
				"#//!js\njson.jsonPathSelector('$.*.id').setValues(1);", "#//!js\njson.jsonPathSelector('$..a.b').setValues({q: 2});", "#//!js\njson.jsonPathSelector('$.*.id').getValues();",
				"#//!js\nif (json.scopePath.length > 4) throw json.scopePath;", "#//!js\njson.trail.k.k.k = 1;", "#//!js\nsyntax error", "#//!py\nprint(1)", "#//!rb\nputs 1",
			}
			for i, b := range bodies {
				// selections include the text of the scripts, which have to be the same whatever the order; they are
				bodies[i] = "#//!js\n" + b
			}
			permute := func(t *T, v interface{}) string {
				var b strings.Builder
				var w func(v interface{})
				w = func(v interface{}) {
					switch x := v.(type) {
					case M:
						ks := keysOf(x)
						t.R.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
						b.WriteString("{")
						for i, k := range ks {
							if i > 0 {
								b.WriteString(", ")
							}
							b.WriteString(js(k) + ": ")
							w(x[k])
						}
						b.WriteString("}")
					case A:
						b.WriteString("[")
						for i, e := range x {
							if i > 0 {
								b.WriteString(", ")
							}
							w(e)
						}
						b.WriteString("]")
					default:
						b.WriteString(js(v))
					}
				}
				w(v)
				return b.String()
			}
			r.Group("permutations", r.N(1500, 30000), func(t *T) {
				g := gen{t.R, false}
				var addTo func(v interface{})
				n := 0
				fails := g.Intn(4) == 0
				addTo = func(v interface{}) {
					switch x := v.(type) {
					case M:
						for _, k := range keysOf(x) {
							addTo(x[k])
						}
						for k := g.Intn(3); k > 0 && n < 10; k-- {
							n++
							key := fmt.Sprintf("%s%d", []string{"s", "S", "_", "a"}[g.Intn(4)], g.Intn(30))
							x[key] = bodies[g.Intn(len(bodies))]
							if fails && g.Intn(2) == 0 {
								x[key] = failing[g.Intn(len(failing))]
							}
						}
					case A:
						for _, e := range x {
							addTo(e)
						}
					}
				}
				var doc interface{} = g.doc()
				for tries := 0; n == 0 && tries < 20; tries++ {
					addTo(doc)
				}
				if g.Intn(6) == 0 {
					doc = A{doc, g.value(2)}
				}
				src := permute(t, doc)
				t.Input("%s", src)
				stdoutBuf.take()
				stderrBuf.take()
				out, err := evalSafe(t, []byte(src))
				printed, printedErr := stdoutBuf.take(), stderrBuf.take()
				for k := 0; k < 4; k++ {
					src2 := permute(t, doc)
					out2, err2 := evalSafe(t, []byte(src2))
					if fmt.Sprint(err) != fmt.Sprint(err2) || string(out) != string(out2) {
						t.Fail("not-a-function", "the same document evaluates to\n%s (%v)\nand, from %s, to\n%s (%v)", out, err, src2, out2, err2)
					}
					if p, e := stdoutBuf.take(), stderrBuf.take(); p != printed || e != printedErr {
						t.Fail("prints-differ", "the same document prints\n%s%s\nand, from %s,\n%s%s", printed, printedErr, src2, p, e)
					}
				}
				if printed+printedErr != "" {
					t.Count("evaluations-with-prints", 1)
				}
				if err != nil {
					t.Count("evaluations-with-errors", 1)
				}
				if err == nil {
					t.Nontrivial(src)
				}
				t.Count("evaluations", 5)
			})
			r.Group("go", r.N(800, 15000), func(t *T) {
				g := gen{t.R, false}
				doc := g.anyDoc()
				// each callback gets and sets through paths of its own, some of which cannot be followed everywhere
				type cb struct {
					place []int // which scope, counted modulo the number of scopes
					key   string
					p, q  pathT
					v     interface{}
				}
				var cbs []cb
				var desc []string
				for k := 1 + g.Intn(4); k > 0; k-- {
					c := cb{[]int{g.Intn(50)}, fmt.Sprintf("cb%d", k), g.path(doc, 4), g.path(doc, 4), g.value(1)}
					if g.Intn(2) == 0 {
						c.q = append(pathT{{kind: sWildDot}}, c.q...)
					}
					cbs = append(cbs, c)
					desc = append(desc, fmt.Sprintf("%d/%s: %s %s=%s", c.place[0], c.key, c.p.render(), c.q.render(), js(c.v)))
				}
				t.Input("doc=%s callbacks %s", js(doc), strings.Join(desc, "; "))
				run := func() string {
					var trace strings.Builder
					d := shuffledCopy(g, doc).(M)
					scopes := scopesOf(d)
					for _, c := range cbs {
						c := c
						scopes[c.place[0]%len(scopes)][c.key] = func(m json_map.JsonMapInt) {
							nodes, err := m.JsonPathSelector(c.p.render())
							fmt.Fprintf(&trace, "%s at %s: ", c.key, m.GetCurrentScopePath())
							if err != nil {
								fmt.Fprintf(&trace, "error %v", err)
							}
							for _, n := range nodes {
								if s, ok := plain(n.Value); ok {
									trace.WriteString(s + " ")
								} else {
									trace.WriteString("(callback) ")
								}
							}
							if err := m.JsonPathSetter(c.q.render(), c.v); err != nil {
								fmt.Fprintf(&trace, " set: %v", err)
							}
							trace.WriteString("\n")
						}
					}
					m := jom.NewFromMap(d)
					if p := caught(m.Run); p != nil {
						fmt.Fprintf(&trace, "failed: %v", p)
					}
					if s, ok := plain(*m.GetInsides()); ok {
						trace.WriteString(s)
					}
					return addrRe.ReplaceAllString(trace.String(), "0x")
				}
				first := run()
				for k := 0; k < 4; k++ {
					if again := run(); again != first {
						t.Fail("go-not-a-function", "%s\nand\n%s", first, again)
					}
				}
				t.Nontrivial("go " + first)
			})
		},
	})
}

var addrRe = regexp.MustCompile(`0x[0-9a-f]+`)

// plain gives the JSON of a value, unless there are callbacks in it.
func plain(v interface{}) (string, bool) {
	b, err := json.Marshal(v)
	return string(b), err == nil
}

// scopesOf lists all objects within a value, in the order of keys and indices.
func scopesOf(v interface{}) (out []M) {
	switch x := v.(type) {
	case M:
		out = append(out, x)
		for _, k := range keysOf(x) {
			out = append(out, scopesOf(x[k])...)
		}
	case A:
		for _, e := range x {
			out = append(out, scopesOf(e)...)
		}
	}
	return
}
