package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/andygello555/json-dom/globals"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
)

// loops never end by themselves.
var loops = []string{
	"var o = {}; for (var i = 0; i < 40; i++) o = {a: o, b: o}; console.log(o);",
	"while (true) {}", "for (;;) {}", "do {} while (1);", "while (true) ;", "for (;;) ;", "a: while (true) { continue a; }", "a: for (;;) { for (;;) { continue a; } }", "for (var i = 0; i < 10;) { }", "var i = 0; while (i < 1) { i--; i++; }",
	"while (true) { try { throw 1; } catch (e) {} }", "try { while (true) {} } catch (e) { json.trail.swallowed = true; }", "try { while (true) {} } finally { json.trail.f = 1; }", "try { while (true) {} } finally { while (true) {} }", "while (true) { try { while (true) {} } catch (e) {} }",
	"[1].forEach(function() { while (true) {} });", "[2, 1].sort(function() { while (true) {} });", "'a'.replace(/a/, function() { while (true) {} });", "JSON.parse('[1]', function() { while (true) {} });", "JSON.stringify([1], function(k, v) { while (true) {} });",
	"'' + {toString: function() { while (true) {} }};", "1 * {valueOf: function() { while (true) {} }};", "Object.defineProperty({}, 'g', {get: function() { while (true) {} }}).g;",
	"json.trail.toJSON = function() { while (true) {} };", "Object.defineProperty(json.trail, 'g', {enumerable: true, get: function() { while (true) {} }});", "json.trail.x = {toJSON: function() { for (;;) {} }};",
	"eval('while (true) { 1; }');", "new Function('while (true) { 1; }')();", "json.trail.constructor.constructor('while (true) { 1; }')();", "[].concat.constructor('for (;;) { 1; }')();", "json.trail.v.constructor.constructor('while (true) { 1; }')();", "(function() {}).constructor('while (true) { 1; }')();", "json.jsonPathSelector('$.v').getValues().constructor.constructor('while (true) { 1; }')();", "json.jsonPathSelector('$.v')._absolutePaths.constructor.constructor('while (true) { 1; }')();", "console.log.constructor('while (true) { 1; }')();",
	"a: while (true) {}", "a: for (;;) {}", "a: b: for (;;) {}", "a: do {} while (true);", "try { throw 1; } catch (e) { for (;;) {} }", "try { } finally { for (;;) {} }", "if (false) { } else { for (;;) {} }", "do { for (;;) {} } while (false);", "for (var i = 0; i < 1; i++) for (;;) {}", "for (var k in {a: 1}) do {} while (true);", "with ({}) for (;;);", "switch (2) { case 1: break; default: for (;;) {} }", "{ { for (;;) {} } }", "function f() { for (;;) {} } f();", "var f = function() { for (;;) {} }; f();", "({f: function() { for (;;) {} }}).f();", "({get f() { for (;;) {} }}).f;", "new (function() { for (;;) {} })();", "var x = true ? (function() { for (;;) {} })() : 0;", "[0, (function() { for (;;) {} })()];", "x = {p: (function() { for (;;) {} })()};", "(function() { return (function() { for (;;) {} })(); })();", "throw (function() { for (;;) {} })();", "(0, function() { for (;;) {} })();", "1 + (function() { for (;;) {} })();", "!(function() { for (;;) {} })();", "({})[(function() { for (;;) {} })()];", "json.trail[(function() { for (;;) {} })()] = 1;", "while ((function() { for (;;) {} })()) { }", "for ((function() { for (;;) {} })();;) { break; }", "for (; (function() { for (;;) {} })();) { }", "for (;; (function() { for (;;) {} })()) { }", "for (var k in (function() { for (;;) {} })()) { }", "if ((function() { for (;;) {} })()) { }", "switch ((function() { for (;;) {} })()) { }", "switch (1) { case (function() { for (;;) {} })(): }", "with ((function() { for (;;) {} })()) { }", "var a = 1, b = (function() { for (;;) {} })();", "json.trail.v += (function() { for (;;) {} })();", "(function(f) { f(); })(function() { for (;;) {} });", "try { (function() { for (;;) {} })(); } catch (e) { }",
	"json.jsonPathSelector('$.v').setValues(2); json.trail.v.constructor.constructor('while (true) { 1; }')();",
	"while (true) { json.jsonPathSelector('$.v').getValues(); }", "while (true) { json.jsonPathSelector('$.v').setValues(1); }", "while (true) { try { json.jsonPathSelector('$.nope').getValues(); } catch (e) {} }", "while (true) { try { nope(); } catch (e) {} }",
	"json.jsonPathSelector('$.v').setValues({toJSON: function() { while (true) {} }});", "json.jsonPathSelector({toString: function() { while (true) {} }} + '');",
	"var o = {}; while (!o.stop) { o.n = (o.n || 0) + 1; }", "function f(n) { return n > 0 ? f(n - 1) : 0; } while (true) { f(10); }", "for (var k in {a: 1}) { while (true) {} }", "with ({}) { while (true) {} }", "switch (1) { case 1: while (true) {} }", "if (true) { for (;;) { if (false) break; } }",
	"while (true) { (function f() { try { f(); } catch (e) {} })(); }", "while (true) { new Date(); Math.random(); }", "while (true) { eval('1'); }",
}

// endless ends only because evaluation runs out of something else: it has to be an error, and it must not take the process down.
var endless = []string{
	"(function f() { f(); })();", "(function f() { return f() + 1; })();", "function a() { b(); } function b() { a(); } a();", "var o = {get x() { return this.x; }}; o.x;", "var o = {toString: function() { return '' + this; }}; '' + o;",
	"(function f() { [1].forEach(f); })();", "(function f() { eval('f()'); })();", "(function f() { try { f(); } finally { f(); } })();", "(function f() { new f(); })();", "(function f() { f.call(f); })();", "(function f() { f.apply(f, []); })();", "json.trail.toJSON = function() { return this.toJSON(); };", "(function f() { JSON.stringify({toJSON: f}); })();", "(function f() { 'a'.replace(/a/, f); })();",
}

const busyJS = "(function() { var t = Date.now(); while (Date.now() - t < %d) {} })();"

// delays watches how late a goroutine that sleeps shortly is woken up, until the returned function is called, which gives
// the longest delay.
func delays() func() time.Duration {
	stop, worst := make(chan bool), make(chan time.Duration)
	go func() {
		var w time.Duration
		for {
			select {
			case <-stop:
				worst <- w
				return
			default:
			}
			start := time.Now()
			time.Sleep(5 * time.Millisecond)
			if late := time.Since(start) - 5*time.Millisecond; late > w {
				w = late
			}
		}
	}()
	return func() time.Duration {
		stop <- true
		return <-worst
	}
}

func init() {
	slow := 1500 * time.Millisecond
	// stopped runs f, which gives an error text of something that was stopped, until that happens in time. It gives the last
	// text. Tries count as late only as long as the process itself was run, unless that never happens.
	stopped := func(t *T, limit time.Duration, f func() string) string {
		late := 0
		for try := 0; ; try++ {
			worst := delays()
			start := time.Now()
			text := f()
			took := time.Since(start)
			starved := worst() > 120*time.Millisecond && try < 8
			if took < limit-100*time.Millisecond {
				t.Fail("too-early", "halted after %v, with a limit of %v", took, limit)
			}
			if took < limit+slow {
				return text
			}
			t.Input("%s", t.input)
			if starved {
				t.Inconclusive("starved while it ran, and was repeated")
				time.Sleep(time.Second)
				continue
			}
			if late++; late == 3 {
				t.Fail("too-late", "halted after %v, with a limit of %v, three times in a row: %s", took, limit, text)
			}
		}
	}
	register(&Check{
		ID:     "C14",
		Shards: 14,
		Stall:  25 * time.Second,
		Rule:   "a case is a document or path with a script, Go callback or filter that never ends (kinds x places), or with scripts that together, but not each, take longer than the limit; the monitor checks that evaluation comes back with the halting error naming scope and script, that it does so near the limit, and that nothing else is interrupted; non-trivial: all, keyed by kind and place",
		Assume: []string{"the limit is set to 1 s (2 s in some cases); coming back within the limit plus 1.5 s counts as in time, and a late return has to repeat 3 times while the process itself is not starved", "of scripts that spend their time within a single call of a builtin only the known finding is run; scripts that exhaust memory are left out"},
		Run: func(r *Runner) {
			globals.HaltingDelay = 1
			places := []string{"$", "$.in.ner", "$.l.[1]", "$.l.[0].[0]", "second"}
			put := func(place, script string) (string, string) {
				inner := M{"v": 1.0, "s": "#//!js\n" + script}
				switch place {
				case "$":
					return js(inner), "$"
				case "$.in.ner":
					return js(M{"in": M{"ner": inner}}), place
				case "$.l.[1]":
					return js(M{"l": A{1.0, inner}}), place
				case "$.l.[0].[0]":
					return js(M{"l": A{A{inner}}}), place
				}
				inner["a first"] = "#//!js\njson.trail.w = json.jsonPathSelector('$.v').getValues(); json.jsonPathSelector('$.v').setValues(3);"
				return js(M{"x": inner}), "$.x"
			}
			// every loop in one place, and a few of them in every place
			type lc struct{ body, place string }
			var cases []lc
			for i, l := range loops {
				cases = append(cases, lc{l, places[i%len(places)]})
				if r.Thorough() {
					for _, p := range places {
						if p != places[i%len(places)] {
							cases = append(cases, lc{l, p})
						}
					}
				}
			}
			List(r, "loops", cases, func(t *T, c lc) {
				src, scope := put(c.place, c.body)
				t.Input("%s", src)
				limit := 1
				if t.Idx%8 == 5 {
					limit = 2
				}
				globals.HaltingDelay = limit
				defer func() { globals.HaltingDelay = 1 }()
				stopped(t, time.Duration(limit)*time.Second, func() string {
					out, err := evalSafe(t, []byte(src))
					if err == nil {
						t.Fail("not-halted", "evaluated to %s", out)
					}
					if len(out) != 0 {
						t.Fail("halting-output", "output %q with error %v", out, err)
					}
					if !strings.Contains(err.Error(), "(-1)") || !strings.Contains(err.Error(), "<"+scope+">") || !strings.Contains(err.Error(), c.body) {
						t.Fail("halting-error", "the error is not a halting error naming scope %s and the script: %v", scope, err)
					}
					return err.Error()
				})
				globals.HaltingDelay = 1
				probe(t)
				stdoutBuf.take()
				t.Nontrivial(fmt.Sprint("loop ", c.body, c.place))
				t.Count("halted", 1)
			})
			List(r, "endless", endless, func(t *T, body string) {
				src, _ := put(places[t.Idx%len(places)], body)
				t.Input("%s", src)
				out, err := evalSafe(t, []byte(src))
				if err == nil || len(out) != 0 {
					t.Fail("endless", "evaluated to %q, %v", out, err)
				}
				probe(t)
				t.Nontrivial("endless " + body)
				t.Count("recursions-stopped", 1)
			})
			filters := []string{"(function() { while (true) {} })()", "(function() { for (;;) {} })() || @", "[1].some(function() { while (true) {} })", "@.constructor.constructor('while (true) { 1; }')()", "(function f() { return f(); })()", "(function() { try { while (true) {} } catch (e) {} while (true) {} })()"}
			List(r, "filters", filters, func(t *T, f string) {
				for k := 0; k < 3; k++ {
					m := jom.NewFromMap(M{"a": A{M{"x": 1.0}, 2.0}, "o": M{"p": M{}, "q": 1.0}})
					path := []string{"$.a[?(" + f + ")]", "$.o[?(" + f + ")]", "$.a[?(" + f + ")].x"}[k]
					t.Input("%s", path)
					var err error
					try := func() string {
						if k == 1 {
							err = m.JsonPathSetter(path, 5.0)
						} else {
							_, err = m.JsonPathSelector(path)
						}
						if err == nil {
							t.Fail("filter-not-halted", "%s was evaluated", path)
						}
						return err.Error()
					}
					if strings.Contains(f, "f()") {
						try()
					} else if text := stopped(t, time.Second, try); !strings.Contains(text, "(-1)") {
						t.Fail("filter-halting-error", "the error is not a halting error: %v", err)
					}
					// within a script
					if k == 0 {
						out, err := evalSafe(t, []byte(js(M{"a": A{M{}}, "s": "#//!js\njson.jsonPathSelector(" + jsLit(path, '"') + ").getValues();"})))
						if err == nil {
							t.Fail("script-filter-not-halted", "evaluated to %s", out)
						}
					}
					t.Nontrivial(path)
					t.Count("filters-halted", 1)
				}
			})
			callbacks := []struct {
				name string
				f    func(json_map.JsonMapInt)
			}{
				{"select", func(json_map.JsonMapInt) { select {} }},
				{"channel", func(json_map.JsonMapInt) { <-make(chan int) }},
				{"mutex", func(json_map.JsonMapInt) { var mu sync.Mutex; mu.Lock(); mu.Lock() }},
				{"sleep", func(json_map.JsonMapInt) { time.Sleep(time.Hour) }},
				{"loop", func(json_map.JsonMapInt) {
					for {
						time.Sleep(time.Millisecond)
					}
				}},
			}
			List(r, "callbacks", callbacks, func(t *T, c struct {
				name string
				f    func(json_map.JsonMapInt)
			}) {
				t.Input("Go callback %s", c.name)
				for _, doc := range []M{{"s": c.f}, {"in": M{"l": A{M{"s": c.f}}}}} {
					for limit := 1; limit <= 2; limit++ {
						globals.HaltingDelay = limit
						stopped(t, time.Duration(limit)*time.Second, func() string {
							p := caught(jom.NewFromMap(doc).Run)
							if p == nil || !strings.Contains(fmt.Sprint(p), "(-1)") {
								t.Fail("callback-not-halted", "a callback that never ends gave %v", p)
							}
							return fmt.Sprint(p)
						})
					}
					globals.HaltingDelay = 1
				}
				t.Nontrivial("callback " + c.name)
				t.Count("callbacks-halted", 2)
			})
			// Not halting: none of these takes longer than the limit
			type quiet struct {
				name string
				f    func(t *T) error
			}
			evalIs := func(t *T, doc M, want string) error {
				out, err := evalSafe(t, []byte(js(doc)))
				if err != nil {
					return err
				}
				if string(out) != want {
					t.Fail("interrupted-result", "got %s, want %s", out, want)
				}
				return nil
			}
			quiets := []quiet{
				{"many scripts of one scope", func(t *T) error {
					d, want := M{}, M{}
					for i := 0; i < 8; i++ {
						d[fmt.Sprint("s", i)] = "#//!js\n" + fmt.Sprintf(busyJS, 220) + fmt.Sprintf("json.trail.r%d = %d;", i, i)
						want[fmt.Sprint("r", i)] = float64(i)
					}
					return evalIs(t, d, js(want))
				}},
				{"scripts of many scopes", func(t *T) error {
					var l, want A
					for i := 0; i < 8; i++ {
						l = append(l, M{"s": "#//!js\n" + fmt.Sprintf(busyJS, 220) + "json.trail.r = 1;"})
						want = append(want, M{"r": 1.0})
					}
					return evalIs(t, M{"l": l}, js(M{"l": want}))
				}},
				{"the timer of one script expires within the next", func(t *T) error {
					return evalIs(t, M{"a": "#//!js\n" + fmt.Sprintf(busyJS, 600), "b": "#//!js\n" + fmt.Sprintf(busyJS, 600) + "json.trail.r = 1;", "n": M{"c": "#//!js\n" + fmt.Sprintf(busyJS, 600) + "json.trail.r = 2;"}}, `{"n":{"r":2},"r":1}`)
				}},
				{"timers of earlier evaluations", func(t *T) error {
					end := time.Now().Add(2500 * time.Millisecond)
					for n := 0; time.Now().Before(end) && n < 200; n++ {
						if err := evalIs(t, M{"s": "#//!js\n" + fmt.Sprintf(busyJS, 20) + "json.trail.r = 1;"}, `{"r":1}`); err != nil {
							return err
						}
					}
					return nil
				}},
				{"filter on many nodes", func(t *T) error {
					m := jom.NewFromMap(M{"a": A{1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0}})
					v, err := m.JsonPathSelector("$.a[?((function() { var t = Date.now(); while (Date.now() - t < 220) {} return @ > 2; })())]")
					if err == nil && len(v) != 5 {
						t.Fail("filter-interrupted-result", "%d values", len(v))
					}
					return err
				}},
				{"filter on the values of an object, set", func(t *T) error {
					m := jom.NewFromMap(M{"a": M{"p": 1.0, "q": 2.0, "r": 3.0, "s": 4.0, "t": 5.0, "u": 6.0}})
					err := m.JsonPathSetter("$.a[?((function() { var t = Date.now(); while (Date.now() - t < 240) {} return @ > 2; })())]", 0.0)
					if err == nil && !same((*m.GetInsides())["a"], M{"p": 1.0, "q": 2.0, "r": 0.0, "s": 0.0, "t": 0.0, "u": 0.0}) {
						t.Fail("filter-interrupted-result", "%s", js(*m.GetInsides()))
					}
					return err
				}},
				{"a filter before a big node", func(t *T) error {
					big := A{}
					for i := 0; i < 120000; i++ {
						big = append(big, M{"k": "xxxxxxxxxxxxxxxxxxxxxxxxxxx", "v": float64(i)})
					}
					m := jom.NewFromMap(M{"a": A{1.0, big}})
					v, err := m.JsonPathSelector("$.a[?(@ != 1 || (function() { var t = Date.now(); while (Date.now() - t < 800) {} return true; })())]")
					if err == nil && len(v) != 2 {
						t.Fail("filter-interrupted-result", "%d values", len(v))
					}
					return err
				}},
				{"Go callbacks", func(t *T) error {
					d := M{}
					var n int32
					for i := 0; i < 6; i++ {
						d[fmt.Sprint("s", i)] = func(m json_map.JsonMapInt) {
							time.Sleep(300 * time.Millisecond)
							atomic.AddInt32(&n, 1)
							m.MustSet("$.r", 1.0)
						}
					}
					m := jom.NewFromMap(d)
					if p := caught(m.Run); p != nil {
						return fmt.Errorf("%v", p)
					}
					if n != 6 || !same(*m.GetInsides(), M{"r": 1.0}) {
						t.Fail("callbacks-interrupted-result", "%d callbacks ran, %s", n, js(*m.GetInsides()))
					}
					return nil
				}},
				{"concurrent evaluations", func(t *T) error {
					errs := make(chan error, 4)
					for i := 0; i < 4; i++ {
						go func(i int) {
							d := M{"n": M{"s": "#//!js\n" + fmt.Sprintf(busyJS, 150)}, "a": "#//!js\n" + fmt.Sprintf(busyJS, 150) + "json.trail.r = 1;", "b": "#//!js\njson.trail.q = json.trail.r + 1;"}
							out, err := jom.Eval([]byte(js(d)), false)
							if err == nil && string(out) != `{"n":{},"q":2,"r":1}` {
								err = fmt.Errorf("wrong result %s", out)
							}
							errs <- err
						}(i)
					}
					var first error
					for i := 0; i < 4; i++ {
						if err := <-errs; err != nil {
							first = err
						}
					}
					return first
				}},
				{"a halted evaluation next to one that is not", func(t *T) error {
					done := make(chan error, 1)
					go func() {
						_, err := jom.Eval([]byte(js(M{"s": "#//!js\nwhile (true) {}"})), false)
						done <- err
					}()
					var res error
					for i := 0; i < 6; i++ {
						if err := evalIs(t, M{"s": "#//!js\n" + fmt.Sprintf(busyJS, 230) + "json.trail.r = 1;"}, `{"r":1}`); err != nil {
							res = err
						}
					}
					if err := <-done; err == nil || !strings.Contains(err.Error(), "(-1)") {
						t.Fail("not-halted", "an endless script next to others gave %v", err)
					}
					return res
				}},
				{"long scripts", func(t *T) error {
					pad := "/*" + strings.Repeat(" x", 150000) + "*/"
					return evalIs(t, M{"a": "#//!js\n" + pad + fmt.Sprintf(busyJS, 400) + pad + "json.trail.r = 1;", "n": M{"k": strings.Repeat("y", 300000), "b": "#//!js\n" + fmt.Sprintf(busyJS, 500) + "json.trail.k = 2;"}}, `{"n":{"k":2},"r":1}`)
				}},
				{"a limit of two seconds", func(t *T) error {
					globals.HaltingDelay = 2
					defer func() { globals.HaltingDelay = 1 }()
					return evalIs(t, M{"s": "#//!js\n" + fmt.Sprintf(busyJS, 1300) + "json.trail.r = 1;"}, `{"r":1}`)
				}},
				{"a limit of two seconds, Go", func(t *T) error {
					globals.HaltingDelay = 2
					defer func() { globals.HaltingDelay = 1 }()
					m := jom.NewFromMap(M{"s": func(m json_map.JsonMapInt) { time.Sleep(1300 * time.Millisecond); m.MustSet("$.r", 1.0) }})
					if p := caught(m.Run); p != nil {
						return fmt.Errorf("%v", p)
					}
					if !same(*m.GetInsides(), M{"r": 1.0}) {
						t.Fail("interrupted-result", "%s", js(*m.GetInsides()))
					}
					return nil
				}},
			}
			List(r, "not-halting", quiets, func(t *T, q quiet) {
				t.Input("%s", q.name)
				var errs []string
				for try, starved := 0, 0; len(errs) < 5; try++ {
					worst := delays()
					err := q.f(t)
					if late := worst(); err == nil {
						errs = nil
						break
					} else if late > 120*time.Millisecond && starved < 8 {
						// the process itself was not run for long, so that what took long says nothing
						starved++
						t.Inconclusive("starved while it ran, and was repeated")
						t.Input("%s", q.name)
						time.Sleep(time.Second)
						continue
					}
					errs = append(errs, err.Error())
					if try > 1 {
						// the machine may be starved at the moment
						t.Input("%s", q.name)
						time.Sleep(2 * time.Second)
					}
				}
				if len(errs) == 5 {
					t.Fail("interrupted", "%s: ended with an error although nothing took too long, five times in a row: %s", q.name, strings.Join(errs, "; "))
				}
				stdoutBuf.take()
				t.Nontrivial("quiet " + q.name)
				t.Count("not-halting", 1)
			})
			// Known: an empty loop within source that the script itself hands to eval or Function
			inEval := []string{"eval('while (true) {}');", "new Function('for (;;) {}')();", "json.trail.constructor.constructor('do {} while (true)')();"}
			List(r, "empty-loop-in-eval", inEval, func(t *T, body string) {
				src := js(M{"s": "#//!js\n" + body})
				t.Input("%s", src)
				done := make(chan error, 1)
				go func() {
					_, err := jom.Eval([]byte(src), false)
					done <- err
				}()
				select {
				case err := <-done:
					if err == nil || !strings.Contains(err.Error(), "(-1)") {
						t.Fail("not-halted", "an endless script gave %v", err)
					}
					t.Nontrivial(body)
				case <-time.After(8 * time.Second):
					t.Fail("empty-loop-in-eval", "an empty loop within evaluated source was not halted after 8 s with a limit of 1 s")
				}
			})
			// Known: one call of a builtin that takes long
			List(r, "builtin-call", []string{"Array.prototype.indexOf.call({length: 100000000}, 1);"}, func(t *T, body string) {
				src := js(M{"s": "#//!js\n" + body})
				t.Input("%s", src)
				done := make(chan bool, 1)
				go func() {
					jom.Eval([]byte(src), false)
					done <- true
				}()
				select {
				case <-done:
				case <-time.After(4 * time.Second):
					t.Fail("builtin-call", "a call of a builtin was not interrupted for 4 s with a limit of 1 s")
				}
				t.Nontrivial(body)
			})
		},
	})

	register(&Check{
		ID:     "C17",
		Shards: 8,
		Rule:   "a case is a batch of evaluations, queries and sets of one kind (also failing and halting ones), after which the number of goroutines of the process has to come back to what it was; non-trivial: the batch started goroutines (the number was seen to rise), keyed by kind and batch",
		Assume: []string{"the limit on running time is set to 1 s; goroutines get 30 s to end after the batch", "Go callbacks that never end are left out (the documentation says that their goroutine stays)"},
		Run: func(r *Runner) {
			globals.HaltingDelay = 1
			kinds := []string{"eval", "eval-errors", "query", "query-errors", "filter", "filter-errors", "set", "callbacks", "callback-panics", "halting", "halting-filter", "late-callbacks", "nodeset", "mixed"}
			do := func(t *T, g *sgen, kind string) {
				if kind == "mixed" {
					kind = kinds[g.Intn(9)]
				}
				switch kind {
				case "eval":
					g.budget = 5
					jom.Eval([]byte(js(toReal(g.sobj(3), false, nil))), false)
				case "eval-errors":
					doc, _ := g.spot("s", "#//!js\n"+errorScripts[g.Intn(len(errorScripts))])
					jom.Eval([]byte(js(doc)), false)
				case "query":
					doc := g.anyDoc()
					jm(doc).JsonPathSelector(g.path(doc, 5).render())
				case "query-errors":
					jm(g.anyDoc()).JsonPathSelector([]string{"$[0,1,2].x", "$.nope[1,2,3]", "$[0,1][2,3][4,5]", "x"}[g.Intn(4)])
				case "filter":
					jm(M{"a": g.arr(2), "b": g.arr(1)}).JsonPathSelector("$.a[?(@ && $.b )]")
				case "filter-errors":
					jm(M{"a": A{1.0, 2.0}}).JsonPathSelector([]string{"$.a[?(nope)]", "$.a[?(@.x.y)]", "$.a[0,1][?(1)]", "$.a[?(]"}[g.Intn(4)])
				case "set":
					doc := g.anyDoc()
					jm(doc).JsonPathSetter(g.path(doc, 5).render(), g.value(1))
				case "callbacks":
					g.budget = 5
					jom.NewFromMap(toReal(g.sobj(3), true, func(event) {}).(M)).Run()
				case "callback-panics":
					m := jom.NewFromMap(M{"s": func(json_map.JsonMapInt) { goPanics[g.Intn(len(goPanics))].f() }})
					caught(m.Run)
				case "halting":
					jom.Eval([]byte(js(M{"s": "#//!js\n" + loops[g.Intn(3)], "v": 1.0})), false)
				case "halting-filter":
					jm(M{"a": A{1.0}}).JsonPathSelector("$.a[?((function() { while (true) {} })())]")
				case "late-callbacks":
					m := jom.NewFromMap(M{"s": func(json_map.JsonMapInt) { time.Sleep(1500 * time.Millisecond) }})
					caught(m.Run)
				case "nodeset":
					jom.Eval([]byte(js(M{"a": g.arr(2), "s": "#//!js\nfor (var i = 0; i < 5; i++) { json.jsonPathSelector('$.a').getValues(); json.jsonPathSelector('$.a[?(@)]').setValues(i); }"})), false)
				}
			}
			r.Group("batches", r.N(len(kinds)*4, len(kinds)*60), func(t *T) {
				kind := kinds[t.Idx%len(kinds)]
				g := &sgen{gen: gen{t.R, false}}
				n := 60
				if strings.HasPrefix(kind, "halting") || kind == "late-callbacks" {
					n = 3
				}
				t.Input("%d x %s", n, kind)
				// wait until what was left running by earlier cases has ended
				settle := func(max int) int {
					low, since := runtime.NumGoroutine(), time.Now()
					for time.Since(since) < 30*time.Second {
						now := runtime.NumGoroutine()
						if now <= max {
							return now
						}
						if now < low {
							low = now
						}
						time.Sleep(20 * time.Millisecond)
					}
					return low
				}
				base := settle(baseGoroutines)
				if base > baseGoroutines {
					baseGoroutines = base // left by an earlier case, which reported it
				}
				var wg sync.WaitGroup
				peak := base
				for i := 0; i < n; i++ {
					if n == 3 {
						wg.Add(1)
						seed := t.R.Int63()
						go func() { defer wg.Done(); h := &sgen{gen: gen{newRand(seed), false}}; do(t, h, kind) }()
						continue
					}
					do(t, g, kind)
					if now := runtime.NumGoroutine(); now > peak {
						peak = now
					}
				}
				if now := runtime.NumGoroutine(); now > peak {
					peak = now
				}
				wg.Wait()
				stdoutBuf.take()
				stderrBuf.take()
				if left := settle(base); left > base {
					buf := make([]byte, 1<<16)
					buf = buf[:runtime.Stack(buf, true)]
					baseGoroutines = left
					t.Fail("leak", "%d goroutines before, %d are left 30 s after %d x %s\n%s", base, left, n, kind, clip(string(buf), 3000))
				}
				t.Count("goroutines-at-peak", peak-base)
				if peak > base {
					t.Nontrivial(fmt.Sprint(kind, t.Idx))
				}
			})
		},
	})

	register(&Check{
		ID:     "C15",
		Shards: 4,
		Stall:  120 * time.Second,
		Rule:   "a case is a set of independent jobs (evaluations with scripts, NodeSets, filters, errors and Go callbacks; queries, sets, clones), run one after the other and then at the same time by 2 to 8 goroutines, under the race detector; outcomes have to be the same and no data race may be reported; non-trivial: all, keyed by the kinds of jobs",
		Assume: []string{"the race detector sees the races of the schedules that happened, not of all schedules", "documents are not shared between jobs, except for queries of one document, which do not change it"},
		Run: func(r *Runner) {
			globals.HaltingDelay = 20
			if os.Getenv("VH_COLD") == "endless" {
				globals.HaltingDelay = 3
			}
			type job struct {
				kind string
				run  func() string
			}
			mkJob := func(g *sgen, shared *jom.JsonMap, sharedDoc M, sharedPaths *json_map.AbsolutePaths, sharedValue interface{}) job {
				switch g.Intn(15) {
				case 10:
					// marking up, finding, stripping and every kind of writing
					doc := g.anyDoc()
					p := g.path(doc, 4).render()
					return job{"mark-up", func() string {
						m := jm(doc)
						err := m.MarkupCode(p, "js", "json.trail.marked = 1")
						found := m.FindScriptFields()
						c := m.Clone(false).(*jom.JsonMap)
						c.Strip()
						bad := m.MarkupCode("$.x", "xx", "1")
						if err != nil {
							return fmt.Sprint(failed(err), failed(bad))
						}
						b, merr := c.Marshal()
						return fmt.Sprintf("%v %v %s %v %s", found, failed(bad), b, merr, m.String())
					}}
				case 11:
					// arrays as lists
					vals, id := A{1.0, M{"a": 1.0}, A{}, "x"}, 0
					doc := M{"q": A{1.0, 2.0}, "d": M{"r": A{}}}
					var ops []func(m *jom.JsonMap) interface{}
					for k := 3 + g.Intn(6); k > 0; k-- {
						at, v := []string{"$.q", "$.d.r", "$..q", "$.nope"}[g.Intn(4)], vals[g.Intn(4)]
						idx := []int{g.Intn(3), g.Intn(6)}[:g.Intn(3)]
						if id++; g.Intn(2) == 0 {
							ops = append(ops, func(m *jom.JsonMap) interface{} {
								return caught(func() { m.MustPush(at, v, idx...) }) != nil
							})
						} else {
							ops = append(ops, func(m *jom.JsonMap) (got interface{}) {
								if caught(func() { got = A(m.MustPop(at, idx...)) }) != nil {
									return "panic"
								}
								return got
							})
						}
					}
					return job{"lists", func() string {
						m, out := jm(doc), ""
						for _, op := range ops {
							out += js(op(m)) + " "
						}
						return out + js(*m.GetInsides())
					}}
				case 12:
					// the same paths and the same value used on many documents, and paths put together from them
					doc := deepCopyV(sharedDoc).(M)
					name := g.key()
					return job{"shared-paths", func() string {
						m := jm(doc)
						nodes, errs := m.GetAbsolutePaths(sharedPaths)
						more := append(json_map.AbsolutePaths{}, *sharedPaths...)
						more.AddToAll(m, true, json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: name})
						err := m.SetAbsolutePaths(sharedPaths, sharedValue)
						if err != nil {
							return fmt.Sprint(errs, failed(err), keyStr(more))
						}
						return fmt.Sprint(js(valuesOf(nodes)), errs, keyStr(more), js(*m.GetInsides()))
					}}
				case 13:
					// everything that is printed arrives
					src := js(M{"s": fmt.Sprintf("#//!js\nfunction p(i) { console.log('job%d', i, json.trail.o);\n console.error('job', [i]); }\nfor (var i = 0; i < %d; i++) p(i);\nprintlnExternal('end', %q);", g.Intn(1000), g.Intn(6), g.key()), "o": g.obj(2), "in": M{"s": "#//!js\nconsole.log('nested', json.scopePath)"}})
					return job{"printing", func() string {
						out, err := jom.Eval([]byte(src), false)
						return fmt.Sprintf("%s %s", out, failed(err))
					}}
				case 14:
					// a callback that works with its scope while others work with theirs
					doc := g.obj(2)
					p := g.path(doc, 3).render()
					return job{"callback", func() string {
						inside := ""
						m := jom.NewFromMap(M{"x": M{"d": deepCopyV(doc), "q": A{1.0}, "f": func(j json_map.JsonMapInt) {
							n, err := j.JsonPathSelector("$.d" + p[1:])
							j.MustPush("$.q", len(n), 0)
							j.MustSet("$.cl", j.Clone(false).MustGet("$.d"))
							k := j.Clone(true)
							k.Unmarshal([]byte(`{"s": "#//!js\njson.trail.n = json.jsonPathSelector('$..s').getValues().length"}`))
							k.Run()
							inside = fmt.Sprint(js(valuesOf(n)), failed(err), js(*k.GetInsides()))
						}}})
						pn := caught(m.Run)
						return fmt.Sprint(inside, pn, js(*m.GetInsides()))
					}}
				case 0, 1:
					g.budget = 5
					src := js(toReal(g.sobj(3), false, nil))
					return job{"eval", func() string {
						out, err := jom.Eval([]byte(src), false)
						return fmt.Sprintf("%s %s", out, failed(err))
					}}
				case 2:
					src := js(M{"a": g.arr(2), "o": g.obj(2), "s": "#//!js\ntry { json.trail.r = [json.jsonPathSelector('$..id').getValues(), json.jsonPathSelector('$.a[?(@)]').getValues()]; json.jsonPathSelector('$.o.*').setValues([1]); } catch (e) { json.trail.e = /Infinite loop/.test(e) ? 'halted' : 1; } console.log('x', 1); console.error('y');"})
					return job{"nodeset", func() string {
						out, err := jom.Eval([]byte(src), false)
						return fmt.Sprintf("%s %s", out, failed(err))
					}}
				case 3:
					doc, _ := g.spot("s", "#//!js\n"+errorScripts[g.Intn(len(errorScripts))])
					src := js(doc)
					return job{"error", func() string {
						out, err := jom.Eval([]byte(src), false)
						return fmt.Sprintf("%s %s", out, failed(err))
					}}
				case 4:
					doc := g.anyDoc()
					p := g.path(doc, 5).render()
					return job{"query", func() string {
						v, err := jm(doc).JsonPathSelector(p)
						return fmt.Sprintf("%s %s", js(valuesOf(v)), failed(err))
					}}
				case 5, 6:
					p := g.path(sharedDoc, 4).render()
					return job{"shared-query", func() string {
						v, err := shared.JsonPathSelector(p)
						b, merr := shared.Marshal()
						c, _ := shared.Clone(false).Marshal()
						return fmt.Sprintf("%s %s %s %v %s", js(valuesOf(v)), failed(err), b, merr, c)
					}}
				case 7:
					doc := g.anyDoc()
					path := g.path(doc, 4)
					p := path.render()
					v := g.value(2)
					return job{"set", func() string {
						m := jm(doc)
						err := m.JsonPathSetter(p, v)
						if err != nil && !path.single() {
							return failed(err) // how much was set before is left open
						}
						return js(*m.GetInsides()) + failed(err)
					}}
				case 8:
					g.budget = 6
					model := g.sobj(3)
					return job{"callbacks", func() string {
						m := jom.NewFromMap(toReal(model, true, func(event) {}).(M))
						if p := caught(m.Run); p != nil {
							return failed(fmt.Errorf("%v", p))
						}
						return js(*m.GetInsides())
					}}
				}
				src := renderHjson(g.gen, g.obj(3), true)
				return job{"text", func() string {
					m := jom.New()
					if err := m.Unmarshal([]byte(src)); err != nil {
						return "error"
					}
					m.Strip()
					c := m.Clone(true)
					if err := c.Unmarshal([]byte(m.String())); err != nil {
						return "error2"
					}
					b, _ := c.Marshal()
					return string(b)
				}}
			}
			// together runs jobs alone, one after the other, and concurrently, and compares
			together := func(t *T, concurrentFirst bool) {
				g := &sgen{gen: gen{t.R, false}}
				sharedDoc := g.anyDoc()
				shared := jm(sharedDoc)
				var jobs []job
				kinds := map[string]int{}
				var sharedPaths json_map.AbsolutePaths
				for k := 1 + g.Intn(2); k > 0; k-- {
					sharedPaths = append(sharedPaths, g.builtPaths(g.path(sharedDoc, 1+g.Intn(4)))...)
				}
				sharedValue := g.value(3)
				// what is printed, whole and once each; the order is open when there are others
				lines := func() map[string]int {
					n := map[string]int{}
					for _, l := range strings.Split(stdoutBuf.take()+"\n--\n"+stderrBuf.take(), "\n") {
						n[l]++
					}
					return n
				}
				var printedAlone, printed map[string]int
				for k := 3 + g.Intn(8); k > 0; k-- {
					j := mkJob(g, shared, sharedDoc, &sharedPaths, sharedValue)
					jobs = append(jobs, j)
					kinds[j.kind]++
				}
				t.Input("%v", kinds)
				want := make([]string, len(jobs))
				alone := func() {
					lines()
					for i, j := range jobs {
						want[i] = j.run()
					}
					printedAlone = lines()
				}
				if !concurrentFirst {
					alone()
				}
				workers := 2 + g.Intn(7)
				sameOrder := concurrentFirst && g.Intn(2) == 0 // everyone does the same thing at first
				var wg sync.WaitGroup
				got := make([][]string, workers)
				start := make(chan bool)
				lines()
				for w := 0; w < workers; w++ {
					got[w] = make([]string, len(jobs))
					wg.Add(1)
					off := g.Intn(len(jobs))
					if sameOrder {
						off = 0
					}
					go func(w int) {
						defer wg.Done()
						<-start
						for i := range jobs {
							k := (i + off) % len(jobs)
							got[w][k] = jobs[k].run()
						}
					}(w)
				}
				close(start)
				wg.Wait()
				printed = lines()
				if concurrentFirst {
					alone()
				}
				halted := false
				for w := range got {
					for i := range jobs {
						if got[w][i] != want[i] {
							// no job has anything endless in it, that one is stopped is a matter of time (C14)
							if strings.Contains(got[w][i]+want[i], "halted") {
								t.Inconclusive("a filter took over a second")
								halted = true
								continue
							}
							t.Fail("interference", "a job (%s) gave, next to others, %s\nand alone %s", jobs[i].kind, clip(got[w][i], 2000), clip(want[i], 2000))
						}
					}
				}
				n := 0
				for _, m := range []map[string]int{printedAlone, printed} {
					for l := range m {
						n += m[l]
						if l != "" && l != "--" && !halted && printed[l] != workers*printedAlone[l] {
							t.Fail("printed", "the jobs print the line %q %d times alone, and %d times when %d do them at the same time", clip(l, 500), printedAlone[l], printed[l], workers)
						}
					}
				}
				t.Count("lines-printed", n)
				t.Count("jobs", len(jobs)*(workers+1))
				t.Nontrivial(fmt.Sprint(kinds, workers))
			}
			r.Group("concurrent", r.N(200, 3000), func(t *T) {
				together(t, t.R.Intn(2) == 0)
				// each interpreter stays in memory until its timer has run out, and the race detector keeps several times as much
				for wait := 0; wait < 60; wait++ {
					var mem runtime.MemStats
					if runtime.ReadMemStats(&mem); mem.HeapAlloc < 400<<20 {
						break
					}
					time.Sleep(100 * time.Millisecond)
					runtime.GC()
				}
			})
			// fresh runs this case in a process of its own
			fresh := func(t *T, kind string) (res Result, ok bool) {
				self, _ := os.Executable()
				out := filepath.Join(r.scratch, fmt.Sprintf("cold%d.json", t.Idx))
				cmd := exec.Command(self, "worker", "C15", "-tier", r.tier, "-seed", fmt.Sprint(r.seed), "-only", fmt.Sprint(t.Idx), "-out", out, "-scratch", r.scratch)
				cmd.Env = append(os.Environ(), "VH_COLD="+kind, "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
				text, err := cmd.CombinedOutput()
				t.Input("a fresh process (%s)", kind)
				if strings.Contains(string(text), "DATA RACE") {
					t.Fail("data-race", "%s", firstFatal(string(text)))
				}
				b, _ := os.ReadFile(out)
				json.Unmarshal(b, &res)
				os.Remove(out)
				os.Remove(out + ".progress")
				if len(res.Violations) > 0 {
					t.Fail(res.Violations[0].Sig, "%s", res.Violations[0].Detail)
				}
				if err != nil && !killed(err) {
					t.Fail("crash", "%v %s", err, firstFatal(string(text)))
				}
				if err != nil {
					t.Inconclusive("a fresh process was killed")
					return res, false
				}
				return res, true
			}
			// next to evaluations that are stopped (each is told what it ran itself) others run as they do alone
			r.Group("next-to-endless", r.N(8, 80), func(t *T) {
				if os.Getenv("VH_COLD") == "" {
					if res, ok := fresh(t, "endless"); ok {
						t.Count("jobs", res.Counters["jobs"])
						t.Count("stopped-next-to-others", res.Counters["stopped-next-to-others"])
						t.Nontrivial(fmt.Sprint("endless ", t.Idx))
					}
					return
				}
				g := &sgen{gen: gen{t.R, false}}
				kinds := []string{}
				var wg sync.WaitGroup
				var mu sync.Mutex
				var wrong []string
				ends := make(chan bool)
				for k := 0; k < 2+g.Intn(3); k++ {
					name := fmt.Sprintf("scope%d_%d", k, g.Intn(1000))
					body := fmt.Sprintf("var mine%d; while (true) { mine%d = %d }", k, k, g.Intn(1000))
					kind := g.Intn(3)
					kinds = append(kinds, []string{"script", "callback", "filter"}[kind])
					wg.Add(1)
					go func() {
						defer wg.Done()
						var err error
						want := []string{name}
						switch kind {
						case 0:
							_, err = jom.Eval([]byte(js(M{name: M{"s": "#//!js\n" + body}})), false)
							want = append(want, body)
						case 1:
							m := jom.NewFromMap(M{name: M{"f": func(json_map.JsonMapInt) { <-ends }}})
							if p := caught(m.Run); p != nil {
								err = fmt.Errorf("%v", p)
							}
						default:
							want = []string{body}
							_, err = jm(M{"l": A{1.0}}).JsonPathSelector("$.l[?((function () { " + body + " })())]")
						}
						mu.Lock()
						defer mu.Unlock()
						if err == nil {
							wrong = append(wrong, fmt.Sprintf("%s %s: no error", name, body))
							return
						}
						for _, w := range append(want, "Infinite loop") {
							if !strings.Contains(err.Error(), w) {
								wrong = append(wrong, fmt.Sprintf("%q is not in the error: %v", w, clip(err.Error(), 1500)))
							}
						}
					}()
				}
				sharedDoc := g.anyDoc()
				shared := jm(sharedDoc)
				sharedPaths := g.builtPaths(g.path(sharedDoc, 3))
				var jobs []job
				var want []string
				for k := 0; k < 6; k++ {
					j := mkJob(g, shared, sharedDoc, &sharedPaths, 1.0)
					jobs, want = append(jobs, j), append(want, j.run())
					kinds = append(kinds, j.kind)
				}
				t.Input("%v", kinds)
				bad, got := 0, ""
				begun := time.Now()
				for n := 0; time.Since(begun) < 3500*time.Millisecond; n++ {
					if now := jobs[n%6].run(); now != want[n%6] && !strings.Contains(now+want[n%6], "halted") && bad == 0 {
						bad, got = n%6+1, now
					}
					t.Count("jobs", 1)
				}
				close(ends)
				wg.Wait()
				stdoutBuf.take()
				stderrBuf.take()
				if len(wrong) > 0 {
					t.Fail("endless", "%s", strings.Join(wrong, "\n"))
				}
				if bad > 0 {
					t.Fail("interference", "a job (%s) gave, while others were stopped, %s\nand before %s", jobs[bad-1].kind, clip(got, 2000), clip(want[bad-1], 2000))
				}
				t.Count("stopped-next-to-others", len(kinds)-6)
				t.Nontrivial(fmt.Sprint(kinds))
			})
			// the same in a fresh process, so that anything that is set up at its first use is first used concurrently
			r.Group("cold", r.N(32, 400), func(t *T) {
				if os.Getenv("VH_COLD") != "" {
					together(t, true)
					return
				}
				if res, ok := fresh(t, "1"); ok {
					t.Count("cold-starts", 1)
					t.Count("jobs", res.Counters["jobs"])
					t.Nontrivial(fmt.Sprint("cold ", t.Idx))
				}
			})
		},
	})
}

// failed says whether something failed, and whether that was for lack of time.
func failed(err error) string {
	if err != nil && strings.Contains(err.Error(), "Infinite loop") {
		return "halted"
	}
	return fmt.Sprint(err != nil)
}

var baseGoroutines = 0

func init() { baseGoroutines = runtime.NumGoroutine() + 1 }
