package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/andygello555/json-dom/jom"
)

type cliRun struct {
	code     int
	out, err string
	timeout  bool
}

// cli runs the command line program.
func cli(dir string, args ...string) (r cliRun) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VH_CLI"), args...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr, cmd.Dir = &out, &errb, dir
	cmd.WaitDelay = time.Second
	err := cmd.Run()
	r = cliRun{0, out.String(), errb.String(), ctx.Err() != nil}
	if err != nil {
		r.code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			r.code = ee.ExitCode()
		}
	}
	return
}

// sameLines compares two outputs as sets of lines: scopes next to each other may be visited in any order.
func sameLines(a, b string) bool {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	sort.Strings(x)
	sort.Strings(y)
	return same(x, y)
}

func init() {
	register(&Check{
		ID:     "C21",
		Shards: 8,
		Rule:   "a case is one run of the command line program (eval or markup; input or files; languages, stripping, evaluating; erroneous calls), whose output and exit status are compared with what the library gives for the same data; non-trivial: all, keyed by the kind of call and shape of the data",
		Assume: []string{"data is given as arguments and files; the order of console output of scopes next to each other is left open", "the default limit on running time (4 s) plus 20 s counts as in time for a halting script"},
		Run: func(r *Runner) {
			if os.Getenv("VH_CLI") == "" {
				panic("VH_CLI is not set: run the check through run.sh")
			}
			files := 0
			file := func(t *T, text string) string {
				files++
				name := filepath.Join(r.scratch, fmt.Sprintf("f%d-%d.json", os.Getpid(), files))
				if err := os.WriteFile(name, []byte(text), 0o644); err != nil {
					panic(err)
				}
				return name
			}
			usable := func(s string) bool { return s != "" && !strings.Contains(s, "\x00") }
			source := func(g *sgen) (string, interface{}) {
				for {
					g.budget = 5
					var model interface{} = g.sobj(3)
					if g.Intn(4) == 0 {
						model = g.sarr(2)
					}
					if g.Intn(6) == 0 {
						model = g.textDoc(3)
					}
					v := toReal(model, false, nil)
					s := js(v)
					if g.Intn(3) == 0 {
						s = renderHjson(g.gen, v, true)
					}
					if usable(s) {
						return s, model
					}
				}
			}
			// lib gives what the library makes of a text: what is printed, and the error.
			lib := func(text string) (string, string, error) {
				stdoutBuf.take()
				stderrBuf.take()
				out, err := jom.Eval([]byte(text), false)
				printed := stdoutBuf.take()
				if err != nil {
					return printed, stderrBuf.take(), err
				}
				return printed + string(out) + "\n", stderrBuf.take(), nil
			}
			last := func(s string) string {
				l := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
				return l[len(l)-1]
			}
			expectEval := func(t *T, got cliRun, want, wantErr string, err error) {
				if err != nil {
					if got.code != 10 || !strings.Contains(got.out, "EVAL ERROR") {
						t.Fail("eval-error", "the library gives the error %v; exit status %d, output %q", err, got.code, clip(got.out, 800))
					}
					return
				}
				if got.code != 0 {
					t.Fail("exit-status", "exit status %d, output %q %q", got.code, clip(got.out, 1500), clip(got.err, 500))
				}
				if !sameLines(got.out, want) || last(got.out) != last(want) {
					t.Fail("output", "got  %q\nwant %q", got.out, want)
				}
				if !sameLines(got.err, wantErr) {
					t.Fail("stderr", "got  %q\nwant %q", got.err, wantErr)
				}
			}
			r.Group("eval-input", r.N(240, 6000), func(t *T) {
				g := &sgen{gen: gen{t.R, false}}
				src, model := source(g)
				if g.Intn(4) == 0 {
					doc, _ := g.spot("s", "#//!js\n"+errorScripts[g.Intn(len(errorScripts))])
					if s := js(doc); usable(s) {
						src = s
					}
				}
				t.Input("eval %s", src)
				want, wantErr, err := lib(src)
				got := cli(r.scratch, "eval", "-input", src)
				expectEval(t, got, want, wantErr, err)
				if err == nil && g.Intn(4) == 0 {
					v := cli(r.scratch, "eval", "-verbose", "-input", src)
					if v.code != 0 || last(v.out) != last(want) {
						t.Fail("verbose", "with -verbose: %d %q, want %q", v.code, v.out, last(want))
					}
				}
				t.Nontrivial(fmt.Sprint("eval ", err != nil, shapes(toReal(model, false, nil), 2)))
				t.Count("runs", 1)
			})
			r.Group("eval-files", r.N(160, 3000), func(t *T) {
				g := &sgen{gen: gen{t.R, false}}
				var names []string
				var want, wantErr, log string
				var failed error
				n := 1 + g.Intn(5)
				missing := -1
				if g.Intn(6) == 0 {
					missing = g.Intn(n)
				}
				for i := 0; i < n; i++ {
					src, _ := source(g)
					if g.Intn(12) == 0 {
						src = []string{"{", "[1,", `{"s": "#//!js\nthrow 1"}`, `{"s": "#//!py\n1"}`, "5"}[g.Intn(5)]
					}
					log += src + "\n---\n"
					if g.Intn(4) == 0 {
						src = g.padded(src)
					}
					if i == missing {
						names = append(names, filepath.Join(r.scratch, "not there"))
						continue
					}
					names = append(names, file(t, src))
					if failed == nil {
						out, e, err := lib(src)
						want += out
						wantErr += e
						failed = err
					}
				}
				t.Input("eval -files, missing %d\n%s", missing, log)
				got := cli(r.scratch, "eval", "-files", strings.Join(names, ","))
				for _, n := range names {
					os.Remove(n)
				}
				if missing >= 0 {
					if got.code != 7 || !strings.Contains(got.out, "not there") || strings.Contains(got.out, "EV:") {
						t.Fail("missing-file", "%d %q", got.code, got.out)
					}
				} else if failed != nil {
					// what was evaluated before the error is there
					if got.code != 10 || !strings.Contains(got.out, "EVAL ERROR") {
						t.Fail("eval-error", "the library gives the error %v; exit status %d, output %q", failed, got.code, got.out)
					}
					before := got.out[:strings.Index(got.out, "EVAL ERROR")]
					if !sameLines(before, want) {
						t.Fail("output-before-error", "got  %q\nwant %q", before, want)
					}
				} else {
					expectEval(t, got, want, wantErr, nil)
					// in the order of the files
					lines := func(s string) (l []string) {
						for _, x := range strings.Split(s, "\n") {
							if strings.HasPrefix(x, "{") || strings.HasPrefix(x, "[") {
								l = append(l, x)
							}
						}
						return
					}
					if !same(lines(got.out), lines(want)) {
						t.Fail("file-order", "got  %q\nwant %q", got.out, want)
					}
				}
				t.Nontrivial(fmt.Sprint("files ", n, missing, failed != nil, len(want)))
				t.Count("runs", 1)
			})
			r.Group("markup", r.N(240, 6000), func(t *T) {
				g := &sgen{gen: gen{t.R, false}}
				src, model := source(g)
				doc, array := asDoc(toReal(model, false, nil))
				args := []string{"markup"}
				strip, eval := g.Intn(3) == 0, g.Intn(2) == 0
				if strip {
					args = append(args, "-strip")
				}
				if eval {
					args = append(args, "-eval")
				}
				if g.Intn(3) == 0 {
					args = append(args, "-language", "js")
				}
				m := jom.New()
				if err := m.Unmarshal([]byte(src)); err != nil {
					t.Fail("unmarshal", "%v", err)
				}
				if strip {
					m.Strip()
				}
				var pairs []string
				var merr error
				bodies := []string{"json.trail.one = json.scopePath;", "json.trail.two = 2;", "", "json.trail.three = (json.trail.three || 0) + 1; // note", "console.log('marked');", "throw 'x'", "  json.trail.one = 1; \n\n", "\n\tjson.trail.two = 'b';", " ", "\n", "console.log(' a ');\r\n", "// only a note", "json.trail.s = 'é 😀 = \\t';"}
				for k := 1 + g.Intn(4); k > 0; k-- {
					p := g.path(doc, 1+g.Intn(3))
					if g.Intn(2) == 0 {
						p = pathT{{kind: sProp, name: []string{"mk", "script", "a", "zz"}[g.Intn(4)]}}
						if array {
							p = pathT{{kind: sProp, name: "array"}, {kind: sIndex, idx: []int{0}}, {kind: sProp, name: "mk"}}
						}
					}
					path := p.render()
					if strings.ContainsAny(path, ",:\x00") {
						continue
					}
					body := bodies[g.Intn(len(bodies))]
					if body == "throw 'x'" && g.Intn(4) > 0 {
						body = bodies[0]
					}
					pairs = append(pairs, path+":"+body)
					if merr == nil {
						merr = m.MarkupCode(path, "js", body)
					}
				}
				if len(pairs) == 0 {
					return
				}
				args = append(args, "-path-scripts", strings.Join(pairs, ","))
				if g.Intn(2) == 0 {
					if g.Intn(3) == 0 {
						src = g.padded(src)
					}
					name := file(t, src)
					defer os.Remove(name)
					args = append(args, "-files", name)
				} else {
					args = append(args, "-input", src)
				}
				t.Input("%q", args)
				var want, wantErr string
				var eerr error
				if merr == nil {
					if eval {
						text, err := m.Marshal()
						if err != nil {
							t.Fail("marshal", "%v", err)
						}
						want, wantErr, eerr = lib(string(text))
					} else {
						want = m.String() + "\n"
					}
				}
				got := cli(r.scratch, args...)
				switch {
				case merr != nil:
					if got.code != 11 || !strings.Contains(got.out, "MARKUP ERROR") {
						t.Fail("markup-error", "the library gives the error %v; exit status %d, output %q", merr, got.code, got.out)
					}
				case eval:
					expectEval(t, got, want, wantErr, eerr)
				default:
					if got.code != 0 || got.out != want {
						t.Fail("markup-output", "exit status %d, got %q\nwant %q", got.code, got.out, want)
					}
					// what is printed reads as the document
					if _, isA := (*m.GetInsides())["array"].(A); m.IsArray() && !isA {
						break // the root itself was replaced by the script
					}
					back := jom.New()
					if err := back.Unmarshal([]byte(got.out)); err != nil || marshalled(back) != marshalled(m) || back.IsArray() != m.IsArray() {
						t.Fail("markup-reread", "printed %q, which reads as %s, %v", got.out, js(*back.GetInsides()), err)
					}
				}
				if merr == nil && eerr == nil && g.Intn(3) == 0 {
					v := cli(r.scratch, append(append([]string{}, args...), "-verbose")...)
					if v.code != 0 || !strings.HasSuffix(v.out, "\n"+last(want)+"\n") && eval || !strings.HasSuffix(v.out, ":\n"+want) && !eval {
						t.Fail("verbose", "with -verbose: %d %q, want %q at the end", v.code, v.out, want)
					}
				}
				t.Nontrivial(fmt.Sprint("markup ", strip, eval, merr != nil, eerr != nil, len(pairs), shapes(doc, 2)))
				t.Count("runs", 1)
			})
			r.Group("markup-files", r.N(80, 2000), func(t *T) {
				g := &sgen{gen: gen{t.R, false}}
				strip, eval := g.Intn(3) == 0, g.Intn(2) == 0
				args := []string{"markup"}
				if strip {
					args = append(args, "-strip")
				}
				if eval {
					args = append(args, "-eval")
				}
				key := []string{"mk", "script", "a", "zz"}[g.Intn(4)]
				body := []string{"json.trail.one = json.scopePath;", "json.trail.three = (json.trail.three || 0) + 1;", "console.log('marked');"}[g.Intn(3)]
				args = append(args, "-path-scripts", "$."+key+":"+body)
				var names []string
				var want, wantErr, log string
				for n := 2 + g.Intn(3); n > 0; n-- {
					src, model := source(g)
					if _, array := asDoc(toReal(model, false, nil)); array {
						continue
					}
					m := jom.New()
					if err := m.Unmarshal([]byte(src)); err != nil {
						t.Fail("unmarshal", "%v", err)
					}
					if strip {
						m.Strip()
					}
					if err := m.MarkupCode("$."+key, "js", body); err != nil {
						t.Fail("markup", "%v", err)
					}
					if eval {
						text, err := m.Marshal()
						if err != nil {
							t.Fail("marshal", "%v", err)
						}
						out, e, err := lib(string(text))
						if err != nil {
							continue
						}
						want += out
						wantErr += e
					} else {
						want += m.String() + "\n"
					}
					names = append(names, file(t, src))
					log += src + "\n---\n"
				}
				if len(names) == 0 {
					return
				}
				args = append(args, "-files", strings.Join(names, ","))
				t.Input("%q\n%s", args, log)
				got := cli(r.scratch, args...)
				for _, n := range names {
					os.Remove(n)
				}
				if got.code != 0 || !sameLines(got.out, want) || !sameLines(got.err, wantErr) || !eval && got.out != want {
					t.Fail("markup-files", "exit status %d, got %q %q\nwant %q %q", got.code, got.out, got.err, want, wantErr)
				}
				t.Nontrivial(fmt.Sprint("markup-files ", len(names), strip, eval, key, len(want)))
				t.Count("runs", 1)
			})
			type call struct {
				name string
				args []string
				code int
				has  string
			}
			ok := file(nil, `{"a": 1}`)
			calls := []call{
				{"nothing", nil, 5, "Subcommand"},
				{"unknown subcommand", []string{"evaluate", "-input", "{}"}, 5, "Subcommand"},
				{"flag first", []string{"-input", "{}", "eval"}, 5, "Subcommand"},
				{"eval without data", []string{"eval"}, 6, "required flag"},
				{"markup without data", []string{"markup", "-path-scripts", "$.a:1"}, 6, "required flag"},
				{"markup without pairs", []string{"markup", "-input", "{}"}, 6, "required flag"},
				{"missing file", []string{"eval", "-files", "nope.json"}, 7, "nope.json"},
				{"white space before a file name", []string{"eval", "-files", " " + ok}, 7, ""},
				{"a directory", []string{"eval", "-files", "/"}, 7, ""},
				{"missing second file", []string{"eval", "-files", ok + ",nope.json"}, 7, "nope.json"},
				{"markup of a missing file", []string{"markup", "-path-scripts", "$.a:1", "-files", "nope.json"}, 7, "nope.json"},
				{"eval of no Hjson", []string{"eval", "-input", "{"}, 10, "EVAL ERROR"},
				{"markup of no Hjson", []string{"markup", "-path-scripts", "$.a:1", "-input", "{"}, 9, "cannot be unmarshalled"},
				{"unsupported script", []string{"eval", "-input", `{"s": "#//!py\n1"}`}, 10, "(-2)"},
				{"failing script", []string{"eval", "-input", `{"s": "#//!js\nthrow 'my message'"}`}, 10, "my message"},
				{"unsupported language", []string{"markup", "-language", "py", "-path-scripts", "$.a:1", "-input", "{}"}, 11, "(-2)"},
				{"path that cannot be set", []string{"markup", "-path-scripts", "$.a.b.c:1", "-input", `{"a": 1}`}, 11, "MARKUP ERROR"},
				{"no language", []string{"markup", "-language", "", "-path-scripts", "$.a:1", "-input", "{}"}, 11, "(-2)"},
				{"a language in capitals", []string{"markup", "-language", "JS", "-path-scripts", "$.a:1", "-input", "{}"}, 11, "(-2)"},
				{"no path", []string{"markup", "-path-scripts", "nope:1", "-input", `{"a": 1}`}, 2, ""},
				{"trailing comma", []string{"markup", "-path-scripts", "$.a:1,", "-input", `{"a": 1}`}, 2, ""},
				{"pairs of nothing", []string{"markup", "-path-scripts", ",", "-input", `{"a": 1}`}, 2, ""},
				{"white space before a path", []string{"markup", "-path-scripts", " $.a:1", "-input", `{"a": 1}`}, 2, ""},
				{"two delimiters", []string{"markup", "-path-scripts", "$.a:1:2", "-input", `{"a": 1}`}, 2, ""},
				{"unknown flag", []string{"eval", "-nope"}, 2, ""},
				{"flag of the other subcommand", []string{"eval", "-language", "js", "-input", "{}"}, 2, ""},
				{"pairs for eval", []string{"eval", "-path-scripts", "$.s:1", "-input", "{}"}, 2, ""},
				{"markup without a value", []string{"markup", "-input"}, 2, ""},
				{"an input that is empty", []string{"eval", "-input", ""}, 6, "required flag"},
				{"no script in the first of two pairs", []string{"markup", "-path-scripts", "$.s,$.t:1", "-input", "{}"}, 0, "No script specified"},
				{"no script", []string{"markup", "-path-scripts", "$.s", "-input", "{}"}, 0, "#//!js"},
				{"stripping only what was there", []string{"markup", "-strip", "-path-scripts", "$.s:json.trail.x = 1;", "-input", `{"old": "#//!js\nthrow 1", "s": "#//!js\nthrow 2"}`}, 0, "json.trail.x = 1;"},
				{"evaluation after stripping", []string{"markup", "-strip", "-eval", "-path-scripts", "$.s:json.trail.x = 1;", "-input", `{"old": "#//!js\nthrow 1", "s": "#//!js\nthrow 2"}`}, 0, `{"x":1}`},
				{"pairs in order", []string{"markup", "-eval", "-path-scripts", "$.s:json.trail.x = 1;,$.s:json.trail.x = 2;,$.s:json.trail.x = 3;", "-input", "{}"}, 0, `{"x":3}`},
				{"endless script", []string{"eval", "-input", `{"s": "#//!js\nwhile (true) {}"}`}, 10, "(-1)"},
				{"endless script within an array", []string{"eval", "-input", `[[{"s": "#//!js\nfor (;;) { var x = 1; }"}]]`}, 10, "(-1)"},
			}
			List(r, "calls", calls, func(t *T, c call) {
				t.Input("%q", c.args)
				start := time.Now()
				got := cli(r.scratch, c.args...)
				took := time.Since(start)
				if got.timeout {
					t.Fail("hang", "%s: did not end within 60 s", c.name)
				}
				if got.code != c.code || !strings.Contains(got.out+got.err, c.has) {
					t.Fail("call", "%s: exit status %d (want %d), output %q %q (want %q in it)", c.name, got.code, c.code, clip(got.out, 1500), clip(got.err, 1500), c.has)
				}
				if strings.HasPrefix(c.name, "endless") && (took < 3*time.Second || took > 24*time.Second) {
					t.Fail("limit", "%s: took %v", c.name, took)
				}
				if c.code == 0 || c.code == 10 || c.code == 11 {
					if strings.Contains(got.err, "goroutine ") || strings.Contains(got.err, "panic:") {
						t.Fail("crash", "%s: %s", c.name, got.err)
					}
				}
				t.Nontrivial(c.name)
				t.Count("runs", 1)
			})
			os.Remove(ok)
		},
	})
}

func marshalled(m *jom.JsonMap) string {
	out, err := m.Marshal()
	return fmt.Sprint(string(out), err == nil)
}

// padded puts a lot of white space in front of, behind or into a text.
func (g *sgen) padded(src string) string {
	// the line's end keeps the columns, which texts of several lines depend on
	pad := strings.Repeat(" ", 1<<uint(10+g.Intn(9))+g.Intn(100)) + "\n"
	// only within brackets that are the root's: in Hjson without any, the first ones can be those of a text
	i := strings.IndexAny(src, "{[")
	if i >= 0 && strings.TrimSpace(src[:i]) != "" {
		i = -1
	}
	switch {
	case g.Intn(3) == 0 || i < 0:
		return pad + src
	case g.Intn(2) == 0:
		return src + pad
	default:
		return src[:i+1] + pad + src[i+1:]
	}
}
