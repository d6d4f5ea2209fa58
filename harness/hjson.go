package main

import (
	"fmt"
	"strconv"
	"strings"
)

// renderHjson writes a value as Hjson, using the freedoms of the syntax: comments, keys without quotes, strings without
// quotes, multi-line strings, optional commas, optional root braces.
func renderHjson(g gen, v interface{}, root bool) string {
	var b strings.Builder
	ws := func() {
		switch g.Intn(9) {
		case 0:
			b.WriteString("\n")
		case 1:
			b.WriteString("  ")
		case 2:
			b.WriteString("# comment } ] , :\n")
		case 3:
			b.WriteString("// comment ''' \" {\n")
		case 4:
			b.WriteString("/* comment\n * } */ ")
		}
	}
	plainKey := func(k string) bool {
		if k == "" {
			return false
		}
		for _, c := range k {
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-') {
				return false
			}
		}
		return true
	}
	plainString := func(s string) bool {
		// without quotes: up to the end of the line, must not look like anything else
		if s == "" || strings.TrimSpace(s) != s || strings.ContainsAny(s, "\n\r\t\\\"'{}[],:#/") {
			return false
		}
		switch s[0] {
		case '-', '+', '.', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 't', 'f', 'n':
			return false
		}
		for _, c := range s {
			if c < 32 || c >= 127 {
				return false
			}
		}
		return true
	}
	quoted := func(s string) string {
		if g.Intn(3) > 0 {
			return js(s)
		}
		var q strings.Builder
		for _, c := range s {
			switch {
			case g.Intn(6) == 0 && c <= 0xffff:
				fmt.Fprintf(&q, "\\u%04x", c)
			case c == '/' && g.Intn(3) == 0:
				q.WriteString("\\/")
			default:
				e := js(string(c))
				q.WriteString(e[1 : len(e)-1])
			}
		}
		return `"` + q.String() + `"`
	}
	// lines of text between triple quotes that stand for themselves, at some indentation
	lines := func(s string) string {
		in := strings.Repeat(" ", g.Intn(2)*g.Intn(6))
		out := "\n" + in + "'''\n"
		for _, l := range strings.Split(s, "\n") {
			if l != "" || g.Intn(2) == 0 {
				out += in
			}
			out += l + "\n"
		}
		return out + in + "'''"
	}
	var w func(v interface{}, root bool)
	w = func(v interface{}, root bool) {
		switch x := v.(type) {
		case M:
			braces := !root || len(x) == 0 || g.Intn(3) > 0
			if braces {
				b.WriteString("{")
			}
			for _, k := range keysOf(x) {
				ws()
				if plainKey(k) && g.Intn(3) > 0 {
					b.WriteString(k)
				} else {
					b.WriteString(quoted(k))
				}
				b.WriteString([]string{":", ": ", " : "}[g.Intn(3)])
				w(x[k], false)
				b.WriteString([]string{"\n", "\n", ",", ",\n"}[g.Intn(4)])
			}
			ws()
			if braces {
				b.WriteString("}")
			}
		case A:
			b.WriteString("[")
			for _, e := range x {
				ws()
				w(e, false)
				b.WriteString([]string{"\n", "\n", ",", ",\n"}[g.Intn(4)])
			}
			ws()
			b.WriteString("]")
		case string:
			switch {
			case plainString(x) && g.Intn(2) == 0:
				b.WriteString(x + "\n")
			case !strings.Contains(x, "'''") && !strings.ContainsAny(x, "\r\x00") && x != "" && validText(x) && !strings.HasSuffix(x, "\n") && !strings.HasSuffix(x, "'") && !strings.HasPrefix(x, "\n") && g.Intn(3) == 0 && !strings.Contains(x, "\n") && strings.TrimSpace(x) == x:
				b.WriteString("'''" + x + "'''")
			case strings.Contains(x, "\n") && !strings.ContainsAny(x, "\r\x00") && !strings.Contains(x, "'''") && validText(x) && !strings.HasSuffix(x, "'") && g.Intn(2) == 0:
				b.WriteString(lines(x))
			default:
				b.WriteString(quoted(x))
			}
		case float64:
			b.WriteString(strconv.FormatFloat(x, 'g', -1, 64))
			b.WriteString([]string{"", " "}[g.Intn(2)])
		default:
			b.WriteString(js(v))
		}
	}
	if root {
		ws()
	}
	w(v, root)
	if root {
		ws()
	}
	return b.String()
}

func validText(s string) bool {
	for _, c := range s {
		if c < 32 && c != '\n' && c != '\t' || c == 0xfffd {
			return false
		}
	}
	return true
}
