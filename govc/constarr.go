package main

import (
	"fmt"
	"strings"
)

// cvc5Text replaces constant arrays whose element is not a value for cvc5
// (it contains the uninterpreted constant nilany) by arrays which an axiom describes.
func cvc5Text(text string) string {
	const mark = "((as const "
	names := map[string]string{}
	var out strings.Builder
	changed := false
	for _, line := range strings.SplitAfter(text, "\n") {
		for {
			hit := -1
			var end int
			var sort, elem string
			for from := 0; ; {
				i := strings.Index(line[from:], mark)
				if i < 0 {
					break
				}
				i += from
				s0 := i + len(mark)
				s1 := sexprEnd(line, s0)
				e0 := s1 + 2 // after ") "
				e1 := sexprEnd(line, e0)
				if strings.Contains(line[e0:e1], "nilany") && !strings.Contains(line[e0:e1], mark) {
					hit, end, sort, elem = i, e1+1, line[s0:s1], line[e0:e1]
					break
				}
				from = i + len(mark)
			}
			if hit < 0 {
				break
			}
			key := sort + "|" + elem
			n, ok := names[key]
			if !ok {
				n = fmt.Sprintf("constarr!%d", len(names))
				names[key] = n
				idx := sort[len("(Array "):sexprEnd(sort, len("(Array "))]
				fmt.Fprintf(&out, "(declare-fun %s () %s)\n(assert (forall ((k!c %s)) (! (= (select %s k!c) %s) :pattern ((select %s k!c)))))\n", n, sort, idx, n, elem, n)
			}
			line = line[:hit] + n + line[end:]
			changed = true
		}
		out.WriteString(line)
	}
	if !changed {
		return text
	}
	return out.String()
}

// sexprEnd returns the index after the expression which starts at i.
func sexprEnd(s string, i int) int {
	if s[i] != '(' {
		for i < len(s) && s[i] != ' ' && s[i] != ')' && s[i] != '\n' {
			i++
		}
		return i
	}
	d := 0
	for ; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return i + 1
			}
		}
	}
	return i
}
