package main

import "strings"

// genMarkup draws the content of a text block, before escaping.
func genMarkup(s *Src) string {
	var b strings.Builder
	var gen func(depth int)
	gen = func(depth int) {
		s.List(0, 4, 65, func(int) {
			k := s.N(8)
			if depth > 3 {
				k = 0
			}
			switch k {
			default:
				b.WriteString(Pick(s, []string{"text ", "más ", "1 < 2 ", "a & b ", "x"}))
			case 2, 3:
				t := Pick(s, []string{"div", "p", "span", "b", "h1"})
				b.WriteString("<" + t + ">")
				gen(depth + 1)
				b.WriteString("</" + t + ">")
			}
		})
	}
	gen(0)
	return b.String()
}
