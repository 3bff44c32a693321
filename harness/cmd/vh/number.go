package main

import "strings"

// readPlain reads a displayed plain number: optional unit text around digits
// grouped by comma, parentheses or minus for negative. It returns a canonical
// integer form when the number is whole.
func readPlain(t string) (string, bool) {
	for _, u := range utrUnits {
		if u.Symbol != "" && strings.HasPrefix(t, u.Symbol) {
			t = t[len(u.Symbol):]
			break
		}
	}
	i := strings.IndexAny(t, "0123456789")
	if i < 0 {
		return "", false
	}
	j := i
	for j < len(t) && strings.IndexByte("0123456789,. ", t[j]) >= 0 {
		j++
	}
	for _, r := range t[:i] {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '&' {
			return "", false
		}
	}
	num := strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' || r == '.' {
			return r
		}
		return -1
	}, t[i:j])
	r, ok := newRat(num)
	if !ok || num == "" {
		return "", false
	}
	neg := strings.ContainsAny(t[:i], "(-")
	if neg {
		r.Neg(r)
	}
	return r.RatString(), true
}
