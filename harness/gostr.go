package main

import "strings"

// StrCall is a call of one of Go's strings functions (the meaning std/strings has to have).
type StrCall struct {
	F string   `json:"f"`
	S []string `json:"s"` // string arguments
	N int      `json:"n"`
	E []string `json:"e"` // slice argument
}

func goStrings(calls []StrCall) []interface{} {
	out := []interface{}{}
	b := func(v bool) string {
		if v {
			return "1"
		}
		return "0"
	}
	for _, c := range calls {
		a := func(i int) string { return c.S[i] }
		var r interface{}
		switch c.F {
		case "Index":
			r = strings.Index(a(0), a(1))
		case "Contains":
			r = b(strings.Contains(a(0), a(1)))
		case "Join":
			r = strings.Join(c.E, a(0))
		case "HasPrefix":
			r = b(strings.HasPrefix(a(0), a(1)))
		case "HasSuffix":
			r = b(strings.HasSuffix(a(0), a(1)))
		case "Count":
			r = strings.Count(a(0), a(1))
		case "Split":
			r = strings.Split(a(0), a(1))
		case "Repeat":
			if c.N < 0 {
				r = "" // Go panics; no value is prescribed
			} else {
				r = strings.Repeat(a(0), c.N)
			}
		case "Replace":
			r = strings.Replace(a(0), a(1), a(2), c.N)
		case "ReplaceAll":
			r = strings.ReplaceAll(a(0), a(1), a(2))
		case "Cut":
			x, y, f := strings.Cut(a(0), a(1))
			r = []string{x, y, b(f)}
		case "CutPrefix":
			x, f := strings.CutPrefix(a(0), a(1))
			r = []string{x, b(f)}
		case "CutSuffix":
			x, f := strings.CutSuffix(a(0), a(1))
			r = []string{x, b(f)}
		case "TrimPrefix":
			r = strings.TrimPrefix(a(0), a(1))
		case "TrimSuffix":
			r = strings.TrimSuffix(a(0), a(1))
		case "TrimLeft":
			r = strings.TrimLeft(a(0), a(1))
		case "TrimRight":
			r = strings.TrimRight(a(0), a(1))
		case "Trim":
			r = strings.Trim(a(0), a(1))
		case "TrimSpace":
			r = strings.TrimSpace(a(0))
		}
		out = append(out, r)
	}
	return out
}
