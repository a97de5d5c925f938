package main

// Structure of an emitted Batch script, without executing it: the parenthesis, label and jump events of the file read from top
// to bottom, and the control-flow graph that cmd.exe would follow (a jump leaves every block: execution continues on the line
// behind the label outside of any parentheses).

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

type SEv struct {
	K string `json:"k"` // open, close, label, goto, call, err
	N string `json:"n,omitempty"`
}

type SNode struct {
	K string `json:"k"` // site, call, br (branch), exit, jump
	S []int  `json:"s"` // successors (1-based)
	M int    `json:"m"` // site: marker
	R int    `json:"r"` // call: node of the routine's entry, 0: no such label
}

type Struct struct {
	Ev    []SEv   `json:"ev"`
	Nodes []SNode `json:"nodes"`
	Start int     `json:"start"`
	Orph  []SOrph `json:"orph"` // labels which cannot be reached from above and are no target of a jump: entries of routines
	Unsup string  `json:"unsup,omitempty"`
	Lines int     `json:"lines"`
	Bash  []BDef  `json:"bash,omitempty"`
}

type SOrph struct {
	N string `json:"n"`
}

type BDef struct {
	N    string `json:"n"`
	Uses int    `json:"uses"`
}

var markRe = regexp.MustCompile(`zq([0-9]+)z`)

type structX struct {
	c     *cmdexe
	st    *Struct
	at    map[int]int // line -> node
	queue []int
}

func first(s string) (string, string) {
	s = strings.TrimLeft(s, delims)
	i := strings.IndexAny(s, delims+"(")
	if i < 0 {
		return strings.ToLower(s), ""
	}
	return strings.ToLower(s[:i]), s[i:]
}

func labelName(s string) string {
	s = strings.TrimLeft(s, delims)
	s = strings.TrimPrefix(s, ":")
	if i := strings.IndexAny(s, " \t,;=:+&|<>"); i >= 0 {
		s = s[:i]
	}
	return strings.ToLower(s)
}

// sequential pass
func (x *structX) events() {
	c := x.c
	emit := func(k, n string) { x.st.Ev = append(x.st.Ev, SEv{k, n}) }
	c.onOpen = func() { emit("open", "") }
	c.onClose = func() { emit("close", "") }
	c.onLabel = func(line string) {
		if l, ok := labelOf(line); ok && l != "" {
			emit("label", strings.ToLower(l))
		}
	}
	c.onSimple = func(t string) {
		w, rest := first(t)
		switch w {
		case "goto":
			emit("goto", labelName(rest))
		case "call":
			if r := strings.TrimLeft(rest, delims); strings.HasPrefix(r, ":") {
				emit("call", labelName(r))
			}
		}
	}
	defer func() { c.onOpen, c.onClose, c.onLabel, c.onSimple = nil, nil, nil, nil }()
	c.fr = &frame{}
	for c.fr.pos < len(c.lines) {
		was := c.fr.pos
		func() {
			defer func() {
				switch r := recover().(type) {
				case nil:
				case unclosed:
					emit("err", "the file ends inside a block")
				case syntaxErr:
					emit("err", fmt.Sprintf("line %d: %s", c.fr.pos, r.s))
				default:
					panic(r)
				}
			}()
			c.parseTop()
		}()
		if c.fr.pos == was {
			c.fr.pos++
		}
	}
}

func (x *structX) node(n SNode) int {
	x.st.Nodes = append(x.st.Nodes, n)
	return len(x.st.Nodes)
}

// position returns the node which stands for the execution from a line on.
func (x *structX) position(line int) int {
	if n, ok := x.at[line]; ok {
		return n
	}
	n := x.node(SNode{K: "br"})
	x.at[line] = n
	x.queue = append(x.queue, line)
	return n
}

func (x *structX) find(label string) int {
	for i, l := range x.c.lines {
		if s, ok := labelOf(l); ok && strings.EqualFold(s, label) {
			return i + 1
		}
	}
	return -1
}

// compile returns the node which executes n and then continues at next.
func (x *structX) compile(n *node, next int) int {
	if n == nil {
		return next
	}
	switch n.kind {
	case "rem", "label":
		return next
	case "block":
		for i := len(n.list) - 1; i >= 0; i-- {
			next = x.compile(n.list[i], next)
		}
		return next
	case "if":
		m := SNode{K: "br", S: []int{x.compile(n.body, next), x.compile(n.els, next)}}
		if f := markRe.FindStringSubmatch(n.a + " " + n.b); f != nil {
			k, _ := strconv.Atoi(f[1])
			b := x.node(m)
			return x.node(SNode{K: "site", S: []int{b}, M: k})
		}
		return x.node(m)
	case "for":
		b := x.node(SNode{K: "br"})
		body := x.compile(n.body, b)
		x.st.Nodes[b-1].S = []int{body, next}
		return b
	}
	w, rest := first(n.text)
	switch w {
	case "goto":
		l := labelName(rest)
		if l == "eof" {
			return x.node(SNode{K: "exit"})
		}
		p := x.find(l)
		if p < 0 {
			return x.node(SNode{K: "exit"})
		}
		return x.position(p)
	case "exit":
		return x.node(SNode{K: "exit"})
	case "call":
		if f := markRe.FindStringSubmatch(n.text); f != nil {
			k, _ := strconv.Atoi(f[1])
			return x.node(SNode{K: "site", S: []int{next}, M: k})
		}
		if r := strings.TrimLeft(rest, delims); strings.HasPrefix(r, ":") {
			p := x.find(labelName(r))
			e := 0
			if p >= 0 {
				e = x.position(p)
			}
			return x.node(SNode{K: "call", S: []int{next}, R: e})
		}
	}
	if f := markRe.FindStringSubmatch(n.text); f != nil {
		k, _ := strconv.Atoi(f[1])
		return x.node(SNode{K: "site", S: []int{next}, M: k})
	}
	return next
}

func scriptStruct(script string) (st *Struct) {
	st = &Struct{Ev: []SEv{}, Nodes: []SNode{}, Orph: []SOrph{}}
	c := &cmdexe{static: true, env: map[string]string{}}
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsup)
			if !ok {
				panic(r)
			}
			st.Unsup = u.s
		}
	}()
	c.lines = strings.Split(strings.ReplaceAll(script, "\r\n", "\n"), "\n")
	if n := len(c.lines); n > 0 && c.lines[n-1] == "" {
		c.lines = c.lines[:n-1]
	}
	st.Lines = len(c.lines)
	x := &structX{c: c, st: st, at: map[int]int{}}
	x.events()
	st.Start = x.position(0)
	x.drain()
	// labels outside of blocks which are no target and which the execution from above does not pass: entries of routines nobody uses
	targets := map[string]bool{}
	depth := 0
	for _, e := range st.Ev {
		if e.K == "goto" || e.K == "call" {
			targets[e.N] = true
		}
	}
	reached := x.reach()
	top := map[string]bool{}
	for _, e := range st.Ev {
		switch e.K {
		case "open":
			depth++
		case "close":
			depth--
		case "label":
			if depth == 0 {
				top[e.N] = true
			}
		}
	}
	for i, l := range c.lines {
		if s, ok := labelOf(l); ok && s != "" {
			s = strings.ToLower(s)
			if n, ok := x.at[i]; top[s] && !targets[s] && !(ok && reached[n]) {
				st.Orph = append(st.Orph, SOrph{s})
			}
		}
	}
	x.contract()
	return st
}

func (x *structX) drain() {
	for len(x.queue) > 0 {
		l := x.queue[0]
		x.queue = x.queue[1:]
		n := x.at[l]
		if l >= len(x.c.lines) {
			x.st.Nodes[n-1] = SNode{K: "exit"}
			continue
		}
		x.c.fr = &frame{pos: l}
		var t *node
		func() {
			defer func() {
				switch r := recover().(type) {
				case nil:
				case unclosed, syntaxErr: // reported by the sequential pass
				default:
					panic(r)
				}
			}()
			t = x.c.parseTop()
		}()
		next := x.c.fr.pos
		if next <= l {
			next = l + 1
		}
		e := x.compile(t, x.position(next))
		x.st.Nodes[n-1].S = []int{e}
	}
}

// reach returns the nodes reached from the start, calls included.
func (x *structX) reach() map[int]bool {
	seen := map[int]bool{}
	todo := []int{x.st.Start}
	for len(todo) > 0 {
		n := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if n == 0 || seen[n] {
			continue
		}
		seen[n] = true
		todo = append(todo, x.st.Nodes[n-1].S...)
		todo = append(todo, x.st.Nodes[n-1].R)
	}
	return seen
}

// contract removes nodes which only pass on.
func (x *structX) contract() {
	old := x.st.Nodes
	var skip func(n, d int) int
	skip = func(n, d int) int {
		for d < 100000 && n > 0 && old[n-1].K == "br" {
			s := uniq(old[n-1].S)
			if len(s) != 1 || s[0] == n {
				break
			}
			n = s[0]
			d++
		}
		return n
	}
	num := map[int]int{}
	var list []int
	var visit func(n int) int
	visit = func(n int) int {
		if n == 0 {
			return 0
		}
		n = skip(n, 0)
		if k, ok := num[n]; ok {
			return k
		}
		list = append(list, n)
		num[n] = len(list)
		return num[n]
	}
	start := visit(x.st.Start)
	var out []SNode
	for i := 0; i < len(list); i++ {
		o := old[list[i]-1]
		m := SNode{K: o.K, M: o.M, S: []int{}}
		for _, s := range o.S {
			m.S = append(m.S, visit(s))
		}
		m.S = uniq(m.S)
		m.R = visit(o.R)
		out = append(out, m)
	}
	x.st.Nodes, x.st.Start = out, start
}

func uniq(s []int) []int {
	r := []int{}
	for _, a := range s {
		d := false
		for _, b := range r {
			d = d || a == b
		}
		if !d {
			r = append(r, a)
		}
	}
	return r
}
