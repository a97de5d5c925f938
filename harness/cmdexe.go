package main

// An interpreter for the part of the cmd.exe batch language which the Batch back-end emits, following the documented phases:
// percent expansion when a line (or a whole parenthesised block) is read, parsing, FOR variable substitution, delayed
// expansion when a command is executed; GOTO leaves the block and searches a label from the end of the current block to the
// end of the file and then from its start; CALL :label opens a frame; SET /A computes with 32-bit integers; names of
// variables and labels are case-insensitive.  Anything else is reported as unsupported instead of being guessed.

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type unsup struct{ s string }
type syntaxErr struct{ s string }
type sig int

const (
	sNone sig = iota
	sGoto
	sReturn // exit /B or end of file: leaves the current frame
	sEnd    // the script is terminated
)

type node struct {
	kind  string // simple, block, if, for, rem
	text  string
	neg   bool
	icase bool
	cond  string // cmp, defined, exist, errorlevel
	a, op string
	b     string
	body  *node
	els   *node
	list  []*node
	opts  string
	v     string
	set   string
	lenIn int
}

type frame struct {
	pos  int
	args []string
	loc  []map[string]string
}

type cmdexe struct {
	lines   []string
	fr      *frame
	env     map[string]string
	delayed bool
	locals  []local
	out     strings.Builder
	errs    strings.Builder
	level   int
	target  string
	steps   int
	limit   int
	echoOn  bool
	stdin   []string
	dir     string
	timeout bool
	big     bool
	depth   int
	// static: the structure is read without executing anything
	static            bool
	onOpen, onClose   func()
	onLabel, onSimple func(string)
}

type local struct {
	env     map[string]string
	delayed bool
	frame   *frame
}

func bad(f string, a ...interface{}) { panic(unsup{fmt.Sprintf(f, a...)}) }

var winEnv = map[string]string{"ALLUSERSPROFILE": `C:\ProgramData`, "APPDATA": `C:\Users\u\AppData\Roaming`, "COMPUTERNAME": "HOST", "COMSPEC": `C:\Windows\system32\cmd.exe`,
	"HOMEDRIVE": "C:", "HOMEPATH": `\Users\u`, "LOCALAPPDATA": `C:\Users\u\AppData\Local`, "NUMBER_OF_PROCESSORS": "8", "OS": "Windows_NT", "PATH": `C:\Windows\system32;C:\Windows`,
	"PATHEXT": ".COM;.EXE;.BAT;.CMD", "PROCESSOR_ARCHITECTURE": "AMD64", "PROMPT": "$P$G", "SYSTEMDRIVE": "C:", "SYSTEMROOT": `C:\Windows`, "TEMP": `C:\Temp`, "TMP": `C:\Temp`,
	"USERNAME": "u", "USERPROFILE": `C:\Users\u`, "WINDIR": `C:\Windows`}

func runBatch(j *Job, dir, script string) *RRes {
	res := &RRes{}
	run := filepath.Join(dir, "runbat")
	os.Mkdir(run, 0755)
	for _, d := range j.RDirs {
		os.MkdirAll(filepath.Join(run, d), 0755)
	}
	for p, c := range j.RFiles {
		os.WriteFile(filepath.Join(run, p), []byte(c), 0644)
	}
	c := &cmdexe{env: map[string]string{}, limit: 4000000, echoOn: true, dir: run}
	for k, v := range winEnv {
		c.env[k] = v
	}
	for k, v := range j.Env {
		c.env[strings.ToUpper(k)] = v
	}
	if j.Stdin != "" {
		c.stdin = strings.Split(strings.TrimSuffix(j.Stdin, "\n"), "\n")
	}
	c.lines = strings.Split(strings.ReplaceAll(script, "\r\n", "\n"), "\n")
	if n := len(c.lines); n > 0 && c.lines[n-1] == "" {
		c.lines = c.lines[:n-1]
	}
	func() {
		defer func() {
			switch r := recover().(type) {
			case nil:
			case unsup:
				res.Unsup = r.s
			case stop:
			case unclosed: // the end of the file inside a block: the block is not executed
			case syntaxErr:
				c.errs.WriteString(r.s + "\n")
				c.level = 255
			default:
				panic(r)
			}
		}()
		c.fr = &frame{args: []string{`C:\run\script.bat`}}
		c.runFrame()
	}()
	res.Out, res.Err, res.Code = c.out.String(), c.errs.String(), c.level
	res.Timeout, res.Big = c.timeout, c.big
	return res
}

// runFrame executes lines from the frame's position to the end of the frame.
func (c *cmdexe) runFrame() sig {
	for c.fr.pos < len(c.lines) {
		n := c.parseTop()
		if n == nil {
			continue
		}
		switch c.exec(n, nil) {
		case sGoto:
			if strings.EqualFold(c.target, "eof") {
				return sReturn
			}
			p := c.findLabel(c.target)
			if p < 0 {
				c.errs.WriteString("The system cannot find the batch label specified - " + c.target + "\n")
				c.level = 1
				return sEnd
			}
			c.fr.pos = p
		case sReturn:
			return sReturn
		case sEnd:
			return sEnd
		}
	}
	return sReturn
}

const delims = " \t,;="

func labelOf(line string) (string, bool) {
	s := strings.TrimLeft(line, delims)
	if !strings.HasPrefix(s, ":") {
		return "", false
	}
	s = strings.TrimLeft(s[1:], delims)
	if i := strings.IndexAny(s, " \t,;=:+&|<>"); i >= 0 {
		s = s[:i]
	}
	return s, true
}

// findLabel searches from the end of the current block and then from the start of the file.
func (c *cmdexe) findLabel(l string) int {
	n := len(c.lines)
	for k := 0; k < n; k++ {
		i := (c.fr.pos + k) % n
		if s, ok := labelOf(c.lines[i]); ok && strings.EqualFold(s, l) {
			return i + 1
		}
	}
	return -1
}

// ---------------------------------------------------------------- percent expansion

func (c *cmdexe) lookup(n string) (string, bool) {
	v, ok := c.env[strings.ToUpper(n)]
	if !ok {
		switch strings.ToUpper(n) {
		case "ERRORLEVEL":
			return strconv.Itoa(c.level), true
		case "CD":
			return `C:\run`, true
		case "DATE":
			return "19.11.2026", true
		case "TIME":
			return "20:00:00,00", true
		case "RANDOM":
			return "4711", true
		case "CMDEXTVERSION":
			return "2", true
		case "CMDCMDLINE":
			return "cmd.exe", true
		}
	}
	return v, ok
}

// modified evaluates name[:~start[,len]]; ok is false if the variable is not defined.
func (c *cmdexe) modified(ref string) (string, bool) {
	name, mod := ref, ""
	if i := strings.Index(ref, ":"); i > 0 {
		name, mod = ref[:i], ref[i+1:]
	}
	v, ok := c.lookup(name)
	if mod == "" {
		return v, ok
	}
	if !ok {
		bad("modifier of the undefined variable %q", ref)
	}
	if !strings.HasPrefix(mod, "~") {
		return substitute(v, mod, ref), true
	}
	p := strings.Split(mod[1:], ",")
	num := func(s string) int {
		n, err := strconv.Atoi(strings.TrimSpace(s))
		if err != nil {
			bad("substring position %q", ref)
		}
		return n
	}
	s := num(p[0])
	if s < 0 {
		s = max(0, len(v)+s)
	}
	s = min(s, len(v))
	e := len(v)
	if len(p) > 1 {
		n := num(p[1])
		if n < 0 {
			e = max(s, len(v)+n)
		} else {
			e = min(len(v), s+n)
		}
	}
	return v[s:e], true
}

// substitute evaluates name:old=new and name:*old=new; the case of letters does not matter.
func substitute(v, mod, ref string) string {
	old, repl, ok := strings.Cut(mod, "=")
	if !ok || old == "" || old == "*" {
		bad("substitution %q", ref)
	}
	if old[0] == '*' {
		if i := indexFold(v, old[1:]); i >= 0 {
			return repl + v[i+len(old)-1:]
		}
		return v
	}
	var b strings.Builder
	for {
		i := indexFold(v, old)
		if i < 0 {
			b.WriteString(v)
			return b.String()
		}
		b.WriteString(v[:i])
		b.WriteString(repl)
		v = v[i+len(old):]
	}
}

func indexFold(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if strings.EqualFold(s[i:i+len(sub)], sub) {
			return i
		}
	}
	return -1
}

func (c *cmdexe) percent(line string) string {
	if !strings.Contains(line, "%") {
		return line
	}
	var b strings.Builder
	for i := 0; i < len(line); i++ {
		if line[i] != '%' {
			b.WriteByte(line[i])
			continue
		}
		r := line[i+1:]
		if c.static { // the text stands for any value
			switch e := strings.IndexByte(r, '%'); {
			case r == "":
			case r[0] == '%':
				b.WriteByte('%')
				i++
			case r[0] >= '0' && r[0] <= '9' || r[0] == '*':
				b.WriteString("X")
				i++
			case len(r) > 1 && r[0] == '~' && r[1] >= '0' && r[1] <= '9':
				b.WriteString("X")
				i += 2
			case e >= 0:
				b.WriteString("X")
				i += e + 1
			}
			continue
		}
		switch {
		case r == "":
		case r[0] == '%':
			b.WriteByte('%')
			i++
		case r[0] >= '0' && r[0] <= '9':
			b.WriteString(c.arg(int(r[0] - '0')))
			i++
		case r[0] == '*':
			b.WriteString(strings.Join(c.fr.args[1:], " "))
			i++
		case len(r) > 1 && r[0] == '~' && r[1] >= '0' && r[1] <= '9':
			b.WriteString(strings.Trim(c.arg(int(r[1]-'0')), `"`))
			i += 2
		default:
			e := strings.IndexByte(r, '%')
			if e < 0 {
				continue // a lonely percent sign is removed
			}
			if v, ok := c.modified(r[:e]); ok {
				b.WriteString(v)
			}
			i += e + 1
		}
	}
	return b.String()
}

func (c *cmdexe) arg(n int) string {
	if n < len(c.fr.args) {
		return c.fr.args[n]
	}
	return ""
}

// ---------------------------------------------------------------- delayed expansion and FOR variables

func (c *cmdexe) delay(s string) string {
	if !c.delayed || !strings.Contains(s, "!") {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '^':
			i++
			if i < len(s) {
				b.WriteByte(s[i])
			}
		case '!':
			e := strings.IndexByte(s[i+1:], '!')
			if e < 0 {
				continue
			}
			if e > 0 {
				if v, ok := c.modified(s[i+1 : i+1+e]); ok {
					b.WriteString(v)
				}
			}
			i += e + 1
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func forSubst(s string, vars map[byte]string) string {
	if len(vars) == 0 || !strings.Contains(s, "%") {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+1 < len(s) {
			if s[i+1] == '~' && i+2 < len(s) {
				if v, ok := vars[s[i+2]]; ok {
					b.WriteString(strings.Trim(v, `"`))
					i += 2
					continue
				}
			}
			if v, ok := vars[s[i+1]]; ok {
				b.WriteString(v)
				i++
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// ---------------------------------------------------------------- parsing

type parser struct {
	c   *cmdexe
	s   string
	i   int
	end bool // no further line
}

func (p *parser) load() bool {
	if p.c.fr.pos >= len(p.c.lines) {
		p.end = true
		p.s, p.i = "", 0
		return false
	}
	p.s = p.c.percent(p.c.lines[p.c.fr.pos])
	p.i = 0
	p.c.fr.pos++
	return true
}

func (c *cmdexe) parseTop() *node {
	p := &parser{c: c}
	p.load()
	// A caret at the end of a line takes the following line break literally if an empty line follows.
	n := p.statement(0)
	if n == nil {
		return nil
	}
	for p.skip(); p.i < len(p.s); p.skip() {
		if p.s[p.i] != '&' {
			panic(syntaxErr{fmt.Sprintf("%q was unexpected at this time.", p.s[p.i:])})
		}
		p.i++
		m := p.statement(0)
		n = &node{kind: "block", list: []*node{n, m}}
	}
	return n
}

func (p *parser) skip() {
	for p.i < len(p.s) && strings.IndexByte(delims, p.s[p.i]) >= 0 {
		p.i++
	}
}

func (p *parser) word(w string) bool {
	r := p.s[p.i:]
	if len(r) < len(w) || !strings.EqualFold(r[:len(w)], w) {
		return false
	}
	if len(r) > len(w) && strings.IndexByte(delims+"(\"/", r[len(w)]) < 0 {
		return false
	}
	p.i += len(w)
	return true
}

// statement parses one command; depth is the number of open parentheses.
func (p *parser) statement(depth int) *node {
	p.skip()
	for p.i < len(p.s) && p.s[p.i] == '@' {
		p.i++
		p.skip()
	}
	if p.i >= len(p.s) {
		return nil
	}
	switch ch := p.s[p.i]; {
	case ch == '(':
		return p.block(depth)
	case ch == ')':
		if depth == 0 { // ignored like a remark
			if p.c.onClose != nil {
				p.c.onClose()
			}
			p.i = len(p.s)
			return nil
		}
		panic(syntaxErr{") was unexpected at this time."})
	case ch == ':':
		if p.c.onLabel != nil {
			p.c.onLabel(p.s[p.i:])
		}
		p.i = len(p.s)
		return &node{kind: "label"}
	}
	start := p.i
	switch {
	case p.word("if"):
		return p.ifStmt(depth)
	case p.word("for"):
		return p.forStmt(depth)
	case p.word("rem"):
		p.i = len(p.s)
		return &node{kind: "rem"}
	}
	p.i = start
	return p.simple(depth)
}

func (p *parser) simple(depth int) *node {
	var b strings.Builder
	quoted := false
loop:
	for ; p.i < len(p.s); p.i++ {
		ch := p.s[p.i]
		if quoted {
			if ch == '"' {
				quoted = false
			}
			b.WriteByte(ch)
			continue
		}
		switch ch {
		case '"':
			quoted = true
		case '^':
			p.i++
			if p.i >= len(p.s) {
				// Escaped line break: the first character of the next line is taken literally.
				if !p.load() {
					break loop
				}
				if p.s == "" {
					b.WriteByte('\n')
					if !p.load() {
						break loop
					}
					p.i = -1
					continue
				}
				b.WriteByte(p.s[0])
				p.i = 0
				continue
			}
			ch = p.s[p.i]
		case '&':
			break loop
		case ')':
			if depth > 0 {
				break loop
			}
		case '|', '<', '>':
			if !p.c.static {
				bad("operator %q in %q", string(ch), p.s)
			}
		}
		b.WriteByte(ch)
	}
	if p.c.onSimple != nil {
		p.c.onSimple(b.String())
	}
	return &node{kind: "simple", text: b.String()}
}

func (p *parser) block(depth int) *node {
	n := &node{kind: "block"}
	if p.c.onOpen != nil {
		p.c.onOpen()
	}
	p.i++
	label := false // the previous line was a label
	for {
		p.skip()
		for p.i >= len(p.s) {
			if !p.load() {
				panic(unclosed{})
			}
			p.skip()
		}
		if p.s[p.i] == ')' {
			if label {
				panic(syntaxErr{") was unexpected at this time."})
			}
			if p.c.onClose != nil {
				p.c.onClose()
			}
			p.i++
			return n
		}
		if p.s[p.i] == '&' {
			if len(n.list) == 0 {
				panic(syntaxErr{"& was unexpected at this time."})
			}
			p.i++
			continue
		}
		m := p.statement(depth + 1)
		if m == nil {
			continue
		}
		if m.kind == "label" {
			if label {
				if p.c.static {
					panic(syntaxErr{"two labels in a row inside a block"})
				}
				bad("two labels in a row inside a block")
			}
			label = true
			continue
		}
		label = false
		n.list = append(n.list, m)
		p.skip()
		if p.i < len(p.s) && p.s[p.i] != ')' && p.s[p.i] != '&' {
			panic(syntaxErr{fmt.Sprintf("%q was unexpected at this time.", p.s[p.i:])})
		}
	}
}

type unclosed struct{}
type stop struct{}

func (p *parser) token() string {
	p.skip()
	s := p.i
	quoted := false
	for p.i < len(p.s) {
		ch := p.s[p.i]
		if ch == '"' {
			quoted = !quoted
		} else if !quoted && strings.IndexByte(delims+"&|<>()", ch) >= 0 {
			break
		}
		p.i++
	}
	return p.s[s:p.i]
}

func (p *parser) ifStmt(depth int) *node {
	n := &node{kind: "if"}
	p.skip()
	if p.word("/i") {
		n.icase = true
		p.skip()
	}
	if p.word("not") {
		n.neg = true
		p.skip()
	}
	switch {
	case p.word("defined"):
		n.cond, n.a = "defined", p.token()
	case p.word("exist"):
		n.cond, n.a = "exist", p.token()
	case p.word("errorlevel"):
		n.cond, n.a = "errorlevel", p.token()
	default:
		n.cond = "cmp"
		n.a = p.token()
		r := strings.TrimLeft(p.s[p.i:], " \t")
		if strings.HasPrefix(r, "==") {
			n.op = "=="
			p.i = len(p.s) - len(r) + 2
		} else {
			n.op = strings.ToLower(p.token())
		}
		n.b = p.token()
		switch n.op {
		case "==", "equ", "neq", "lss", "leq", "gtr", "geq":
		default:
			panic(syntaxErr{fmt.Sprintf("%q was unexpected at this time.", n.op)})
		}
	}
	if n.a == "" {
		panic(syntaxErr{"The syntax of the command is incorrect."})
	}
	n.body = p.statement(depth)
	if n.body == nil || n.body.kind == "label" {
		panic(syntaxErr{"The syntax of the command is incorrect."})
	}
	if n.body.kind == "block" {
		p.skip()
		if p.i < len(p.s) && p.word("else") {
			n.els = p.statement(depth)
			if n.els == nil || n.els.kind == "label" {
				panic(syntaxErr{"The syntax of the command is incorrect."})
			}
		}
	}
	return n
}

func (p *parser) forStmt(depth int) *node {
	n := &node{kind: "for"}
	p.skip()
	switch {
	case p.word("/f"):
		n.cond = "f"
	case p.word("/l"):
		n.cond = "l"
	case p.i < len(p.s) && p.s[p.i] == '/':
		bad("form of FOR in %q", p.s)
	}
	p.skip()
	if n.cond == "f" && p.i < len(p.s) && p.s[p.i] == '"' {
		n.opts = strings.Trim(p.token(), `"`)
		// An option string such as "delims=" contains delimiters inside its quotes.
	}
	p.skip()
	if p.i+1 >= len(p.s) || p.s[p.i] != '%' {
		panic(syntaxErr{fmt.Sprintf("%q was unexpected at this time.", p.s[p.i:])})
	}
	n.v = p.s[p.i+1 : p.i+2]
	p.i += 2
	p.skip()
	if !p.word("in") {
		panic(syntaxErr{"in expected"})
	}
	p.skip()
	if p.i >= len(p.s) || p.s[p.i] != '(' {
		panic(syntaxErr{"( expected"})
	}
	p.i++
	s := p.i
	quoted := false
	for p.i < len(p.s) && (quoted || p.s[p.i] != ')') {
		if p.s[p.i] == '"' {
			quoted = !quoted
		}
		p.i++
	}
	if p.i >= len(p.s) {
		panic(syntaxErr{") expected"})
	}
	n.set = strings.TrimSpace(p.s[s:p.i])
	p.i++
	p.skip()
	if !p.word("do") {
		panic(syntaxErr{"do expected"})
	}
	n.body = p.statement(depth)
	if n.body == nil || n.body.kind == "label" {
		panic(syntaxErr{"The syntax of the command is incorrect."})
	}
	return n
}

// ---------------------------------------------------------------- execution

func (c *cmdexe) exec(n *node, vars map[byte]string) sig {
	c.steps++
	if c.steps > c.limit {
		c.timeout = true
		return sEnd
	}
	switch n.kind {
	case "rem", "label":
		return sNone
	case "block":
		for _, m := range n.list {
			if m == nil {
				continue
			}
			if s := c.exec(m, vars); s != sNone {
				return s
			}
		}
		return sNone
	case "if":
		if c.condition(n, vars) != n.neg {
			return c.exec(n.body, vars)
		} else if n.els != nil {
			return c.exec(n.els, vars)
		}
		return sNone
	case "for":
		return c.execFor(n, vars)
	}
	return c.command(c.delay(forSubst(n.text, vars)))
}

func number(s string) (int64, bool) {
	n, err := strconv.ParseInt(s, 0, 64)
	if err != nil || strings.Contains(s, "_") || strings.HasPrefix(s, "+") {
		return 0, false
	}
	return max(-1<<31, min(1<<31-1, n)), true
}

func (c *cmdexe) condition(n *node, vars map[byte]string) bool {
	a := c.delay(forSubst(n.a, vars))
	switch n.cond {
	case "defined":
		_, ok := c.lookup(a)
		return ok
	case "exist":
		_, err := os.Stat(filepath.Join(c.dir, strings.Trim(a, `"`)))
		return err == nil
	case "errorlevel":
		l, ok := number(a)
		if !ok {
			bad("errorlevel %q", a)
		}
		return int64(c.level) >= l
	}
	b := c.delay(forSubst(n.b, vars))
	if n.op == "==" {
		if n.icase {
			return strings.EqualFold(a, b)
		}
		return a == b
	}
	cmp := 0
	x, okx := number(a)
	y, oky := number(b)
	if okx && oky {
		cmp = int(max(-1, min(1, x-y)))
	} else {
		if n.icase {
			a, b = strings.ToLower(a), strings.ToLower(b)
		}
		cmp = strings.Compare(a, b)
		if n.op != "equ" && n.op != "neq" {
			bad("order of the texts %q and %q", a, b)
		}
	}
	switch n.op {
	case "equ":
		return cmp == 0
	case "neq":
		return cmp != 0
	case "lss":
		return cmp < 0
	case "leq":
		return cmp <= 0
	case "gtr":
		return cmp > 0
	}
	return cmp >= 0
}

func (c *cmdexe) execFor(n *node, vars map[byte]string) sig {
	set := c.delay(forSubst(n.set, vars))
	round := func(vals ...string) sig {
		inner := map[byte]string{}
		for k, v := range vars {
			inner[k] = v
		}
		for k, v := range vals {
			inner[n.v[0]+byte(k)] = v
		}
		return c.exec(n.body, inner)
	}
	switch n.cond {
	case "l":
		f := strings.FieldsFunc(set, func(r rune) bool { return strings.ContainsRune(delims, r) })
		var num [3]int64
		for k := range num {
			ok := false
			if len(f) == 3 {
				num[k], ok = number(f[k])
			}
			if !ok {
				bad("FOR /L (%s)", n.set)
			}
		}
		for k := num[0]; num[1] >= 0 && k <= num[2] || num[1] < 0 && k >= num[2]; k += num[1] {
			if s := round(strconv.FormatInt(k, 10)); s != sNone {
				return s
			}
			if c.timeout {
				return sEnd
			}
		}
		return sNone
	case "":
		if strings.ContainsAny(set, "*?") {
			bad("FOR over files: %s", n.set)
		}
		p := &parser{s: set}
		for {
			t := p.token()
			if t == "" {
				if p.i < len(p.s) {
					bad("set of FOR: %s", n.set)
				}
				return sNone
			}
			if s := round(t); s != sNone {
				return s
			}
		}
	}
	o := forOptions(n.opts)
	var lines []string
	q := byte('"')
	if o.backq {
		q = '\''
	}
	switch {
	case len(n.set) > 1 && n.set[0] == q && n.set[len(n.set)-1] == q && len(set) > 1:
		lines = strings.Split(set[1:len(set)-1], "\n")
	case n.set != "" && strings.IndexByte("'`", n.set[0]) >= 0:
		bad("FOR over the output of a command: %s", n.set)
	default:
		bad("FOR over the lines of a file: %s", n.set)
	}
	for _, l := range lines[min(o.skip, len(lines)):] {
		if l == "" || l[0] == o.eol {
			continue
		}
		vals, ok := o.split(l)
		if !ok {
			continue
		}
		if s := round(vals...); s != sNone {
			return s
		}
	}
	return sNone
}

type forOpts struct {
	delims string
	tokens []int // numbers of words; 0 is the rest of the line
	eol    byte
	skip   int
	backq  bool
}

func forOptions(s string) forOpts {
	o := forOpts{delims: " \t", tokens: []int{1}, eol: ';'}
	for s = strings.TrimLeft(s, " "); s != ""; s = strings.TrimLeft(s, " ") {
		k, v, _ := strings.Cut(s, "=")
		switch strings.ToLower(k) {
		case "delims":
			// A blank can only be the last one of the delimiters.
			o.delims = v
			s = ""
			for _, next := range []string{" tokens=", " eol=", " skip=", " usebackq"} {
				if i := strings.Index(o.delims, next); i >= 0 {
					o.delims, s = o.delims[:i], o.delims[i:]+s
				}
			}
		case "tokens":
			v, s, _ = strings.Cut(v, " ")
			o.tokens = nil
			if strings.HasSuffix(v, "*") {
				v = strings.TrimSuffix(v[:len(v)-1], ",")
				o.tokens = append(forTokens(v), 0)
			} else {
				o.tokens = forTokens(v)
			}
		case "eol":
			if v == "" {
				bad("FOR option eol")
			}
			o.eol, s = v[0], v[1:]
		case "skip":
			v, s, _ = strings.Cut(v, " ")
			n, ok := number(v)
			if !ok || n < 0 {
				bad("FOR option skip=%s", v)
			}
			o.skip = int(n)
		default:
			if k, rest, _ := strings.Cut(s, " "); strings.EqualFold(k, "usebackq") {
				o.backq, s = true, rest
				continue
			}
			bad("FOR options %q", s)
		}
	}
	return o
}

func forTokens(v string) []int {
	r := []int{}
	if v == "" {
		return r
	}
	for _, t := range strings.Split(v, ",") {
		a, b, _ := strings.Cut(t, "-")
		if b == "" {
			b = a
		}
		x, okx := number(a)
		y, oky := number(b)
		if !okx || !oky || x < 1 || y > 31 {
			bad("FOR tokens %q", v)
		}
		for ; x <= y; x++ {
			r = append(r, int(x))
		}
	}
	return r
}

// split returns the words of a line; a line without the first wanted word is skipped.
func (o forOpts) split(l string) ([]string, bool) {
	var words []string
	var rests []string // the line from each word on
	isDelim := func(b byte) bool { return strings.IndexByte(o.delims, b) >= 0 }
	for i := 0; i < len(l); {
		for i < len(l) && isDelim(l[i]) {
			i++
		}
		j := i
		for j < len(l) && !isDelim(l[j]) {
			j++
		}
		if i < len(l) {
			words, rests = append(words, l[i:j]), append(rests, l[i:])
		}
		i = j
	}
	vals, seen, last := []string{}, false, 0
	for _, t := range o.tokens {
		v := ""
		if t == 0 {
			if last < len(rests) {
				v = rests[last]
			}
		} else if t <= len(words) {
			v = words[t-1]
		}
		last = max(last, t)
		seen = seen || v != ""
		vals = append(vals, v)
	}
	return vals, seen
}

func (c *cmdexe) print(s string) {
	c.out.WriteString(s)
	if c.out.Len() > outCap {
		c.big = true
		panic(stop{})
	}
}

func (c *cmdexe) command(t string) sig {
	t = strings.TrimLeft(t, delims)
	if t == "" {
		return sNone
	}
	i := 0
	for i < len(t) && strings.IndexByte(delims+"(:./\"", t[i]) < 0 {
		i++
	}
	name, rest := strings.ToLower(t[:i]), t[i:]
	switch name {
	case "echo":
		if strings.EqualFold(strings.TrimSpace(rest), "off") && rest[0] == ' ' {
			c.echoOn = false
			return sNone
		}
		if c.echoOn {
			bad("echo is on")
		}
		if rest == "" || strings.IndexByte("(.:/,;=", rest[0]) < 0 {
			switch t := strings.TrimSpace(rest); {
			case strings.Contains(t, "/?"):
				bad("echo%s", rest)
			case strings.EqualFold(t, "on"):
				c.echoOn = true
				return sNone
			case strings.EqualFold(t, "off"):
				return sNone
			case t == "":
				c.print("ECHO is off.\n")
				return sNone
			}
		} else if strings.HasPrefix(rest, "/") {
			bad("echo%s", rest)
		}
		c.print(rest[1:] + "\n")
	case "setlocal":
		env := map[string]string{}
		for k, v := range c.env {
			env[k] = v
		}
		c.locals = append(c.locals, local{env, c.delayed, c.fr})
		switch strings.ToLower(strings.TrimSpace(rest)) {
		case "":
		case "enabledelayedexpansion":
			c.delayed = true
		case "disabledelayedexpansion":
			c.delayed = false
		default:
			bad("setlocal %s", rest)
		}
	case "endlocal":
		c.endlocal()
	case "set":
		c.set(rest)
	case "goto":
		r := strings.TrimLeft(rest, " \t,;=")
		r = strings.TrimPrefix(r, ":")
		if j := strings.IndexAny(r, " \t,;=:+"); j >= 0 {
			r = r[:j]
		}
		if r == "" {
			bad("goto without label")
		}
		c.target = r
		return sGoto
	case "exit":
		f := strings.Fields(rest)
		if len(f) == 0 || !strings.EqualFold(f[0], "/b") {
			bad("exit%s", rest)
		}
		if len(f) > 1 {
			n, ok := number(f[1])
			if !ok {
				bad("exit%s", rest)
			}
			c.level = int(n)
		}
		return sReturn
	case "call":
		return c.call(rest)
	default:
		bad("command %q", t)
	}
	return sNone
}

func (c *cmdexe) endlocal() {
	n := len(c.locals)
	if n == 0 || c.locals[n-1].frame != c.fr {
		return
	}
	c.env, c.delayed = c.locals[n-1].env, c.locals[n-1].delayed
	c.locals = c.locals[:n-1]
}

func (c *cmdexe) call(rest string) sig {
	r := strings.TrimLeft(rest, delims)
	if !strings.HasPrefix(r, ":") {
		bad("call of a program: %q", r)
	}
	if strings.ContainsAny(r, "^%&|<>") {
		bad("special character in the arguments of %q", r)
	}
	args := []string{}
	cur, quoted, in := "", false, false
	for i := 0; i < len(r); i++ {
		ch := r[i]
		if ch == '"' {
			quoted = !quoted
		}
		if !quoted && strings.IndexByte(delims, ch) >= 0 {
			if in {
				args = append(args, cur)
			}
			cur, in = "", false
			continue
		}
		cur += string(ch)
		in = true
	}
	if in {
		args = append(args, cur)
	}
	label := strings.TrimPrefix(args[0], ":")
	p := c.findLabel(label)
	if p < 0 {
		c.errs.WriteString("The system cannot find the batch label specified - " + label + "\n")
		c.level = 1
		return sNone
	}
	c.depth++
	if c.depth > 400 {
		bad("calls are nested too deeply")
	}
	old := c.fr
	c.fr = &frame{pos: p, args: args}
	s := c.runFrame()
	for n := len(c.locals); n > 0 && c.locals[n-1].frame == c.fr; n = len(c.locals) {
		c.endlocal()
	}
	c.fr = old
	c.depth--
	if s == sEnd {
		return sEnd
	}
	return sNone
}

func (c *cmdexe) setVar(name, value string) {
	if name == "" {
		bad("set without a name")
	}
	if strings.Contains(name, ":") {
		bad("colon in a variable name %q", name)
	}
	if len(value) > 8000 {
		bad("value of %q is too long", name)
	}
	if value == "" {
		delete(c.env, strings.ToUpper(name))
		return
	}
	c.env[strings.ToUpper(name)] = value
}

func (c *cmdexe) set(rest string) {
	r := strings.TrimLeft(rest, " \t")
	switch {
	case len(r) > 2 && strings.EqualFold(r[:2], "/a"):
		c.setA(strings.ReplaceAll(r[2:], `"`, ""))
		return
	case len(r) > 2 && strings.EqualFold(r[:2], "/p"):
		name, prompt, ok := strings.Cut(unquote(strings.TrimLeft(r[2:], " \t")), "=")
		if !ok {
			bad("set %s", r)
		}
		c.print(prompt)
		if len(c.stdin) > 0 {
			l := c.stdin[0]
			c.stdin = c.stdin[1:]
			if l != "" {
				c.setVar(name, l)
			}
		}
		return
	}
	name, value, ok := strings.Cut(unquote(r), "=")
	if !ok {
		bad("set %s", r)
	}
	c.setVar(name, value)
}

func unquote(s string) string {
	if !strings.HasPrefix(s, `"`) {
		return s
	}
	s = s[1:]
	if i := strings.LastIndexByte(s, '"'); i >= 0 {
		s = s[:i]
	}
	return s
}

// ---------------------------------------------------------------- SET /A

type arith struct {
	c *cmdexe
	s string
	i int
}

// setA evaluates assignments and expressions which are separated by commas.
func (c *cmdexe) setA(s string) {
	a := &arith{c: c, s: s}
	for {
		a.assign()
		if a.peek(",") == 0 {
			break
		}
		a.i++
	}
	if a.i < len(s) {
		bad("set /A %s", s)
	}
}

var assignOps = []string{"<<=", ">>=", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=", "="}

func (a *arith) assign() int32 {
	a.ws()
	start := a.i
	for a.i < len(a.s) && isName(a.s[a.i]) {
		a.i++
	}
	name := a.s[start:a.i]
	a.ws()
	if name != "" && !(name[0] >= '0' && name[0] <= '9') {
		for _, op := range assignOps {
			if !strings.HasPrefix(a.s[a.i:], op) {
				continue
			}
			a.i += len(op)
			v := a.assign()
			if op != "=" {
				v = a.apply(op[:len(op)-1], a.value(name), v)
			}
			a.c.setVar(name, strconv.FormatInt(int64(v), 10))
			return v
		}
	}
	a.i = start
	return a.bits(0)
}

var bitOps = []string{"|", "^", "&", "<<"} // from the weakest to the strongest

func (a *arith) bits(level int) int32 {
	if level == len(bitOps) {
		return a.sum()
	}
	v := a.bits(level + 1)
	for {
		a.ws()
		op := bitOps[level]
		if op == "<<" && strings.HasPrefix(a.s[a.i:], ">>") {
			op = ">>"
		}
		if !strings.HasPrefix(a.s[a.i:], op) || strings.HasPrefix(a.s[a.i+len(op):], "=") {
			return v
		}
		a.i += len(op)
		v = a.apply(op, v, a.bits(level+1))
	}
}

func (a *arith) apply(op string, v, w int32) int32 {
	switch op {
	case "+":
		return v + w
	case "-":
		return v - w
	case "*":
		return v * w
	case "/", "%":
		if w == 0 {
			bad("division by zero")
		}
		if v == -1<<31 && w == -1 {
			bad("overflow of a division")
		}
		if op == "/" {
			return v / w
		}
		return v % w
	case "&":
		return v & w
	case "|":
		return v | w
	case "^":
		return v ^ w
	}
	if w < 0 || w > 31 {
		bad("shift by %d", w)
	}
	if op == "<<" {
		return v << w
	}
	return v >> w
}

func isName(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

func (a *arith) ws() {
	for a.i < len(a.s) && (a.s[a.i] == ' ' || a.s[a.i] == '\t') {
		a.i++
	}
}

func (a *arith) peek(set string) byte {
	a.ws()
	if a.i < len(a.s) && strings.IndexByte(set, a.s[a.i]) >= 0 {
		return a.s[a.i]
	}
	return 0
}

func (a *arith) sum() int32 {
	v := a.product()
	for {
		switch a.peek("+-") {
		case '+':
			a.i++
			v += a.product()
		case '-':
			a.i++
			v -= a.product()
		default:
			return v
		}
	}
}

func (a *arith) product() int32 {
	v := a.unary()
	for {
		op := a.peek("*/%")
		if op == 0 {
			return v
		}
		a.i++
		v = a.apply(string(op), v, a.unary())
	}
}

func (a *arith) unary() int32 {
	switch a.peek("-+(~!") {
	case '-':
		a.i++
		return -a.unary()
	case '+':
		a.i++
		return a.unary()
	case '(':
		a.i++
		v := a.assign()
		if a.peek(")") == 0 {
			bad("set /A %s", a.s)
		}
		a.i++
		return v
	case '~':
		a.i++
		return ^a.unary()
	case '!':
		a.i++
		if a.unary() == 0 {
			return 1
		}
		return 0
	}
	a.ws()
	j := a.i
	for a.i < len(a.s) && isName(a.s[a.i]) {
		a.i++
	}
	t := a.s[j:a.i]
	if t == "" {
		bad("operand missing in set /A %s", a.s)
	}
	if t[0] >= '0' && t[0] <= '9' {
		n, err := strconv.ParseInt(t, 0, 64)
		if err != nil || n > 1<<31-1 {
			bad("number in set /A %s", a.s) // cmd.exe refuses the digits of the smallest 32-bit integer, too
		}
		return int32(n)
	}
	return a.value(t)
}

// value is the number a variable holds.
func (a *arith) value(name string) int32 {
	v, ok := a.c.lookup(name)
	if !ok {
		return 0
	}
	n, ok := number(v)
	if !ok {
		return 0
	}
	return int32(n)
}
