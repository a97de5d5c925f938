// The harness executes the real TypeShell code (linked from /repo's working tree) on jobs and records what happened.
// One JSON job per line in, one JSON result per line out.
package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/monstermichl/typeshell/converters/bash"
	"github.com/monstermichl/typeshell/converters/batch"
	"github.com/monstermichl/typeshell/lexer"
	"github.com/monstermichl/typeshell/transpiler"
)

type Job struct {
	Id      int               `json:"id"`
	Op      string            `json:"op"` // "" (transpile/run), "lex", "hist", "calib"
	Files   map[string]string `json:"files"`
	Links   map[string]string `json:"links"`
	Main    string            `json:"main"`
	Bash    bool              `json:"bash"`
	Batch   bool              `json:"batch"`
	Run     bool              `json:"run"`
	RunBat  bool              `json:"runbat"`
	Stdin   string            `json:"stdin"`
	RFiles  map[string]string `json:"rfiles"` // files present in the run directory
	RDirs   []string          `json:"rdirs"`
	KeepFs  bool              `json:"keepfs"`
	Probes  bool              `json:"probes"`
	Hashes  bool              `json:"hashes"`  // return hashes of script texts
	Scripts bool              `json:"scripts"` // return script texts
	Syntax  bool              `json:"syntax"`  // bash -n
	Struct  bool              `json:"struct"`  // structure of the Batch script
	Script  string            `json:"script"`  // run this script text instead of transpiling
	Timeout int               `json:"timeout"` // ms
	Bin     bool              `json:"bin"`     // file contents are latin-1 encoded bytes
	Hist    []HistStep        `json:"hist"`
	Env     map[string]string `json:"env"`
	Calls   []StrCall         `json:"calls"`
	Vars    []string          `json:"vars"` // bulk: contents of the main file, one after the other
}

type TRes struct {
	Ok     bool   `json:"ok"`
	Script string `json:"script,omitempty"`
	Err    string `json:"err,omitempty"`
	Panic  string `json:"panic,omitempty"`
	Hang   bool   `json:"hang,omitempty"`
	Both   bool   `json:"both,omitempty"` // error and script at once
	Hash   string `json:"hash,omitempty"`
	Ms     int64  `json:"ms"`
}

type RRes struct {
	Out     string            `json:"out"`
	Err     string            `json:"err"`
	Code    int               `json:"code"`
	Timeout bool              `json:"timeout,omitempty"`
	Big     bool              `json:"big,omitempty"`
	Files   map[string]string `json:"files,omitempty"`
	Argv    [][]string        `json:"argv,omitempty"`
	Unsup   string            `json:"unsup,omitempty"`
}

type Result struct {
	Id     int           `json:"id"`
	Bash   *TRes         `json:"bash,omitempty"`
	Batch  *TRes         `json:"batch,omitempty"`
	Run    *RRes         `json:"run,omitempty"`
	RunBat *RRes         `json:"runbat,omitempty"`
	Syntax string        `json:"syntax,omitempty"`
	Toks   []Tok         `json:"toks,omitempty"`
	LexErr string        `json:"lexerr,omitempty"`
	LexPan string        `json:"lexpanic,omitempty"`
	Hist   []HistOut     `json:"hist,omitempty"`
	Vals   []interface{} `json:"vals,omitempty"`
	Bulk   []string      `json:"bulk,omitempty"` // per variant and target: S script, E error, e error without text, B both, P panic, H hang
	Ms     int64         `json:"ms,omitempty"`   // longest transpilation
	Struct *Struct       `json:"struct,omitempty"`
	Fail   string        `json:"fail,omitempty"` // harness failure
}

type Tok struct {
	T string `json:"t"`
	V string `json:"v"` // latin-1 encoded bytes
	R int    `json:"r"`
	C int    `json:"c"`
}

var tokName = map[lexer.TokenType]string{
	lexer.UNKNOWN:                  "UNKNOWN",
	lexer.COMMENT:                  "COMMENT",
	lexer.OPENING_ROUND_BRACKET:    "OPENING_ROUND_BRACKET",
	lexer.CLOSING_ROUND_BRACKET:    "CLOSING_ROUND_BRACKET",
	lexer.OPENING_SQUARE_BRACKET:   "OPENING_SQUARE_BRACKET",
	lexer.CLOSING_SQUARE_BRACKET:   "CLOSING_SQUARE_BRACKET",
	lexer.OPENING_CURLY_BRACKET:    "OPENING_CURLY_BRACKET",
	lexer.CLOSING_CURLY_BRACKET:    "CLOSING_CURLY_BRACKET",
	lexer.ASSIGN_OPERATOR:          "ASSIGN_OPERATOR",
	lexer.COMPOUND_ASSIGN_OPERATOR: "COMPOUND_ASSIGN_OPERATOR",
	lexer.UNARY_OPERATOR:           "UNARY_OPERATOR",
	lexer.BINARY_OPERATOR:          "BINARY_OPERATOR",
	lexer.COMPARE_OPERATOR:         "COMPARE_OPERATOR",
	lexer.LOGICAL_OPERATOR:         "LOGICAL_OPERATOR",
	lexer.SHORT_INIT_OPERATOR:      "SHORT_INIT_OPERATOR",
	lexer.INCREMENT_OPERATOR:       "INCREMENT_OPERATOR",
	lexer.DECREMENT_OPERATOR:       "DECREMENT_OPERATOR",
	lexer.BOOL_LITERAL:             "BOOL_LITERAL",
	lexer.NUMBER_LITERAL:           "NUMBER_LITERAL",
	lexer.STRING_LITERAL:           "STRING_LITERAL",
	lexer.NIL_LITERAL:              "NIL_LITERAL",
	lexer.DATA_TYPE:                "DATA_TYPE",
	lexer.COMMA:                    "COMMA",
	lexer.COLON:                    "COLON",
	lexer.SEMICOLON:                "SEMICOLON",
	lexer.DOT:                      "DOT",
	lexer.SPACE:                    "SPACE",
	lexer.NEWLINE:                  "NEWLINE",
	lexer.IDENTIFIER:               "IDENTIFIER",
	lexer.IMPORT:                   "IMPORT",
	lexer.VAR_DEFINITION:           "VAR_DEFINITION",
	lexer.FUNCTION_DEFINITION:      "FUNCTION_DEFINITION",
	lexer.RETURN:                   "RETURN",
	lexer.IF:                       "IF",
	lexer.ELSE:                     "ELSE",
	lexer.SWITCH:                   "SWITCH",
	lexer.CASE:                     "CASE",
	lexer.DEFAULT:                  "DEFAULT",
	lexer.FOR:                      "FOR",
	lexer.RANGE:                    "RANGE",
	lexer.BREAK:                    "BREAK",
	lexer.CONTINUE:                 "CONTINUE",
	lexer.LEN:                      "LEN",
	lexer.PRINT:                    "PRINT",
	lexer.INPUT:                    "INPUT",
	lexer.COPY:                     "COPY",
	lexer.ITOA:                     "ITOA",
	lexer.EXISTS:                   "EXISTS",
	lexer.READ:                     "READ",
	lexer.WRITE:                    "WRITE",
	lexer.PANIC:                    "PANIC",
	lexer.AT:                       "AT",
	lexer.PIPE:                     "PIPE",
	lexer.EOF:                      "EOF",
}

func latin1(s string) string { // bytes -> one rune per byte
	r := make([]rune, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = rune(s[i])
	}
	return string(r)
}

func unlatin1(s string) []byte {
	b := make([]byte, 0, len(s))
	for _, r := range s {
		b = append(b, byte(r))
	}
	return b
}

func newConv(t string) transpiler.Converter {
	if t == "bash" {
		return bash.New()
	}
	return batch.New()
}

func guarded(f func() (string, error), timeout time.Duration) *TRes {
	start := time.Now()
	ch := make(chan *TRes, 1)
	go func() {
		res := &TRes{}
		defer func() {
			if r := recover(); r != nil {
				res = &TRes{Panic: fmt.Sprint(r)}
			}
			ch <- res
		}()
		s, err := f()
		if err != nil {
			res.Err = err.Error()
			if res.Err == "" {
				res.Err = ""
			}
			res.Both = s != ""
		} else {
			res.Ok = true
			res.Script = s
		}
	}()
	select {
	case r := <-ch:
		r.Ms = time.Since(start).Milliseconds()
		return r
	case <-time.After(timeout):
		return &TRes{Hang: true, Ms: time.Since(start).Milliseconds()}
	}
}

func transpile(main string, target string, timeout time.Duration) *TRes {
	return guarded(func() (string, error) {
		t := transpiler.New()
		return t.Transpile(main, newConv(target))
	}, timeout)
}

func lex(src string, res *Result) {
	ch := make(chan bool, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				res.LexPan = fmt.Sprint(r)
			}
			ch <- true
		}()
		toks, err := lexer.Tokenize(src)
		if err != nil {
			res.LexErr = "error: " + err.Error()
		}
		for _, t := range toks {
			res.Toks = append(res.Toks, Tok{tokName[t.Type()], latin1(t.Value()), t.Row(), t.Column()})
		}
	}()
	select {
	case <-ch:
	case <-time.After(10 * time.Second):
		res.LexPan = "hang"
	}
}

var scratch string

func writeTree(dir string, files map[string]string, bin bool) error {
	for p, c := range files {
		f := filepath.Join(dir, p)
		if err := os.MkdirAll(filepath.Dir(f), 0755); err != nil {
			return err
		}
		b := []byte(c)
		if bin {
			b = unlatin1(c)
		}
		if err := os.WriteFile(f, b, 0644); err != nil {
			return err
		}
	}
	return nil
}

func do(j *Job) *Result {
	res := &Result{Id: j.Id}
	if j.Op == "lex" {
		src := j.Files["src"]
		if j.Bin {
			src = string(unlatin1(src))
		}
		lex(src, res)
		return res
	}
	if j.Op == "gostr" {
		res.Vals = goStrings(j.Calls)
		return res
	}
	dir, err := os.MkdirTemp(scratch, "j")
	if err != nil {
		res.Fail = err.Error()
		return res
	}
	defer os.RemoveAll(dir)
	os.Chmod(dir, 0755)
	src := filepath.Join(dir, "src")
	os.Mkdir(src, 0755)
	if err := writeTree(src, j.Files, j.Bin); err != nil {
		res.Fail = err.Error()
		return res
	}
	for p, t := range j.Links {
		os.MkdirAll(filepath.Dir(filepath.Join(src, p)), 0755)
		os.Symlink(t, filepath.Join(src, p))
	}
	if j.Op == "hist" {
		runHist(j, src, res)
		return res
	}
	to := 10 * time.Second
	main := filepath.Join(src, j.Main)
	if j.Op == "bulk" {
		for i, v := range j.Vars {
			b := []byte(v)
			if j.Bin {
				b = unlatin1(v)
			}
			if err := os.WriteFile(main, b, 0644); err != nil {
				res.Fail = err.Error()
				return res
			}
			o := ""
			for _, t := range []string{"bash", "batch"} {
				if o == "E" && i%4 != 0 { // rejected before a converter is involved, most likely
					break
				}
				r := transpile(main, t, to)
				if r.Ms > res.Ms {
					res.Ms = r.Ms
				}
				switch {
				case r.Hang:
					o += "H"
				case r.Panic != "":
					o += "P"
				case r.Ok:
					o += "S"
				case r.Both:
					o += "B"
				case strings.TrimSpace(r.Err) == "":
					o += "e"
				default:
					o += "E"
				}
			}
			res.Bulk = append(res.Bulk, o)
			if strings.Contains(o, "H") { // the rest is not executed next to runaway goroutines
				break
			}
		}
		return res
	}
	if j.Script != "" {
		res.Bash = &TRes{Ok: true, Script: j.Script}
		res.Batch = res.Bash
	} else {
		if j.Bash {
			res.Bash = transpile(main, "bash", to)
		}
		if j.Batch {
			res.Batch = transpile(main, "batch", to)
		}
	}
	if j.Syntax && res.Bash != nil && res.Bash.Ok {
		res.Syntax = bashSyntax(dir, res.Bash.Script)
		if strings.HasPrefix(res.Syntax, notStarted) {
			res.Fail = res.Syntax
		}
	}
	if j.Struct && res.Batch != nil && res.Batch.Ok {
		res.Struct = scriptStruct(res.Batch.Script)
	}
	if j.Run && res.Bash != nil && res.Bash.Ok {
		res.Run = runBash(j, dir, res.Bash.Script)
		if res.Run.Code == -1 && strings.HasPrefix(res.Run.Err, notStarted) {
			res.Fail = res.Run.Err
		}
	}
	if j.RunBat && res.Batch != nil && res.Batch.Ok {
		res.RunBat = runBatch(j, dir, res.Batch.Script)
	}
	if j.Hashes {
		for _, t := range []*TRes{res.Bash, res.Batch} {
			if t != nil && t.Ok {
				t.Hash = fmt.Sprintf("%x", sha256.Sum256([]byte(t.Script)))
			}
		}
	}
	if !j.Scripts {
		if res.Bash != nil {
			res.Bash = &TRes{Ok: res.Bash.Ok, Err: res.Bash.Err, Panic: res.Bash.Panic, Hang: res.Bash.Hang, Hash: res.Bash.Hash, Both: res.Bash.Both, Ms: res.Bash.Ms}
		}
		if res.Batch != nil {
			res.Batch = &TRes{Ok: res.Batch.Ok, Err: res.Batch.Err, Panic: res.Batch.Panic, Hang: res.Batch.Hang, Hash: res.Batch.Hash, Both: res.Batch.Both, Ms: res.Batch.Ms}
		}
	}
	return res
}

func main() {
	debug.SetMaxStack(128 << 20)
	debug.SetGCPercent(800)
	runtime.GOMAXPROCS(2)
	syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 64 << 20, Max: 64 << 20})
	syscall.Umask(0)
	if os.Args[1] == "oneshot" {
		oneshot(os.Args[2], os.Args[3])
		return
	}
	scratch = os.Args[1]
	go func() { // unbounded memory is a crash, not a reason to take the machine down
		for {
			time.Sleep(200 * time.Millisecond)
			m := runtime.MemStats{}
			runtime.ReadMemStats(&m)
			if m.Sys > 3<<30 {
				fmt.Fprintln(os.Stderr, "memory exhausted")
				os.Exit(77)
			}
		}
	}()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			j := &Job{}
			if e := json.Unmarshal(line, j); e != nil {
				enc.Encode(&Result{Id: -1, Fail: e.Error()})
			} else {
				enc.Encode(do(j))
			}
			out.Flush()
		}
		if err != nil {
			return
		}
	}
}
