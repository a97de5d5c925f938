package main

// Histories of transpilations: several transpiler objects, edits of the files, relocated copies, fresh processes.

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"time"

	"github.com/monstermichl/typeshell/transpiler"
)

type HistStep struct {
	Act    string            `json:"act"` // T transpile, F transpile in a fresh process, W write files
	Obj    int               `json:"obj"`
	Path   string            `json:"path"` // below the job's directory
	Target string            `json:"target"`
	Cwd    string            `json:"cwd"` // F: working directory below the job's directory, the path is then made relative to it
	Env    map[string]string `json:"env"`
	Inst   bool              `json:"inst"` // F: use a second installation
	Files  map[string]string `json:"files"`
}
type HistOut struct {
	Hash string `json:"hash"` // of the script
	O    string `json:"o"`    // S, E, ...
}

func letter(r *TRes) HistOut {
	switch {
	case r.Hang:
		return HistOut{O: "H"}
	case r.Panic != "":
		return HistOut{O: "P", Hash: r.Panic}
	case r.Ok:
		return HistOut{O: "S", Hash: fmt.Sprintf("%x", sha256.Sum256([]byte(r.Script)))[:24]}
	case r.Both:
		return HistOut{O: "B"}
	}
	return HistOut{O: "E"}
}

// oneshot is what a fresh process does: one transpilation
func oneshot(path, target string) {
	json.NewEncoder(os.Stdout).Encode(letter(transpile(path, target, 20*time.Second)))
}

func runHist(j *Job, src string, res *Result) {
	type T interface {
		Transpile(string, transpiler.Converter) (string, error)
	}
	objs := map[int]T{}
	exe, _ := os.Executable()
	for _, s := range j.Hist {
		if s.Act == "W" {
			if err := writeTree(src, s.Files, j.Bin); err != nil {
				res.Fail = err.Error()
				return
			}
			res.Hist = append(res.Hist, HistOut{O: "W"})
			continue
		}
		p := filepath.Join(src) + "/" + s.Path
		if s.Act == "F" {
			e := exe
			if s.Inst {
				e = filepath.Join(filepath.Dir(exe), "second inst", "harness")
			}
			if s.Cwd != "" {
				if r, err := filepath.Rel(filepath.Join(src, s.Cwd), p); err == nil {
					p = r
				}
			}
			cmd := exec.Command(e, "oneshot", p, s.Target)
			cmd.Dir = filepath.Join(src, s.Cwd)
			cmd.Env = []string{"PATH=/usr/bin:/bin"}
			for k, v := range s.Env {
				cmd.Env = append(cmd.Env, k+"="+v)
			}
			b, err := cmd.Output()
			if err != nil && !exited(err) {
				res.Fail = err.Error()
				return
			}
			o := HistOut{}
			if err != nil || json.Unmarshal(b, &o) != nil {
				o = HistOut{O: "C"}
			}
			res.Hist = append(res.Hist, o)
			continue
		}
		if objs[s.Obj] == nil {
			t := transpiler.New()
			objs[s.Obj] = &t
		}
		o := objs[s.Obj]
		res.Hist = append(res.Hist, letter(guarded(func() (string, error) { return o.Transpile(p, newConv(s.Target)) }, 10*time.Second)))
	}
}
