package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

const nobody = 65534
const outCap = 1 << 20

type capped struct {
	b   bytes.Buffer
	big bool
	hit func()
}

func (c *capped) Write(p []byte) (int, error) {
	if c.b.Len()+len(p) > outCap {
		if !c.big {
			c.big = true
			c.hit()
		}
		return len(p), nil
	}
	return c.b.Write(p)
}

func exited(err error) bool {
	_, ok := err.(*exec.ExitError)
	return ok
}

// retried runs a command again if it could not be started.
func retried(f func() ([]byte, error)) ([]byte, error) {
	for i := 1; ; i++ {
		b, err := f()
		if err == nil || exited(err) || i == 4 {
			return b, err
		}
		time.Sleep(time.Duration(i*i) * 200 * time.Millisecond)
	}
}

func bashSyntax(dir, script string) string {
	f := filepath.Join(dir, "syn.sh")
	os.WriteFile(f, []byte(script), 0644)
	out, err := retried(func() ([]byte, error) { return exec.Command("/bin/bash", "-n", f).CombinedOutput() })
	if err != nil && !exited(err) {
		return "harness: " + err.Error()
	}
	if err != nil {
		return fmt.Sprintf("bash -n: %v: %s", err, out)
	}
	if len(out) > 0 {
		return string(out)
	}
	return ""
}

var probeBin string

// runBash runs the script as an unprivileged user in a scratch directory of its own.
// runBash runs a script; a run that could not be started is a failure of the harness, not an answer of the script.
func runBash(j *Job, dir, script string) *RRes {
	for i := 1; ; i++ {
		res := runBashOnce(j, dir, script)
		if !strings.HasPrefix(res.Err, notStarted) || res.Code != -1 || i == 4 {
			return res
		}
		time.Sleep(time.Duration(i*i) * 200 * time.Millisecond)
	}
}

const notStarted = "harness: "

func runBashOnce(j *Job, dir, script string) *RRes {
	res := &RRes{}
	run := filepath.Join(dir, "run")
	os.Mkdir(run, 0755)
	os.Chown(run, nobody, nobody)
	for _, d := range j.RDirs {
		os.MkdirAll(filepath.Join(run, d), 0755)
		os.Chown(filepath.Join(run, d), nobody, nobody)
	}
	for p, c := range j.RFiles {
		f := filepath.Join(run, p)
		os.WriteFile(f, []byte(c), 0644)
		os.Chown(f, nobody, nobody)
	}
	sf := filepath.Join(dir, "script.sh")
	os.WriteFile(sf, []byte(script), 0755)
	path := "/usr/bin:/bin"
	log := filepath.Join(dir, "argv.log")
	if j.Probes {
		path = filepath.Dir(os.Args[0]) + "/probes:" + path
		os.Symlink(filepath.Dir(os.Args[0])+"/probes", filepath.Join(run, "p d")) // programs reached by a path with a blank
		os.WriteFile(log, nil, 0666)
		os.Chmod(log, 0666)
	}
	cmd := exec.Command("/bin/bash", sf)
	cmd.Dir = run
	cmd.Env = []string{"PATH=" + path, "HOME=" + run, "LC_ALL=C.UTF-8", "PROBE_LOG=" + log, "TERM=dumb"}
	for k, v := range j.Env {
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL,
		Credential: &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: false}}
	kill := func() {
		if cmd.Process != nil {
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		}
	}
	so := &capped{hit: kill}
	se := &capped{hit: kill}
	cmd.Stdout, cmd.Stderr = so, se
	cmd.Stdin = strings.NewReader(j.Stdin)
	cmd.WaitDelay = 500 * time.Millisecond
	to := time.Duration(j.Timeout) * time.Millisecond
	if to == 0 {
		to = 10 * time.Second
	}
	if err := cmd.Start(); err != nil {
		res.Err = notStarted + err.Error()
		res.Code = -1
		return res
	}
	timer := time.AfterFunc(to, func() { res.Timeout = true; kill() })
	err := cmd.Wait()
	timer.Stop()
	kill()
	res.Out, res.Err = so.b.String(), se.b.String()
	res.Big = so.big || se.big
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			res.Code = ee.ExitCode()
		} else {
			res.Code = 0
			if err != exec.ErrWaitDelay {
				res.Code = -2
			}
		}
	}
	if j.KeepFs {
		res.Files = map[string]string{}
		filepath.Walk(run, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode().IsRegular() {
				f, _ := os.Open(p)
				b, _ := io.ReadAll(io.LimitReader(f, outCap))
				f.Close()
				rel, _ := filepath.Rel(run, p)
				res.Files[rel] = string(b)
			}
			return nil
		})
	}
	if j.Probes {
		b, _ := os.ReadFile(log)
		res.Argv = [][]string{}
		for _, l := range strings.Split(strings.TrimRight(string(b), "\n"), "\n") {
			if l == "" {
				continue
			}
			av := []string{}
			for _, h := range strings.Split(l, ",") {
				d, _ := hex.DecodeString(strings.TrimPrefix(h, "x"))
				av = append(av, string(d))
			}
			res.Argv = append(res.Argv, av)
		}
	}
	return res
}
