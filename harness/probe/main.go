// Probe programs for command calls: one binary, several names.
package main

import (
	"encoding/hex"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func main() {
	// every probe drains its input before it logs, so that the log of a pipeline is in stage order
	input, _ := io.ReadAll(os.Stdin)
	name := filepath.Base(os.Args[0])
	if log := os.Getenv("PROBE_LOG"); log != "" {
		parts := []string{"x" + hex.EncodeToString([]byte(name))}
		for _, a := range os.Args[1:] {
			parts = append(parts, "x"+hex.EncodeToString([]byte(a)))
		}
		if f, err := os.OpenFile(log, os.O_APPEND|os.O_WRONLY, 0); err == nil {
			f.WriteString(strings.Join(parts, ",") + "\n")
			f.Close()
		}
	}
	arg := func(i int) string {
		if i < len(os.Args) {
			return os.Args[i]
		}
		return ""
	}
	in := func() string { return string(input) }
	switch name {
	case "pshow":
		s := ""
		for _, a := range os.Args[1:] {
			s += "<" + a + ">"
		}
		os.Stdout.WriteString(s + "\n")
	case "pecho":
		os.Stdout.WriteString(arg(1))
	case "pfilt":
		os.Stdout.WriteString(arg(1) + "(" + in() + ")\n")
	case "pcat":
		os.Stdout.WriteString(in())
	case "perr":
		os.Stdout.WriteString(arg(1))
		for i := 2; i < len(os.Args); i++ {
			os.Stderr.WriteString(os.Args[i] + "\n")
		}
	case "pfail":
		os.Stdout.WriteString(arg(2))
		c, _ := strconv.Atoi(arg(1))
		os.Exit(c)
	}
}
