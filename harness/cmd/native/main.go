// Command native replays recorded inputs against the compiled repository.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"

	"yarqlverif/harness/h"
	"yarqlverif/harness/sym"
)

type job struct {
	H     string      `json:"h"`
	Tier  int         `json:"tier"`
	In    []sym.Input `json:"in"`
	Retry int         `json:"retry"`
}

type res struct {
	Status string      `json:"status"`
	Msg    string      `json:"msg"`
	Obs    [][2]string `json:"obs"`
}

func one(j job) (r res) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(sym.Stop); ok {
				r = res{Status: s.Status, Msg: s.Msg}
			} else {
				r = res{Status: "panic", Msg: fmt.Sprint(e) + " " + site()}
			}
		}
		r.Obs = sym.Obs
	}()
	f := h.Native[j.H]
	if f == nil {
		return res{Status: "error", Msg: "no harness " + j.H}
	}
	sym.Load(j.In, j.Tier)
	f()
	return res{Status: "ok"}
}

func site() string {
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.HasPrefix(l, "\t/repo/") {
			return strings.TrimSpace(l)
		}
	}
	return ""
}

func main() {
	sym.Show = os.Getenv("VERIF_SHOW") != ""
	debug.SetMaxStack(128 << 20)
	log.SetOutput(io.Discard)
	out := os.Stdout
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = null
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var jobs []job
	if err := json.Unmarshal(b, &jobs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	for i, j := range jobs {
		if strings.HasSuffix(j.H, "_global") && len(jobs) > 1 {
			// registers for the whole process
			fmt.Fprintf(out, "%s\n", own(os.Args[1], i, j))
			continue
		}
		n := j.Retry
		if n < 1 {
			n = 1
		}
		var r res
		for i := 0; i < n; i++ {
			r = one(j)
			if r.Status == "assert" || r.Status == "panic" {
				break
			}
		}
		o, _ := json.Marshal(r)
		fmt.Fprintf(out, "RES %s\n", o)
	}
}

// own runs a job in a process of its own.
func own(path string, i int, j job) string {
	f := fmt.Sprintf("%s.%d", path, i)
	defer os.Remove(f)
	b, _ := json.Marshal([]job{j})
	if err := os.WriteFile(f, b, 0600); err != nil {
		return "RES {\"status\":\"error\"}"
	}
	o, _ := exec.Command(os.Args[0], f).CombinedOutput()
	for _, l := range strings.Split(string(o), "\n") {
		if strings.HasPrefix(l, "RES ") {
			return l
		}
	}
	b, _ = json.Marshal(res{Status: "panic", Msg: strings.SplitN(string(o), "\n", 2)[0]})
	return "RES " + string(b)
}
