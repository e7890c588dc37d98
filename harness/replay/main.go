// Command replay runs harnesses natively with recorded inputs.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"

	"github.com/mlange-42/bbn/internal/zzverif/h"
	"github.com/mlange-42/bbn/internal/zzverif/vh"
)

func once(f func(), in []vh.Input, dir string) (res string) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case vh.Violation:
			res = "VH-VIOLATION " + x.Label
		case vh.Diverged:
			res = "VH-DIVERGED " + x.Msg
		case vh.Skip:
			res = "VH-SKIP"
		case vh.Stopped:
		default:
			res = fmt.Sprintf("VH-PANIC %v\n%s", x, debug.Stack())
		}
	}()
	vh.Begin(in, dir)
	f()
	return ""
}

func main() {
	dir, err := os.MkdirTemp("", "vhrun")
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	code := run(dir)
	os.RemoveAll(dir)
	os.Exit(code)
}

func quiet() func(string) {
	out := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	return func(s string) { fmt.Fprintln(out, s) }
}

func run(dir string) int {
	say := quiet()
	if os.Args[1] == "-validate" {
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			say(err.Error())
			return 3
		}
		var j struct {
			Harness string       `json:"harness"`
			Runs    [][]vh.Input `json:"runs"`
		}
		if err := json.Unmarshal(b, &j); err != nil {
			say(err.Error())
			return 3
		}
		f := h.All[j.Harness]
		for _, in := range j.Runs {
			if r := once(f, in, dir); r == "" {
				say("VH-OK")
			} else {
				say("VH-BAD " + r)
			}
		}
		return 0
	}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		say(err.Error())
		return 3
	}
	reps := 1
	if len(os.Args) > 2 {
		reps, _ = strconv.Atoi(os.Args[2])
	}
	var v struct {
		Harness string     `json:"harness"`
		Inputs  []vh.Input `json:"inputs"`
	}
	if err := json.Unmarshal(b, &v); err != nil {
		say(err.Error())
		return 3
	}
	f := h.All[v.Harness]
	if f == nil {
		say("no harness " + v.Harness)
		return 3
	}
	last := ""
	for i := 0; i < reps; i++ {
		last = once(f, v.Inputs, dir)
		if len(last) > 12 && (last[:12] == "VH-VIOLATION" || last[:8] == "VH-PANIC") {
			say(last)
			return 1
		}
	}
	say("not reproduced: " + last)
	return 0
}
