package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// searchWitness runs the property's oracle in /verif/replay against the real code, looking for an input that fails.
// It is only used after the verifier rejected an obligation, to give the failure a concrete input.
func searchWitness(prop string) (string, bool) {
	src := filepath.Join(verifDir(), "replay")
	fs, _ := filepath.Glob(filepath.Join(src, "*_test.go"))
	has := false
	repl := map[string]string{}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		if strings.Contains(string(b), "func TestVerif_"+prop+"(") {
			has = true
		}
		repl[filepath.Join(repoDir(), "zz_verif_"+filepath.Base(f))] = f
	}
	if !has {
		return "no oracle for this property", false
	}
	work := filepath.Join(verifDir(), "work")
	os.MkdirAll(work, 0755)
	ov := filepath.Join(work, "overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	os.WriteFile(ov, b, 0644)
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-overlay", ov, "-vet=off", "-count=1", "-timeout", "150s", "-run", "^TestVerif_"+prop+"$", ".")
	cmd.Dir = repoDir()
	cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOMEMLIMIT=6GiB")
	out, err := cmd.CombinedOutput()
	s := string(out)
	if len(s) > 6000 {
		s = s[:6000] + "\n..."
	}
	if err == nil {
		return "the oracle's search passed on the real code:\n" + s, false
	}
	// a failing test, a panic or a runtime failure of the code under test is a failing input; a build failure is not
	for _, m := range []string{"WITNESS", "panic:", "fatal error:", "DATA RACE"} {
		if i := strings.Index(string(out), m); i >= 0 {
			return s, true
		}
	}
	return "the oracle could not run:\n" + s, false
}

func witnessMain(args []string) int {
	fs := flag.NewFlagSet("witness", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	fs.Parse(args)
	s, ok := searchWitness(*prop)
	fmt.Println(s)
	if ok {
		return 1
	}
	return 0
}
