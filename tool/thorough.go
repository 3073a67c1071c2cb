package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// The thorough tier decides the property once more for every build
// configuration below: files, constants and integer widths differ between
// them, and a property that holds for the host's build alone does not hold.
var configs = []struct {
	Name string
	Env  []string
	Tags string
}{
	{"linux/386", []string{"GOOS=linux", "GOARCH=386"}, ""},
	{"windows/amd64", []string{"GOOS=windows", "GOARCH=amd64"}, ""},
	{"darwin/arm64", []string{"GOOS=darwin", "GOARCH=arm64"}, ""},
	{"linux/amd64 -tags race,verif,debug", []string{"GOOS=linux", "GOARCH=amd64"}, "race,verif,debug"},
}

// otherConfigs runs the analyser on the other configurations and adds what it
// found to the evidence of the host's.
func otherConfigs(id, verif string) bool {
	path := filepath.Join(verif, "evidence", id+".json")
	ok := true
	var extra []map[string]any
	begin := time.Now()
	viols := 0
	for _, cfg := range configs {
		dir, err := os.MkdirTemp("", "wv")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt")); err == nil {
			os.WriteFile(filepath.Join(dir, "known-findings.txt"), b, 0o644)
		}
		self, _ := os.Executable()
		cmd := exec.Command(self, "-p", id, "-tier", "quick", "-verif", dir, "-repo", repoDir, "-tags", cfg.Tags)
		cmd.Env = append(append(os.Environ(), "CGO_ENABLED=0"), cfg.Env...)
		out, err := cmd.CombinedOutput()
		var ev struct {
			Violations int
			Coverage   map[string]any
		}
		b, rerr := os.ReadFile(filepath.Join(dir, "evidence", id+".json"))
		if rerr == nil {
			rerr = json.Unmarshal(b, &ev)
		}
		fmt.Printf("-- %s\n%s", cfg.Name, out)
		e := map[string]any{"configuration": cfg.Name, "violations": ev.Violations}
		for _, k := range []string{"obligations", "discharged", "functions_analysed", "abstract_paths", "instruction_steps"} {
			e[k] = ev.Coverage[k]
		}
		extra = append(extra, e)
		if err != nil || rerr != nil {
			ok = false
			viols += max(ev.Violations, 1)
			rep := filepath.Join(verif, "reports", id+"."+strings.NewReplacer("/", "-", " ", "-", ",", "-").Replace(cfg.Name)+".txt")
			os.MkdirAll(filepath.Dir(rep), 0o755)
			os.WriteFile(rep, out, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
		}
		os.RemoveAll(dir)
	}
	var ev map[string]any
	if b, err := os.ReadFile(path); err == nil && json.Unmarshal(b, &ev) == nil {
		ev["tier"] = "thorough"
		ev["coverage"].(map[string]any)["configurations"] = extra
		if n, isNum := ev["violations"].(float64); isNum {
			ev["violations"] = int(n) + viols
		}
		if w, isNum := ev["wall_s"].(float64); isNum {
			ev["wall_s"] = w + time.Since(begin).Seconds()
		}
		b, _ = json.MarshalIndent(ev, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
	}
	return ok
}
