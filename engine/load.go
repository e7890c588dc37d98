package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// dropped names harness files that do not compile against the current code (a signature they use was changed). Their
// harnesses are reported as missing.
var dropped = map[string]bool{}

// overlay maps the harness files into the repository's module (and optional replacements of library files).
// Files named tui_* need the interactive tool and are left out unless the property is about it.
// Files named cmd_* need the commands, which are copied as packages that can be imported.
func overlayFiles(verif, repo, dir string, tui, cmd bool) (map[string]string, error) {
	out := map[string]string{}
	if cmd {
		if err := copyCommands(repo, dir, out); err != nil {
			return nil, err
		}
	}
	root := filepath.Join(verif, "harness")
	err := filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		if strings.HasPrefix(filepath.Base(p), "tui_") && !tui || strings.HasPrefix(filepath.Base(p), "cmd_") && !cmd {
			return nil
		}
		if dropped[filepath.Base(p)] {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		out[filepath.Join(repo, "internal", "zzverif", rel)] = p
		return nil
	})
	return out, err
}

var mainClause = regexp.MustCompile(`(?m)^package main\b`)
var exitCall = regexp.MustCompile(`\bos\.Exit\(`)

// copyCommands makes the packages under cmd importable: the package name is changed, main can be called as VerifMain, and
// os.Exit hands over to VerifExit. Nothing else differs from the current source.
func copyCommands(repo, dir string, out map[string]string) error {
	files, err := filepath.Glob(filepath.Join(repo, "cmd", "*", "*.go"))
	if err != nil {
		return err
	}
	seen := map[string]bool{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		name := filepath.Base(filepath.Dir(f))
		d := filepath.Join(dir, "cmd", name)
		if err := os.MkdirAll(d, 0o755); err != nil {
			return err
		}
		s := mainClause.ReplaceAllString(string(b), "package "+name)
		if exitCall.MatchString(s) {
			s = exitCall.ReplaceAllString(s, "VerifExit(") + "\nvar _ = os.Args\n"
		}
		t := filepath.Join(d, filepath.Base(f))
		if err := os.WriteFile(t, []byte(s), 0o644); err != nil {
			return err
		}
		out[filepath.Join(repo, "internal", "zzcmd", name, filepath.Base(f))] = t
		if !seen[name] {
			seen[name] = true
			t := filepath.Join(d, "zzverif.go")
			s := "package " + name + "\n\nvar VerifExit func(code int)\n\nfunc VerifMain() { main() }\n"
			if err := os.WriteFile(t, []byte(s), 0o644); err != nil {
				return err
			}
			out[filepath.Join(repo, "internal", "zzcmd", name, "zzverif.go")] = t
		}
	}
	return nil
}

func loadProgram(verif, repo, dir string, tui, cmd bool, flags []string) (*Program, error) {
	ov, err := overlayFiles(verif, repo, dir, tui, cmd)
	if err != nil {
		return nil, err
	}
	bytes := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		bytes[k] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: bytes, Tests: false, BuildFlags: flags, Env: goEnv()}
	pats := map[string]bool{}
	for k := range ov {
		d := filepath.Dir(k)
		if strings.HasPrefix(d, filepath.Join(repo, "internal", "zzverif")) {
			rel, _ := filepath.Rel(repo, d)
			pats["./"+rel] = true
		}
	}
	var pl []string
	for k := range pats {
		pl = append(pl, k)
	}
	pkgs, err := packages.Load(cfg, pl...)
	if err != nil {
		return nil, err
	}
	var errs []string
	drop := map[string]bool{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
			f, _, _ := strings.Cut(e.Pos, ":")
			if filepath.Dir(f) == filepath.Join(repo, "internal", "zzverif", "h") && filepath.Base(f) != "util.go" {
				drop[filepath.Base(f)] = true
			} else {
				drop[""] = true
			}
		}
	})
	if len(drop) > 0 && !drop[""] {
		for f := range drop {
			dropped[f] = true
		}
		return loadProgram(verif, repo, dir, tui, cmd, flags)
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, repoPrefix: modPath, harPrefix: modPath + "/internal/zzverif", funcs: map[string]*ssa.Function{}}
	for _, pk := range prog.AllPackages() {
		for _, m := range pk.Members {
			if f, ok := m.(*ssa.Function); ok {
				p.funcs[f.String()] = f
			}
		}
	}
	return p, nil
}
