package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// The interactive tool runs inside tview's event loop. The checks of the tool use a copy of the library version that
// the repository requires, whose event loop hands over to the harness and whose text layout is left out.

const tviewPath = "github.com/rivo/tview"

func goEnv() []string { return append(os.Environ(), "GOWORK=off") }

// prepareTview writes the patched copy and a go.mod that uses it, and returns the build flags.
func prepareTview(verif, repo, dir string) ([]string, error) {
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", tviewPath)
	cmd.Dir = repo
	cmd.Env = goEnv()
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list tview: %v", err)
	}
	src := strings.TrimSpace(string(out))
	names, err := filepath.Glob(filepath.Join(src, "*.go"))
	if err != nil || len(names) == 0 {
		return nil, fmt.Errorf("tview not found in %s", src)
	}
	files := map[string][]byte{}
	for _, n := range append(names, filepath.Join(src, "go.mod"), filepath.Join(src, "go.sum")) {
		b, err := os.ReadFile(n)
		if err != nil {
			return nil, err
		}
		files[filepath.Base(n)] = b
	}
	add, err := os.ReadFile(filepath.Join(verif, "harness", "tview", "verif.go.txt"))
	if err != nil {
		return nil, err
	}
	files["verif.go"] = add
	for _, p := range [][3]string{
		{"application.go", "func (a *Application) Run() error {\n", "\tif VerifRun != nil {\n\t\treturn VerifRun(a)\n\t}\n"},
		{"textview.go", "func (t *TextView) Draw(screen tcell.Screen) {\n\tt.Box.DrawForSubclass(screen, t)\n", "\tif VerifRun != nil {\n\t\tVerifDrawn(t)\n\t\treturn\n\t}\n"},
		{"table.go", "func (t *Table) Draw(screen tcell.Screen) {\n\tt.Box.DrawForSubclass(screen, t)\n", "\tif VerifRun != nil {\n\t\tVerifDrawn(t)\n\t\treturn\n\t}\n"},
		{"box.go", "func (b *Box) DrawForSubclass(screen tcell.Screen, p Primitive) {\n", "\tif VerifRun != nil {\n\t\tverifBox(b)\n\t\treturn\n\t}\n"},
	} {
		s := string(files[p[0]])
		if strings.Count(s, p[1]) != 1 {
			return nil, fmt.Errorf("cannot patch %s of tview", p[0])
		}
		files[p[0]] = []byte(strings.Replace(s, p[1], p[1]+p[2], 1))
	}
	var keys []string
	for k := range files {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	h := sha256.New()
	for _, k := range keys {
		fmt.Fprintf(h, "%s %d\n", k, len(files[k]))
		h.Write(files[k])
	}
	lib := filepath.Join(verif, "bin", "lib", fmt.Sprintf("tview-%x", h.Sum(nil)[:6]))
	if !sameFiles(lib, files) {
		tmp, err := os.MkdirTemp(mkdir(filepath.Dir(lib)), "tmp")
		if err != nil {
			return nil, err
		}
		for k, b := range files {
			if err := os.WriteFile(filepath.Join(tmp, k), b, 0o644); err != nil {
				return nil, err
			}
		}
		os.Chmod(tmp, 0o755)
		os.RemoveAll(lib)
		if err := os.Rename(tmp, lib); err != nil {
			os.RemoveAll(tmp)
			if !sameFiles(lib, files) {
				return nil, err
			}
		}
	}
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return nil, err
	}
	mf := filepath.Join(dir, "go.mod")
	mod = append(mod, []byte(fmt.Sprintf("\nreplace %s => %s\n", tviewPath, lib))...)
	if err := os.WriteFile(mf, mod, 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644); err != nil {
		return nil, err
	}
	return []string{"-mod=mod", "-modfile=" + mf}, nil
}

func mkdir(d string) string { os.MkdirAll(d, 0o755); return d }

func sameFiles(dir string, files map[string][]byte) bool {
	for k, b := range files {
		x, err := os.ReadFile(filepath.Join(dir, k))
		if err != nil || !bytes.Equal(x, b) {
			return false
		}
	}
	return true
}
