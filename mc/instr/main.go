// instr writes an overlay of the package in DIR (first argument) in which the
// imports of sync and sync/atomic are redirected to the scheduled shims.
// Nothing else of the sources changes.
package main

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

func main() {
	dir, out := os.Args[1], os.Args[2]
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	repl := map[string]string{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			fatal(err)
		}
		fset := token.NewFileSet()
		ast, err := parser.ParseFile(fset, f, src, parser.ImportsOnly)
		if err != nil {
			fatal(err)
		}
		text := string(src)
		changed := false
		for i := len(ast.Imports) - 1; i >= 0; i-- {
			im := ast.Imports[i]
			var to, name string
			switch im.Path.Value {
			case `"sync"`:
				to, name = `"verif/mc/mcsync"`, "sync "
			case `"sync/atomic"`:
				to, name = `"verif/mc/mcatomic"`, "atomic "
			default:
				continue
			}
			if im.Name != nil {
				name = ""
			}
			b := fset.Position(im.Path.Pos()).Offset
			e := fset.Position(im.Path.End()).Offset
			text = text[:b] + name + to + text[e:]
			changed = true
		}
		if !changed {
			continue
		}
		o := filepath.Join(out, filepath.Base(f))
		if err := os.WriteFile(o, []byte(text), 0o644); err != nil {
			fatal(err)
		}
		repl[f] = o
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fatal(err)
	}
	fmt.Println(len(repl), "files instrumented")
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}
