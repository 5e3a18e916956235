// instr rewrites Go source files of a package for controlled execution.
//
//	instr -dir /repo/pkg -out DIR -swap math/rand=path,sync=path
//
// With -swap only import paths change. See sched.go for -sched.
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	text     string
}

func apply(src []byte, edits []edit) []byte {
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].from != edits[j].from {
			return edits[i].from < edits[j].from
		}
		return edits[i].to < edits[j].to
	})
	var out []byte
	pos := 0
	for _, e := range edits {
		if e.from < pos {
			fail("overlapping edits at %d", e.from)
		}
		out = append(out, src[pos:e.from]...)
		out = append(out, e.text...)
		pos = e.to
	}
	return append(out, src[pos:]...)
}

func fail(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(1)
}

func main() {
	dir := flag.String("dir", "", "package directory")
	out := flag.String("out", "", "output directory")
	swap := flag.String("swap", "", "import path replacements a=b,c=d")
	mode := flag.String("mode", "swap", "swap, sched, point")
	vs := flag.String("vs", "", "import path of the scheduler package")
	exports := flag.String("exports", "", "file with 'importpath exportfile' lines for type information")
	pkgPath := flag.String("pkg", "", "import path of the package")
	flag.Parse()
	swaps := map[string]string{}
	for _, s := range strings.Split(*swap, ",") {
		if k, v, ok := strings.Cut(s, "="); ok {
			swaps[k] = v
		}
	}
	files, err := filepath.Glob(filepath.Join(*dir, "*.go"))
	if err != nil {
		fail("%v", err)
	}
	fset := token.NewFileSet()
	var names []string
	var parsed []*ast.File
	var srcs [][]byte
	for _, fn := range files {
		if strings.HasSuffix(fn, "_test.go") {
			continue
		}
		src, err := os.ReadFile(fn)
		if err != nil {
			fail("%v", err)
		}
		f, err := parser.ParseFile(fset, fn, src, parser.ParseComments)
		if err != nil {
			fail("%v", err)
		}
		names = append(names, fn)
		parsed = append(parsed, f)
		srcs = append(srcs, src)
	}
	os.MkdirAll(*out, 0755)
	var rewritten [][]byte
	if *mode != "swap" {
		rewritten = instrument(*mode, fset, names, parsed, srcs, *vs, *exports, *pkgPath)
	}
	for i, f := range parsed {
		src := srcs[i]
		changed := false
		if rewritten != nil && rewritten[i] != nil {
			src, changed = rewritten[i], true
			g, err := parser.ParseFile(token.NewFileSet(), names[i], src, parser.ParseComments)
			if err != nil {
				fail("rewritten source does not parse: %v\n%s", err, src)
			}
			f = g
		}
		var edits []edit
		for _, imp := range f.Imports {
			p, _ := strconv.Unquote(imp.Path.Value)
			to, ok := swaps[p]
			if !ok {
				continue
			}
			text := strconv.Quote(to)
			if imp.Name == nil {
				base := p[strings.LastIndex(p, "/")+1:]
				if base == "v2" {
					q := strings.TrimSuffix(p, "/v2")
					base = q[strings.LastIndex(q, "/")+1:]
				}
				text = base + " " + text
			}
			// a file parsed alone has offsets equal to positions minus its base
			a := int(imp.Path.Pos() - f.FileStart)
			b := int(imp.Path.End() - f.FileStart)
			edits = append(edits, edit{a, b, text})
		}
		if len(edits) == 0 && !changed {
			continue
		}
		dst := filepath.Join(*out, filepath.Base(names[i]))
		if err := os.WriteFile(dst, apply(src, edits), 0644); err != nil {
			fail("%v", err)
		}
		fmt.Println(names[i] + "\t" + dst)
	}
}
