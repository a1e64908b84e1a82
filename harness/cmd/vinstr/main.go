// vinstr writes copies of the package's source files with the imports of sync, sync/atomic
// and fastrand redirected to the shims, and an overlay file for go build that puts them in
// the place of the originals. Only import specs are touched, by position; lines stay as they are.
//
//	vinstr -repo /repo [-src DIR] [-shim=false] [-tick] -out DIR
//
// With -src the file contents come from DIR (a regenerated copy of the tree) instead of /repo.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var redirect = map[string][2]string{
	"sync":                               {"sync", "verif/vsync"},
	"sync/atomic":                        {"atomic", "verif/vatomic"},
	"github.com/zhangyunhao116/fastrand": {"fastrand", "verif/vrand"},
}

func die(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	src := flag.String("src", "", "")
	out := flag.String("out", "", "")
	shim := flag.Bool("shim", true, "")
	tick := flag.Bool("tick", false, "count functions entered and loop bodies begun")
	flag.Parse()
	root := *repo
	if *src != "" {
		root = *src
	}
	cmd := exec.Command("go", "list", "-json=Dir,GoFiles,CgoFiles", "./...")
	cmd.Dir = root
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list:", err)
	}
	replace := map[string]string{}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	seen := map[string]bool{}
	for dec.More() {
		var p struct {
			Dir     string
			GoFiles []string
		}
		if err := dec.Decode(&p); err != nil {
			die(err)
		}
		for _, f := range p.GoFiles {
			path := filepath.Join(p.Dir, f)
			rel, err := filepath.Rel(root, path)
			if err != nil {
				die(err)
			}
			seen[rel] = true
			text, err := os.ReadFile(path)
			if err != nil {
				die(err)
			}
			if *shim {
				text = rewrite(path, text)
			}
			if *tick && filepath.Dir(rel) == "." {
				text = ticks(path, text)
			}
			dst := filepath.Join(*out, strings.ReplaceAll(rel, "/", "__"))
			if err := os.WriteFile(dst, text, 0o644); err != nil {
				die(err)
			}
			replace[filepath.Join(*repo, rel)] = dst
		}
	}
	if *src != "" { // files of /repo that the regenerated tree no longer has
		old, _ := filepath.Glob(filepath.Join(*repo, "*.go"))
		for _, f := range old {
			if rel, _ := filepath.Rel(*repo, f); !strings.HasSuffix(f, "_test.go") && !seen[rel] {
				if _, err := os.Stat(filepath.Join(*src, rel)); err != nil {
					replace[f] = ""
				}
			}
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		die(err)
	}
}

// ticks puts a call of vtick.T at the start of every function and loop body.
func ticks(path string, text []byte) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, text, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		die(err)
	}
	for _, g := range f.Comments {
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:build ignore") {
				return text
			}
		}
	}
	var at []int
	ast.Inspect(f, func(n ast.Node) bool {
		var b *ast.BlockStmt
		switch x := n.(type) {
		case *ast.FuncDecl:
			b = x.Body
		case *ast.FuncLit:
			b = x.Body
		case *ast.ForStmt:
			b = x.Body
		case *ast.RangeStmt:
			b = x.Body
		}
		if b != nil {
			at = append(at, fset.Position(b.Lbrace).Offset+1)
		}
		return true
	})
	sort.Sort(sort.Reverse(sort.IntSlice(at)))
	t := string(text)
	for _, o := range at {
		t = t[:o] + " verif_tick.T();" + t[o:]
	}
	if len(at) > 0 {
		o := fset.Position(f.Name.End()).Offset
		t = t[:o] + `; import verif_tick "verif/vtick"` + t[o:]
	}
	return []byte(t)
}

func rewrite(path string, text []byte) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, text, parser.ImportsOnly)
	if err != nil {
		die(err)
	}
	type edit struct {
		from, to int
		s        string
	}
	var es []edit
	for _, im := range f.Imports {
		p, err := strconv.Unquote(im.Path.Value)
		if err != nil {
			die(err)
		}
		r, ok := redirect[p]
		if !ok {
			continue
		}
		s := strconv.Quote(r[1])
		if im.Name == nil {
			s = r[0] + " " + s
		}
		o := fset.Position(im.Path.Pos()).Offset
		es = append(es, edit{o, o + len(im.Path.Value), s})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].from > es[j].from })
	t := string(text)
	for _, e := range es {
		t = t[:e.from] + e.s + t[e.to:]
	}
	return []byte(t)
}
