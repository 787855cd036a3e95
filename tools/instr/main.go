// instr rewrites the non-test, non-generated Go sources of a psrpc tree into an
// instrumented copy and writes a `go build -overlay` file that substitutes it.
//
//   - a call zsched.P(n) is inserted, on the same line, before every statement of
//     every function body: a yield / delay-injection / step-counting point;
//   - imports of "sync" become a drop-in package whose blocking primitives are
//     visible to testing/synctest (a goroutine waiting for a mutex is "durably
//     blocked", so virtual time can pass while a lock is held);
//   - imports of github.com/frostbyte73/core become a copy of that package with
//     the same substitution.
//
// Behaviour is unchanged: no statement is removed, reordered or rewritten.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/livekit/psrpc"
const virt = "internal/zverif"

var skipDirs = map[string]bool{"internal/test": true, "protoc-gen-psrpc": true, "version": true, "pkg/rand": true, "internal/logger": true}

type ins struct {
	off  int
	text string
	del  int
}

type site struct {
	File string
	Line int
	Func string
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	harness := flag.String("harness", "", "directory with zsched, zsync, zverif")
	coreDir := flag.String("core", "", "directory of github.com/frostbyte73/core")
	plain := flag.Bool("plain", false, "no instrumentation, harness only")
	flag.Parse()

	replace := map[string]string{}
	var sites []site
	if err := os.MkdirAll(*out, 0o755); err != nil {
		fatal(err)
	}

	// the harness packages
	for _, p := range []string{"zsched", "zsync", "zverif"} {
		ents, err := os.ReadDir(filepath.Join(*harness, p))
		if err != nil {
			fatal(err)
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			dst := filepath.Join(*repo, virt, p, e.Name())
			if p == "zverif" {
				dst = filepath.Join(*repo, virt, e.Name())
			}
			replace[dst] = filepath.Join(*harness, p, e.Name())
		}
	}

	if !*plain {
		if *coreDir != "" {
			ents, err := os.ReadDir(*coreDir)
			if err != nil {
				fatal(err)
			}
			for _, e := range ents {
				if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
					continue
				}
				src := filepath.Join(*coreDir, e.Name())
				b, err := os.ReadFile(src)
				if err != nil {
					fatal(err)
				}
				nb, _, err := rewrite(src, "core/"+e.Name(), b, false, &sites, false)
				if err != nil {
					fatal(err)
				}
				o := filepath.Join(*out, "zcore__"+e.Name())
				if err := os.WriteFile(o, nb, 0o644); err != nil {
					fatal(err)
				}
				replace[filepath.Join(*repo, virt, "zcore", e.Name())] = o
			}
		}
		var files []string
		err := filepath.Walk(*repo, func(path string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(*repo, path)
			if fi.IsDir() {
				if skipDirs[rel] || (strings.HasPrefix(fi.Name(), ".") && rel != ".") || fi.Name() == "testdata" || rel == virt {
					return filepath.SkipDir
				}
				return nil
			}
			if strings.HasSuffix(path, ".go") && !strings.HasSuffix(path, "_test.go") && !strings.HasSuffix(path, ".pb.go") && rel != "magefile.go" {
				files = append(files, rel)
			}
			return nil
		})
		if err != nil {
			fatal(err)
		}
		sort.Strings(files)
		for _, rel := range files {
			path := filepath.Join(*repo, rel)
			b, err := os.ReadFile(path)
			if err != nil {
				fatal(err)
			}
			nb, changed, err := rewrite(path, rel, b, true, &sites, *coreDir != "")
			if err != nil {
				fmt.Fprintln(os.Stderr, "instr: skipping", rel, err)
				continue
			}
			if !changed {
				continue
			}
			o := filepath.Join(*out, strings.ReplaceAll(rel, "/", "__"))
			if err := os.WriteFile(o, nb, 0o644); err != nil {
				fatal(err)
			}
			replace[path] = o
		}
	}

	// site table, as a Go file of the zsched package
	var sb strings.Builder
	sb.WriteString("package zsched\n\nfunc init() { Sites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&sb, "\t%q,\n", fmt.Sprintf("%s:%d %s", s.File, s.Line, s.Func))
	}
	sb.WriteString("} }\n")
	st := filepath.Join(*out, "zsched_sites.go")
	if err := os.WriteFile(st, []byte(sb.String()), 0o644); err != nil {
		fatal(err)
	}
	replace[filepath.Join(*repo, virt, "zsched", "sites.go")] = st

	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		fatal(err)
	}
	fmt.Printf("%d sites\n", len(sites))
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(1)
}

func rewrite(path, rel string, src []byte, points bool, sites *[]site, core bool) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	var edits []ins
	off := func(p token.Pos) int { return fset.Position(p).Offset }

	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		var np, name string
		switch p {
		case "sync":
			np, name = modPath+"/"+virt+"/zsync", "sync"
		case "github.com/frostbyte73/core":
			if !core {
				continue
			}
			np, name = modPath+"/"+virt+"/zcore", "core"
		default:
			continue
		}
		t := strconv.Quote(np)
		if im.Name == nil {
			t = name + " " + t
		}
		edits = append(edits, ins{off: off(im.Path.Pos()), text: t, del: len(im.Path.Value)})
	}

	used := false
	if points {
		fn := ""
		list := func(ss []ast.Stmt) {
			for _, s := range ss {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				n := len(*sites)
				pos := fset.Position(s.Pos())
				*sites = append(*sites, site{rel, pos.Line, fn})
				edits = append(edits, ins{off: pos.Offset, text: fmt.Sprintf("zsched.P(%d); ", n)})
				used = true
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok {
				fn = fd.Name.Name
			} else {
				fn = "init"
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch b := n.(type) {
				case *ast.BlockStmt:
					// the body of a switch or select holds only clauses
					if len(b.List) > 0 {
						switch b.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					list(b.List)
				case *ast.CaseClause:
					list(b.Body)
				case *ast.CommClause:
					list(b.Body)
				}
				return true
			})
		}
	}
	if used {
		edits = append(edits, ins{off: off(f.Name.End()), text: "; import zsched " + strconv.Quote(modPath+"/"+virt+"/zsched")})
	}
	if len(edits) == 0 {
		return src, false, nil
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var out []byte
	last := 0
	for _, e := range edits {
		out = append(out, src[last:e.off]...)
		out = append(out, e.text...)
		last = e.off + e.del
	}
	out = append(out, src[last:]...)
	return out, true, nil
}
