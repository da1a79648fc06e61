// instr writes an overlay in which every statement of the given Go files is
// preceded by a call to verifsched.Y(), so that a driver can decide where
// goroutines are preempted.  It works on whatever source is in the tree: nothing
// here depends on how the code is written, only that it parses.
//
//	instr [-locks] REPO OUTDIR pkgdir...
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

const sched = `// Package verifsched is generated: preemption points for the verification drivers,
// and locks on which a blocked goroutine counts as durably blocked for testing/synctest.
package verifsched

import "sync"

// Hook is called at every preemption point when set.
var Hook func()

// Durable tells whether the library's locks were replaced by the ones below.
const Durable = DURABLE

// Y is a preemption point.
func Y() {
	if Hook != nil {
		Hook()
	}
}

// RWMutex stands in for sync.RWMutex.
type RWMutex struct {
	mu      sync.Mutex
	c       *sync.Cond
	w       bool
	r       int
	waiting int
}

func (m *RWMutex) lock() {
	m.mu.Lock()
	if m.c == nil {
		m.c = sync.NewCond(&m.mu)
	}
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	m.lock()
	m.waiting++
	for m.w || m.r > 0 {
		m.c.Wait()
	}
	m.waiting--
	m.w = true
	m.mu.Unlock()
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	m.lock()
	defer m.mu.Unlock()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

// Unlock unlocks for writing.
func (m *RWMutex) Unlock() {
	m.lock()
	defer m.mu.Unlock()
	if !m.w {
		fatal("sync: unlock of unlocked mutex")
	}
	m.w = false
	m.c.Broadcast()
}

// RLock locks for reading; like sync's, it queues behind a waiting writer.
func (m *RWMutex) RLock() {
	m.lock()
	for m.w || m.waiting > 0 {
		m.c.Wait()
	}
	m.r++
	m.mu.Unlock()
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	m.lock()
	defer m.mu.Unlock()
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	return true
}

// RUnlock unlocks for reading.
func (m *RWMutex) RUnlock() {
	m.lock()
	defer m.mu.Unlock()
	if m.r == 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	m.c.Broadcast()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

func fatal(s string) { panic("fatal error: " + s) }

// Mutex stands in for sync.Mutex.
type Mutex struct{ m RWMutex }

// Lock locks m.
func (m *Mutex) Lock() { m.m.Lock() }

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

// Unlock unlocks m.
func (m *Mutex) Unlock() { m.m.Unlock() }

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do runs f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
`

const alias = "verifsched__"

func yield() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(alias), Sel: ast.NewIdent("Y")}}}
}

// decl splits `var ( a = f(); b = g() )` so that there is a yield in between
func decl(s ast.Stmt) []ast.Stmt {
	d, ok := s.(*ast.DeclStmt)
	if !ok {
		return []ast.Stmt{s}
	}
	g, ok := d.Decl.(*ast.GenDecl)
	if !ok || g.Tok != token.VAR || len(g.Specs) < 2 {
		return []ast.Stmt{s}
	}
	var out []ast.Stmt
	for _, sp := range g.Specs {
		out = append(out, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{sp}}})
	}
	return out
}

func list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		for _, p := range decl(s) {
			out = append(out, yield(), p)
		}
	}
	return out
}

type visitor struct{ n int }

func (v *visitor) Visit(n ast.Node) ast.Visitor {
	switch x := n.(type) {
	case *ast.BlockStmt:
		// clauses of switch/select are not statements of a sequence
		if len(x.List) > 0 {
			switch x.List[0].(type) {
			case *ast.CaseClause, *ast.CommClause:
				return v
			}
		}
		v.n += len(x.List)
		x.List = list(x.List)
	case *ast.CaseClause:
		x.Body = list(x.Body)
	case *ast.CommClause:
		x.Body = list(x.Body)
	}
	return v
}

// locks replaces sync.Mutex, sync.RWMutex and sync.Once by verifsched's.
func locks(file *ast.File) bool {
	name := ""
	for _, im := range file.Imports {
		if im.Path.Value == `"sync"` {
			name = "sync"
			if im.Name != nil {
				name = im.Name.Name
			}
		}
	}
	if name == "" || name == "_" || name == "." {
		return false
	}
	n := 0
	ast.Inspect(file, func(x ast.Node) bool {
		if sel, ok := x.(*ast.SelectorExpr); ok {
			if id, ok := sel.X.(*ast.Ident); ok && id.Name == name && id.Obj == nil {
				switch sel.Sel.Name {
				case "Mutex", "RWMutex", "Once":
					id.Name = alias
					n++
				}
			}
		}
		return true
	})
	if n > 0 {
		file.Decls = append(file.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
			Names: []*ast.Ident{ast.NewIdent("_")},
			Type:  &ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent("Locker")},
		}}})
	}
	return n > 0
}

func tagged(src []byte) bool {
	for _, l := range strings.Split(string(src), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "package ") {
			return false
		}
		if constraint.IsGoBuild(l) || constraint.IsPlusBuild(l) {
			return true
		}
	}
	return false
}

func fail(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func main() {
	durable := os.Args[1] == "-locks"
	if durable {
		os.Args = append(os.Args[:1], os.Args[2:]...)
	}
	repo, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	fail(os.MkdirAll(out, 0o755))
	sf := filepath.Join(out, "verifsched.go")
	fail(os.WriteFile(sf, []byte(strings.Replace(sched, "DURABLE", fmt.Sprint(durable), 1)), 0o644))
	replace[filepath.Join(repo, "verifsched", "verifsched.go")] = sf

	total := 0
	for i, pkg := range os.Args[3:] {
		dir, only, _ := strings.Cut(pkg, ":")
		files, err := filepath.Glob(filepath.Join(repo, dir, "*.go"))
		fail(err)
		for _, f := range files {
			base := filepath.Base(f)
			if strings.HasSuffix(base, "_test.go") {
				continue
			}
			if only != "" && !strings.HasPrefix(base, only) {
				if len(only) > 0 && only[0] == '!' && !strings.HasPrefix(base, only[1:]) {
					// excluded prefix does not match: instrument
				} else {
					continue
				}
			} else if strings.HasPrefix(only, "!") {
				continue
			}
			src, err := os.ReadFile(f)
			fail(err)
			if tagged(src) {
				continue
			}
			fset := token.NewFileSet()
			file, err := parser.ParseFile(fset, f, src, 0) // comments dropped
			fail(err)
			v := &visitor{}
			for _, d := range file.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					ast.Walk(v, fd.Body)
				}
			}
			changed := durable && locks(file)
			if v.n == 0 && !changed {
				continue
			}
			if v.n == 0 {
				file.Decls = append(file.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
					Names:  []*ast.Ident{ast.NewIdent("_")},
					Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(alias), Sel: ast.NewIdent("Durable")}},
				}}})
			}
			total += v.n
			imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
				Name: ast.NewIdent(alias),
				Path: &ast.BasicLit{Kind: token.STRING, Value: `"github.com/savaki/kafka/verifsched"`},
			}}}
			file.Decls = append([]ast.Decl{imp}, file.Decls...)
			var buf bytes.Buffer
			fail(format.Node(&buf, token.NewFileSet(), file))
			dst := filepath.Join(out, fmt.Sprintf("%d_%s", i, base))
			fail(os.WriteFile(dst, buf.Bytes(), 0o644))
			replace[f] = dst
		}
	}
	js, err := json.Marshal(map[string]interface{}{"Replace": replace})
	fail(err)
	fail(os.WriteFile(filepath.Join(out, "overlay.json"), js, 0o644))
	fmt.Println(total)
}
