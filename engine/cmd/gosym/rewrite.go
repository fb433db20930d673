package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The replay build uses copies of the repository's files in which synchronisation, time,
// goroutine starts and channel operations go through the cooperative scheduler of zzverif.

type edit struct {
	at, end int
	txt     string
	ord     int
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	edits []edit
	base  int
	rt    bool
	zt    bool
	n     int
	done  map[ast.Node]bool
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rewriter) repl(a, b token.Pos, txt string) {
	r.edits = append(r.edits, edit{r.off(a), r.off(b), txt, len(r.edits)})
}

func (r *rewriter) ins(a token.Pos, txt string) { r.repl(a, a, txt) }

var timeFuncs = map[string]bool{"Now": true, "Since": true, "Until": true, "Sleep": true, "After": true, "Tick": true,
	"NewTimer": true, "NewTicker": true, "AfterFunc": true, "Timer": true, "Ticker": true}

func isPkg(info *types.Info, e ast.Expr, path string) bool {
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	pn, ok := info.Uses[id].(*types.PkgName)
	return ok && pn.Imported().Path() == path
}

func rewriteFile(p *packages.Package, f *ast.File, src []byte) (string, error) {
	r := &rewriter{fset: p.Fset, info: p.TypesInfo, src: src, done: map[ast.Node]bool{}}
	zz := modPath + "/memcache/zzverif"
	for _, im := range f.Imports {
		switch im.Path.Value {
		case `"sync"`:
			n := "sync"
			if im.Name != nil {
				n = im.Name.Name
			}
			r.repl(im.Pos(), im.End(), fmt.Sprintf("%s %q", n, zz+"/zsync"))
		case `"sync/atomic"`:
			n := "atomic"
			if im.Name != nil {
				n = im.Name.Name
			}
			r.repl(im.Pos(), im.End(), fmt.Sprintf("%s %q", n, zz+"/zatomic"))
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			if timeFuncs[x.Sel.Name] && isPkg(r.info, x.X, "time") {
				r.zt = true
				r.repl(x.X.Pos(), x.X.End(), "zztime")
			}
		case *ast.GoStmt:
			r.rt = true
			r.goStmt(x)
		case *ast.SendStmt:
			if r.done[x] {
				return true
			}
			r.rt = true
			r.ins(x.Pos(), "zzrt.Send(")
			r.repl(x.Arrow, x.Arrow+2, ",")
			r.ins(x.End(), ")")
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !r.done[x] {
				r.rt = true
				r.repl(x.OpPos, x.OpPos+2, "zzrt.Recv(")
				r.ins(x.End(), ")")
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				r.recv2(x.Rhs[0])
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				r.recv2(x.Values[0])
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" {
				if _, ok := r.info.Uses[id].(*types.Builtin); ok {
					r.rt = true
					r.repl(id.Pos(), id.End(), "zzrt.Close")
				}
			}
		case *ast.RangeStmt:
			if t := r.info.TypeOf(x.X); t != nil {
				if _, ok := t.Underlying().(*types.Chan); ok {
					r.rt = true
					v := "_"
					if x.Key != nil {
						v = r.text(x.Key)
					}
					op := ":="
					pre := ""
					if x.Tok == token.ASSIGN {
						pre, op = "var zzok bool; ", "="
					}
					r.repl(x.For, x.X.Pos(), "for { "+pre+v+", zzok "+op+" zzrt.Recv2(")
					r.repl(x.X.End(), x.Body.Lbrace+1, "); if !zzok { break }; ")
				}
			}
		case *ast.SelectStmt:
			r.rt = true
			r.selectStmt(x, f)
		}
		return true
	})
	imp := ""
	if r.rt {
		imp += fmt.Sprintf("; import zzrt %q", zz)
	}
	if r.zt {
		imp += fmt.Sprintf("; import zztime %q", zz+"/zztime")
		for _, im := range f.Imports {
			if im.Path.Value == `"time"` {
				nm := "time"
				if im.Name != nil {
					nm = im.Name.Name
				}
				r.src = append(append([]byte(nil), r.src...), []byte("\nvar _ "+nm+".Duration\n")...)
			}
		}
	}
	r.ins(f.Name.End(), imp)
	return r.apply()
}

func (r *rewriter) text(n ast.Node) string { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

func (r *rewriter) recv2(e ast.Expr) {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW && !r.done[u] {
		r.rt = true
		r.done[u] = true
		r.repl(u.OpPos, u.OpPos+2, "zzrt.Recv2(")
		r.ins(u.End(), ")")
	}
}

func (r *rewriter) goStmt(x *ast.GoStmt) {
	c := x.Call
	if id, ok := c.Fun.(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			r.repl(x.Go, c.Pos(), "zzrt.Go(func() { ")
			r.ins(x.End(), " })")
			return
		}
	}
	// go F(A...)  =>  { zzf := F; zza0 := A0; ...; zzrt.Go(func() { zzf(zza0, ...) }) }
	r.repl(x.Go, c.Fun.Pos(), "{ zzf := ")
	end := c.Fun.End()
	var names []string
	for i, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			names = append(names, r.text(a))
			r.repl(end, a.End(), "")
		} else {
			nm := fmt.Sprintf("zza%d", i)
			names = append(names, nm)
			r.repl(end, a.Pos(), "; "+nm+" := ")
		}
		end = a.End()
	}
	el := ""
	if c.Ellipsis.IsValid() {
		el = "..."
	}
	r.repl(end, x.End(), "; zzrt.Go(func() { zzf("+strings.Join(names, ", ")+el+") }) }")
}

func (r *rewriter) selectStmt(x *ast.SelectStmt, f *ast.File) {
	r.n++
	var hoist, cases strings.Builder
	deflt := false
	k := 0
	type sub struct {
		a, b token.Pos
		t    string
	}
	for _, s := range x.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			deflt = true
			continue
		}
		nm := fmt.Sprintf("zzc%d_%d", r.n, k)
		var u *ast.UnaryExpr
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			r.done[c] = true
			fmt.Fprintf(&hoist, "%s := %s; ", nm, r.hoisted(c.Chan))
			fmt.Fprintf(&cases, ", zzrt.S(%s)", nm)
			r.repl(c.Chan.Pos(), c.Chan.End(), fmt.Sprintf("zzrt.OnlyS(%d, %s)", k, nm))
			k++
			continue
		case *ast.ExprStmt:
			u = unparen(c.X).(*ast.UnaryExpr)
		case *ast.AssignStmt:
			u = unparen(c.Rhs[0]).(*ast.UnaryExpr)
		}
		r.done[u] = true
		fmt.Fprintf(&hoist, "%s := %s; ", nm, r.hoisted(u.X))
		fmt.Fprintf(&cases, ", zzrt.R(%s)", nm)
		r.repl(u.X.Pos(), u.X.End(), fmt.Sprintf("zzrt.OnlyR(%d, %s)", k, nm))
		k++
	}
	// a label on the select must stay on it
	start := x.Pos()
	ast.Inspect(f, func(n ast.Node) bool {
		if l, ok := n.(*ast.LabeledStmt); ok && l.Stmt == x {
			start = l.Pos()
		}
		return true
	})
	r.ins(start, fmt.Sprintf("{ %szzrt.Sel(%v%s); ", hoist.String(), deflt, cases.String()))
	r.ins(x.End(), " }")
}

// hoisted is the text of a channel expression with the clock replaced; nested edits inside
// it are dropped by apply because the outer replacement covers them.
func (r *rewriter) hoisted(e ast.Expr) string {
	s := r.text(e)
	b := r.off(e.Pos())
	var es []edit
	ast.Inspect(e, func(n ast.Node) bool {
		if x, ok := n.(*ast.SelectorExpr); ok && timeFuncs[x.Sel.Name] && isPkg(r.info, x.X, "time") {
			r.zt = true
			es = append(es, edit{at: r.off(x.X.Pos()) - b, end: r.off(x.X.End()) - b, txt: "zztime"})
		}
		return true
	})
	for i := len(es) - 1; i >= 0; i-- {
		s = s[:es[i].at] + es[i].txt + s[es[i].end:]
	}
	return s
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) apply() (string, error) {
	es := r.edits
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].at != es[j].at {
			return es[i].at < es[j].at
		}
		// insertions before replacements at the same place
		ie, je := es[i].end == es[i].at, es[j].end == es[j].at
		if ie != je {
			return ie
		}
		return es[i].ord < es[j].ord
	})
	var out strings.Builder
	p := 0
	for _, e := range es {
		if e.at < p {
			if e.end <= p {
				continue // covered by an outer replacement
			}
			return "", fmt.Errorf("overlapping edits")
		}
		out.Write(r.src[p:e.at])
		out.WriteString(e.txt)
		p = e.end
	}
	out.Write(r.src[p:])
	return out.String(), nil
}

// rewriteAll writes instrumented copies of all files of the repository's packages (and of
// the harness packages) below dir and returns the overlay entries.
func rewriteAll(loaded []*packages.Package, overlay map[string]string, dir string) (map[string]string, error) {
	out := map[string]string{}
	n := 0
	for _, p := range loaded {
		if strings.Contains(p.PkgPath, "/zzverif") {
			continue
		}
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Package).Filename
			from := name
			if o, ok := overlay[name]; ok {
				from = o
			}
			src, err := os.ReadFile(from)
			if err != nil {
				return nil, err
			}
			txt, err := rewriteFile(p, f, src)
			if err != nil {
				return nil, fmt.Errorf("%s: %w", name, err)
			}
			n++
			t := fmt.Sprintf("%s/r%d.go", dir, n)
			if err := os.WriteFile(t, []byte("//line "+name+":1\n"+txt), 0o644); err != nil {
				return nil, err
			}
			out[name] = t
		}
	}
	return out, nil
}
