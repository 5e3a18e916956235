package main

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"sort"
	"strconv"
	"strings"
)

// Structural rewriting. mode is a +-separated list of
//
//	chan   go statements, channel operations, select, close, range over channels
//	cap    constant channel capacities go through vs.Cap
//	maps   range over maps
//	point  a preemption point before every statement
//	trace  calls of HandleMessage are reported
//	calls  calls of exported functions and methods are reported
//	globals  vs.Reset brings the package's variables back to their initial values
type rw struct {
	src   []byte
	fset  *token.FileSet
	info  *types.Info
	feat  map[string]bool
	used  bool
	n     int
}

func typecheck(fset *token.FileSet, files []*ast.File, exports, pkgPath string) *types.Info {
	exp := map[string]string{}
	f, err := os.Open(exports)
	if err != nil {
		fail("%v", err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		if k, v, ok := strings.Cut(sc.Text(), " "); ok {
			exp[k] = v
		}
	}
	f.Close()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p, ok := exp[path]
		if !ok || p == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Importer: imp, Error: func(err error) {}}
	conf.Check(pkgPath, fset, files, info)
	return info
}

func (r *rw) off(p token.Pos) int { return r.fset.Position(p).Offset }

// text is the source of n with everything inside it rewritten.
func (r *rw) text(n ast.Node) string {
	if n == nil {
		return ""
	}
	if t, ok := r.replace(n); ok {
		return t
	}
	return r.inner(n, r.off(n.Pos()), r.off(n.End()))
}

// inner renders the source range of n, rewriting the nodes strictly below n.
func (r *rw) inner(n ast.Node, from, to int) string {
	var eds []edit
	ast.Inspect(n, func(m ast.Node) bool {
		if m == nil || m == n {
			return true
		}
		if _, ok := m.(*ast.CommentGroup); ok {
			return false
		}
		if t, ok := r.replace(m); ok {
			eds = append(eds, edit{r.off(m.Pos()), r.off(m.End()), t})
			return false
		}
		return true
	})
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].from < eds[j].from })
	var b strings.Builder
	pos := from
	for _, e := range eds {
		if e.from < pos || e.to > to {
			continue
		}
		b.Write(r.src[pos:e.from])
		b.WriteString(e.text)
		pos = e.to
	}
	b.Write(r.src[pos:to])
	return b.String()
}

func (r *rw) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	if o := r.info.Uses[id]; o != nil {
		_, b := o.(*types.Builtin)
		return b
	}
	return true
}

func (r *rw) under(e ast.Expr) types.Type {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return nil
	}
	t := tv.Type
	if p, ok := t.(*types.TypeParam); ok {
		t = p.Constraint()
	}
	return t.Underlying()
}

func (r *rw) constant(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

func recvOf(e ast.Expr) (*ast.UnaryExpr, bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (r *rw) body(b *ast.BlockStmt) string {
	// without the braces
	return r.inner(b, r.off(b.Lbrace)+1, r.off(b.Rbrace))
}

func (r *rw) list(l []ast.Stmt) string {
	var b strings.Builder
	for _, s := range l {
		b.WriteString(r.text(s))
		b.WriteString("\n")
	}
	return b.String()
}

func (r *rw) replace(n ast.Node) (string, bool) {
	ch := r.feat["chan"]
	switch m := n.(type) {
	case *ast.GoStmt:
		if !ch {
			return "", false
		}
		r.used = true
		return r.goStmt(m), true
	case *ast.SendStmt:
		if !ch {
			return "", false
		}
		r.used = true
		return fmt.Sprintf("zzvs.Sender(%s)(%s)", r.text(m.Chan), r.text(m.Value)), true
	case *ast.UnaryExpr:
		if ch && m.Op == token.ARROW {
			r.used = true
			return fmt.Sprintf("zzvs.Recv(%s)", r.text(m.X)), true
		}
	case *ast.AssignStmt:
		if ch && len(m.Lhs) == 2 && len(m.Rhs) == 1 {
			if u, ok := recvOf(m.Rhs[0]); ok {
				r.used = true
				return fmt.Sprintf("%s, %s %s zzvs.Recv2(%s)", r.text(m.Lhs[0]), r.text(m.Lhs[1]), m.Tok, r.text(u.X)), true
			}
		}
	case *ast.ValueSpec:
		if ch && len(m.Names) == 2 && len(m.Values) == 1 {
			if u, ok := recvOf(m.Values[0]); ok {
				r.used = true
				t := ""
				if m.Type != nil {
					t = r.text(m.Type)
				}
				return fmt.Sprintf("%s, %s %s = zzvs.Recv2(%s)", m.Names[0].Name, m.Names[1].Name, t, r.text(u.X)), true
			}
		}
	case *ast.CallExpr:
		if ch && len(m.Args) == 1 && r.isBuiltin(m.Fun, "close") {
			r.used = true
			return fmt.Sprintf("zzvs.Close(%s)", r.text(m.Args[0])), true
		}
		if r.feat["cap"] && len(m.Args) == 2 && r.isBuiltin(m.Fun, "make") && r.constant(m.Args[1]) {
			if _, is := m.Args[0].(*ast.ChanType); is {
				r.used = true
				return fmt.Sprintf("make(%s, zzvs.Cap(%s))", r.text(m.Args[0]), r.text(m.Args[1])), true
			}
		}
	case *ast.RangeStmt:
		t := r.under(m.X)
		if t == nil {
			return "", false
		}
		if _, is := t.(*types.Chan); is && ch {
			r.used = true
			r.n++
			c, ok := fmt.Sprintf("zzc%d", r.n), fmt.Sprintf("zzok%d", r.n)
			get := ""
			switch {
			case m.Key == nil || isBlank(m.Key):
				get = fmt.Sprintf("_, %s := zzvs.Recv2(%s)", ok, c)
			case m.Tok == token.DEFINE:
				get = fmt.Sprintf("%s, %s := zzvs.Recv2(%s); _ = %s", r.text(m.Key), ok, c, r.text(m.Key))
			default:
				get = fmt.Sprintf("var %s bool; %s, %s = zzvs.Recv2(%s)", ok, r.text(m.Key), ok, c)
			}
			return fmt.Sprintf("for %s := (%s); ; { %s; if !%s { break }; %s }", c, r.text(m.X), get, ok, r.body(m.Body)), true
		}
		if _, is := t.(*types.Map); is && r.feat["maps"] {
			r.used = true
			r.n++
			v := fmt.Sprintf("zzr%d", r.n)
			get := ""
			k, e := m.Key != nil && !isBlank(m.Key), m.Value != nil && !isBlank(m.Value)
			op := m.Tok.String()
			switch {
			case k && e:
				get = fmt.Sprintf("%s, %s %s %s.Key(), %s.Val(); ", r.text(m.Key), r.text(m.Value), op, v, v)
			case k:
				get = fmt.Sprintf("%s %s %s.Key(); ", r.text(m.Key), op, v)
			case e:
				get = fmt.Sprintf("%s %s %s.Val(); ", r.text(m.Value), op, v)
			}
			return fmt.Sprintf("for %s := zzvs.NewRange(%s); %s.Next(); { %s%s }", v, r.text(m.X), v, get, r.body(m.Body)), true
		}
	case *ast.SelectStmt:
		if !ch {
			return "", false
		}
		r.used = true
		return r.selectStmt(m), true
	}
	return "", false
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rw) goStmt(g *ast.GoStmt) string {
	c := g.Call
	r.n++
	var names, vals, args []string
	fun := r.text(c.Fun)
	_, lit := c.Fun.(*ast.FuncLit)
	static := lit && len(c.Args) == 0
	if id, ok := c.Fun.(*ast.Ident); ok {
		switch r.info.Uses[id].(type) {
		case *types.Func, *types.Builtin:
			static = true
		}
	}
	if s, ok := c.Fun.(*ast.SelectorExpr); ok {
		if f, ok := r.info.Uses[s.Sel].(*types.Func); ok {
			if sig, ok := f.Type().(*types.Signature); ok && sig.Recv() == nil {
				static = true
			}
		}
	}
	if !static {
		names = append(names, fmt.Sprintf("zzf%d", r.n))
		vals = append(vals, fun)
		fun = names[0]
	}
	for i, a := range c.Args {
		t := r.text(a)
		if !r.constant(a) {
			v := fmt.Sprintf("zza%d_%d", r.n, i)
			names = append(names, v)
			vals = append(vals, t)
			t = v
		}
		if i == len(c.Args)-1 && c.Ellipsis.IsValid() {
			t += "..."
		}
		args = append(args, t)
	}
	call := fmt.Sprintf("zzvs.Go(func() { %s(%s) })", fun, strings.Join(args, ", "))
	if len(names) == 0 {
		return call
	}
	return fmt.Sprintf("{ %s := %s; %s }", strings.Join(names, ", "), strings.Join(vals, ", "), call)
}

func (r *rw) selectStmt(s *ast.SelectStmt) string {
	r.n++
	var names, vals []string
	var b strings.Builder
	def := false
	k := 0
	for _, cl := range s.Body.List {
		c := cl.(*ast.CommClause)
		if c.Comm == nil {
			def = true
			b.WriteString("default:\n")
			b.WriteString(r.list(c.Body))
			continue
		}
		v := fmt.Sprintf("zzs%d_%d", r.n, k)
		names = append(names, v)
		fmt.Fprintf(&b, "case %d:\n", k)
		k++
		switch m := c.Comm.(type) {
		case *ast.SendStmt:
			vals = append(vals, fmt.Sprintf("zzvs.SendOf(%s)(%s)", r.text(m.Chan), r.text(m.Value)))
		case *ast.ExprStmt:
			u, _ := recvOf(m.X)
			vals = append(vals, fmt.Sprintf("zzvs.RecvOf(%s)", r.text(u.X)))
		case *ast.AssignStmt:
			u, _ := recvOf(m.Rhs[0])
			vals = append(vals, fmt.Sprintf("zzvs.RecvOf(%s)", r.text(u.X)))
			if len(m.Lhs) == 1 {
				fmt.Fprintf(&b, "%s %s %s.V\n", r.text(m.Lhs[0]), m.Tok, v)
			} else {
				fmt.Fprintf(&b, "%s, %s %s %s.V, %s.OK\n", r.text(m.Lhs[0]), r.text(m.Lhs[1]), m.Tok, v, v)
			}
		}
		b.WriteString(r.list(c.Body))
	}
	if k == 0 && !def {
		return "zzvs.Forever()"
	}
	if !def {
		b.WriteString("default: panic(\"unreachable\")\n")
	}
	init := ""
	if k > 0 {
		init = fmt.Sprintf("%s := %s; ", strings.Join(names, ", "), strings.Join(vals, ", "))
	}
	args := ""
	if k > 0 {
		args = ", " + strings.Join(names, ", ")
	}
	return fmt.Sprintf("switch %szzvs.Sel(%v%s) {\n%s}", init, def, args, b.String())
}

// points inserts a preemption point before every statement of a function.
func points(src []byte, trace, point, calls bool) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		fail("rewritten source does not parse: %v\n%s", err, src)
	}
	var eds []edit
	at := func(p token.Pos, t string) { o := fset.Position(p).Offset; eds = append(eds, edit{o, o, t}) }
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, is := s.(*ast.EmptyStmt); is {
				continue
			}
			at(s.Pos(), "zzvs.Point(); ")
			eds = append(eds, update(fset, src, s)...)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch m := n.(type) {
		case *ast.FuncDecl:
			if calls && m.Body != nil && m.Name.IsExported() {
				name := m.Name.Name
				a := []string{}
				fl := m.Type.Params.List
				if m.Recv != nil && len(m.Recv.List) == 1 && len(m.Recv.List[0].Names) == 1 {
					t := m.Recv.List[0].Type
					for {
						if s, is := t.(*ast.StarExpr); is {
							t = s.X
						} else if x, is := t.(*ast.IndexExpr); is {
							t = x.X
						} else {
							break
						}
					}
					if id, is := t.(*ast.Ident); is {
						name = id.Name + "." + name
					}
					fl = append(append([]*ast.Field{}, m.Recv.List...), fl...)
				}
				for _, f := range fl {
					for _, id := range f.Names {
						if id.Name != "_" {
							a = append(a, id.Name)
						}
					}
				}
				at(m.Body.Lbrace+1, " zzvs.Call("+strings.Join(append([]string{strconv.Quote(name)}, a...), ", ")+"); ")
			}
			if trace && m.Name.Name == "HandleMessage" && m.Recv != nil && m.Body != nil {
				var a []string
				for _, fl := range append(append([]*ast.Field{}, m.Recv.List...), m.Type.Params.List...) {
					for _, id := range fl.Names {
						if id.Name != "_" {
							a = append(a, id.Name)
						}
					}
				}
				at(m.Body.Lbrace+1, " zzvs.Trace("+strings.Join(a, ", ")+"); ")
			}
		case *ast.BlockStmt:
			if point {
				list(m.List)
			}
		case *ast.CaseClause:
			if point {
				list(m.Body)
			}
		case *ast.CommClause:
			if point {
				list(m.Body)
			}
		}
		return true
	})
	// switch and select bodies are blocks whose "statements" are clauses
	bad := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		var b *ast.BlockStmt
		switch m := n.(type) {
		case *ast.SwitchStmt:
			b = m.Body
		case *ast.TypeSwitchStmt:
			b = m.Body
		case *ast.SelectStmt:
			b = m.Body
		}
		if b != nil {
			for _, s := range b.List {
				bad[fset.Position(s.Pos()).Offset] = true
			}
		}
		return true
	})
	var keep []edit
	for _, e := range eds {
		if strings.HasPrefix(e.text, "zzvs.Point") && bad[e.from] {
			continue
		}
		keep = append(keep, e)
	}
	if len(keep) == 0 {
		return src, false
	}
	return apply(src, keep), true
}

// update separates reading from writing where a statement updates something
// that other goroutines may see, as in a = append(a, x) or n++.
func update(fset *token.FileSet, src []byte, s ast.Stmt) []edit {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	simple := func(e ast.Expr) bool {
		ok := true
		ast.Inspect(e, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit, *ast.UnaryExpr:
				ok = false
			}
			return ok
		})
		if id, is := e.(*ast.Ident); is && id.Name == "_" {
			return false
		}
		return ok
	}
	switch m := s.(type) {
	case *ast.IncDecStmt:
		if simple(m.X) {
			x := text(m.X)
			return []edit{{off(m.Pos()), off(m.End()), "{ zzt := " + x + "; zzvs.Point(); " + x + " = zzt " + m.Tok.String()[:1] + " 1 }"}}
		}
	case *ast.AssignStmt:
		if len(m.Lhs) != 1 || len(m.Rhs) != 1 || m.Tok == token.DEFINE || !simple(m.Lhs[0]) {
			return nil
		}
		x := text(m.Lhs[0])
		if m.Tok != token.ASSIGN {
			op := strings.TrimSuffix(m.Tok.String(), "=")
			if op == "<<" || op == ">>" {
				return nil
			}
			return []edit{{off(m.Pos()), off(m.Rhs[0].Pos()), "{ zzt := " + x + "; zzvs.Point(); " + x + " = zzt " + op + " ("}, {off(m.End()), off(m.End()), ") }"}}
		}
		call, is := m.Rhs[0].(*ast.CallExpr)
		if !is || len(call.Args) == 0 {
			return nil
		}
		if id, is := call.Fun.(*ast.Ident); !is || id.Name != "append" || text(call.Args[0]) != x {
			return nil
		}
		return []edit{{off(m.Pos()), off(m.Rhs[0].Pos()), "{ zzt := "}, {off(m.End()), off(m.End()), "; zzvs.Point(); " + x + " = zzt }"}}
	}
	return nil
}

func instrument(mode string, fset *token.FileSet, names []string, parsed []*ast.File, srcs [][]byte, vs, exports, pkgPath string) [][]byte {
	feat := map[string]bool{}
	for _, m := range strings.Split(mode, "+") {
		feat[m] = true
	}
	info := typecheck(fset, parsed, exports, pkgPath)
	out := make([][]byte, len(parsed))
	for i, f := range parsed {
		r := &rw{src: srcs[i], fset: fset, info: info, feat: feat}
		body := []byte(r.inner(f, 0, len(srcs[i])))
		used := r.used
		if feat["point"] || feat["trace"] || feat["calls"] {
			b, u := points(body, feat["trace"], feat["point"], feat["calls"])
			body, used = b, used || u
		}
		if feat["globals"] {
			b, u := globals(body, parsed)
			body, used = b, used || u
		}
		if !used {
			continue
		}
		// the import goes on the line of the package clause
		o := fset.Position(f.Name.End()).Offset
		body = append([]byte(string(body[:o])+"; import zzvs \""+vs+"\""), body[o:]...)
		out[i] = body
	}
	return out
}

// globals registers the initialisation of the package's variables, except of
// those an init function mentions.
func globals(src []byte, files []*ast.File) ([]byte, bool) {
	inInit := map[string]bool{"_": true}
	for _, f := range files {
		for _, d := range f.Decls {
			if fn, is := d.(*ast.FuncDecl); is && fn.Recv == nil && fn.Name.Name == "init" {
				ast.Inspect(fn, func(n ast.Node) bool {
					if id, is := n.(*ast.Ident); is {
						inInit[id.Name] = true
					}
					return true
				})
			}
		}
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, 0)
	if err != nil {
		fail("%v", err)
	}
	text := func(n ast.Node) string {
		return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
	}
	var b strings.Builder
	for _, d := range f.Decls {
		g, is := d.(*ast.GenDecl)
		if !is || g.Tok != token.VAR {
			continue
		}
		for _, sp := range g.Specs {
			v := sp.(*ast.ValueSpec)
			skip := false
			var names, vals []string
			for _, id := range v.Names {
				skip = skip || inInit[id.Name]
				names = append(names, id.Name)
			}
			if skip {
				continue
			}
			for _, e := range v.Values {
				vals = append(vals, text(e))
			}
			if len(vals) == 0 {
				for _, n := range names {
					fmt.Fprintf(&b, "{ var zzz %s; %s = zzz }; ", text(v.Type), n)
				}
			} else {
				fmt.Fprintf(&b, "%s = %s; ", strings.Join(names, ", "), strings.Join(vals, ", "))
			}
		}
	}
	if b.Len() == 0 {
		return src, false
	}
	return append(append([]byte(nil), src...), []byte("\nfunc init() { zzvs.AtReset(func() { "+b.String()+"}) }\n")...), true
}
