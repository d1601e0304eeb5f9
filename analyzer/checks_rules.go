package main

// Rules decided on the type-checked syntax and the static call structure.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func init() {
	register(&check{id: "C22", rule: "Effect rule over every function body of the library package: package variables are only read (writes are allowed in initialisers, init functions and sync.Once bodies), values reachable from them do not leave through mutable references, and no goroutine, channel, clock, randomness, environment, address formatting or map-iteration order can influence a result.",
		units:   func(c *ctx) []aunit { return []aunit{{"library", ruleShared}} },
		minimum: map[string]int{"function": 60, "package-variable": 5}})
	register(&check{id: "C26", rule: "Effect rule over every function body of the library package: the only output operation is a non-terminating method called on the exported Logger variable; standard streams, the log package's own functions, process exit and logger reconfiguration are not used.",
		units:   func(c *ctx) []aunit { return []aunit{{"library", ruleOutput}} },
		minimum: map[string]int{"function": 60, "logger-use": 5}})
}

// bodies visits every function declaration of the library.
func (c *ctx) bodies(pi *pkgInfo, f func(fn *types.Func, fd *ast.FuncDecl)) {
	for _, file := range pi.files {
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn := pi.info.Defs[fd.Name].(*types.Func)
			if c.p.isSpec(fn) {
				continue
			}
			f(fn, fd)
		}
	}
}

// parents of every node below n
func parentsOf(n ast.Node) map[ast.Node]ast.Node {
	m := map[ast.Node]ast.Node{}
	var st []ast.Node
	ast.Inspect(n, func(x ast.Node) bool {
		if x == nil {
			st = st[:len(st)-1]
			return true
		}
		if len(st) > 0 {
			m[x] = st[len(st)-1]
		}
		st = append(st, x)
		return true
	})
	return m
}

// sharesState: a copy of a value of this type gives access to memory that can
// be written through it.
func sharesState(t types.Type) bool { return shares(t, map[types.Type]bool{}) }

func shares(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if isError(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if shares(u.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Array:
		return shares(u.Elem(), seen)
	case *types.Signature:
		return false
	case *types.Tuple: // v, ok := m[k]
		for i := 0; i < u.Len(); i++ {
			if shares(u.At(i).Type(), seen) {
				return true
			}
		}
		return false
	}
	return true
}

// library functions that only read their arguments
func readsOnly(f *types.Func) bool {
	if f.Pkg() == nil {
		return true
	}
	switch f.Pkg().Path() {
	case "strings", "bytes", "strconv", "fmt", "errors", "encoding/hex", "encoding/base64", "encoding/binary", "math", "unicode", "unicode/utf8", "math/bits", "hash/crc32":
		n := f.Name()
		return !(strings.HasPrefix(n, "Put") || n == "Sscan" || strings.HasPrefix(n, "Sscan") || strings.HasPrefix(n, "Fprint") || strings.HasPrefix(n, "Append") || n == "Encode" || n == "Decode" || n == "Read" || n == "As")
	case "slices", "maps":
		switch f.Name() {
		case "Contains", "ContainsFunc", "Index", "IndexFunc", "Equal", "EqualFunc", "BinarySearch", "BinarySearchFunc", "Clone", "Max", "Min", "Compare":
			return true
		}
	}
	return false
}

func (c *ctx) callee(pi *pkgInfo, call *ast.CallExpr) *types.Func {
	var id *ast.Ident
	fun := ast.Unparen(call.Fun)
	if ix, ok := fun.(*ast.IndexExpr); ok {
		fun = ast.Unparen(ix.X)
	}
	switch x := fun.(type) {
	case *ast.Ident:
		id = x
	case *ast.SelectorExpr:
		id = x.Sel
	}
	if id == nil {
		return nil
	}
	f, _ := pi.info.Uses[id].(*types.Func)
	return f
}

// leaks reports how the value of expression e, which refers to shared
// memory, is used other than by reading it ("" if it is only read).
func (c *ctx) leaks(pi *pkgInfo, par map[ast.Node]ast.Node, e ast.Expr, depth int) string {
	t := pi.info.TypeOf(e)
	if depth > 12 {
		return "is used in a way the rule cannot follow"
	}
	var n ast.Node = e
	up := par[n]
	for {
		if pe, ok := up.(*ast.ParenExpr); ok {
			n, up = pe, par[pe]
			continue
		}
		break
	}
	written := func(x ast.Expr) bool {
		switch a := par[x].(type) {
		case *ast.AssignStmt:
			for _, l := range a.Lhs {
				if ast.Unparen(l) == x {
					return true
				}
			}
		case *ast.IncDecStmt:
			return true
		}
		return false
	}
	switch u := up.(type) {
	case *ast.SelectorExpr:
		if u.X != n {
			break
		}
		sel := pi.info.Selections[u]
		if sel == nil {
			break
		}
		if sel.Kind() == types.FieldVal {
			if written(u) {
				return "has a field assigned"
			}
			if ue, ok := par[u].(*ast.UnaryExpr); ok && ue.Op == token.AND {
				return "has the address of a field taken"
			}
			if sharesState(pi.info.TypeOf(u)) {
				return c.leaks(pi, par, u, depth+1)
			}
			return ""
		}
		m, _ := sel.Obj().(*types.Func)
		if m == nil {
			return "is used through a method value"
		}
		sig := m.Type().(*types.Signature)
		if _, isPtr := sig.Recv().Type().(*types.Pointer); !isPtr && !isInterface(sig.Recv().Type()) && !sharesState(t) {
			return ""
		}
		if inModule(m.Pkg()) {
			if fd := c.p.funcs[origin(m)]; fd != nil && fd.Recv != nil && len(fd.Recv.List[0].Names) > 0 {
				return c.paramLeaks(origin(m), fd, fd.Recv.List[0].Names[0], depth+1)
			}
			if fd := c.p.funcs[origin(m)]; fd != nil {
				return ""
			}
			return "has method " + m.Name() + " called through an interface"
		}
		if m.Pkg() != nil {
			if _, ptr := sig.Recv().Type().(*types.Pointer); !ptr && m.Pkg().Path() == "time" {
				return "" // times and durations are values
			}
			switch m.Pkg().Path() {
			case "log", "errors", "encoding/base64", "encoding/binary", "golang.org/x/text/encoding/charmap", "golang.org/x/text/encoding", "regexp", "strings":
				if m.Pkg().Path() == "strings" {
					if n, ok := deref(sig.Recv().Type()).(*types.Named); !ok || n.Obj().Name() != "Replacer" {
						break
					}
				}
				return ""
			}
		}
		return "has method " + m.FullName() + " called, which may change it"
	case *ast.IndexExpr:
		if u.X == n {
			if written(u) {
				return "has an element assigned"
			}
			if ue, ok := par[u].(*ast.UnaryExpr); ok && ue.Op == token.AND {
				return "has the address of an element taken"
			}
			if sharesState(pi.info.TypeOf(u)) {
				return c.leaks(pi, par, u, depth+1)
			}
			return ""
		}
		return ""
	case *ast.SliceExpr:
		if u.X == n {
			return c.leaks(pi, par, u, depth+1)
		}
	case *ast.StarExpr:
		if written(u) {
			return "is written through a pointer"
		}
		if sharesState(pi.info.TypeOf(u)) {
			return c.leaks(pi, par, u, depth+1)
		}
		return ""
	case *ast.UnaryExpr:
		if u.Op == token.AND {
			return c.leaks(pi, par, u, depth+1)
		}
		return ""
	case *ast.BinaryExpr, *ast.CaseClause, *ast.SwitchStmt, *ast.TypeAssertExpr, *ast.IfStmt:
		return ""
	case *ast.RangeStmt:
		if u.X == n {
			if id, ok := u.Value.(*ast.Ident); ok && id.Name != "_" && sharesState(pi.info.TypeOf(id)) {
				return c.varLeaks(pi, par, id, depth+1)
			}
			return ""
		}
	case *ast.AssignStmt:
		for i, r := range u.Rhs {
			if r == n && (len(u.Lhs) == len(u.Rhs) || i == 0 && len(u.Lhs) == 2) {
				if id, ok := u.Lhs[i].(*ast.Ident); ok {
					if id.Name == "_" {
						return ""
					}
					if o := pi.info.Defs[id]; o != nil {
						return c.varLeaks(pi, par, id, depth+1)
					}
				}
			}
		}
		return "is stored elsewhere"
	case *ast.ValueSpec:
		for i, r := range u.Values {
			if r == n && len(u.Names) == len(u.Values) {
				return c.varLeaks(pi, par, u.Names[i], depth+1)
			}
		}
	case *ast.CallExpr:
		if u.Fun == n {
			return ""
		}
		if tv, ok := pi.info.Types[u.Fun]; ok && tv.IsType() {
			if !sharesState(tv.Type) {
				return ""
			}
			return c.leaks(pi, par, u, depth+1)
		}
		arg := -1
		for i, a := range u.Args {
			if a == n {
				arg = i
			}
		}
		if id, ok := ast.Unparen(u.Fun).(*ast.Ident); ok {
			if b, ok := pi.info.Uses[id].(*types.Builtin); ok {
				switch b.Name() {
				case "len", "cap", "min", "max", "print", "println":
					return ""
				case "append", "copy":
					if arg > 0 {
						if s, ok := t.Underlying().(*types.Slice); ok && !sharesState(s.Elem()) {
							return ""
						}
					}
				}
				return "is passed to " + b.Name()
			}
		}
		f := c.callee(pi, u)
		if f == nil {
			return "is passed to a function value"
		}
		if fd := c.p.funcs[origin(f)]; fd != nil {
			i := 0
			for _, fl := range fd.Type.Params.List {
				for _, nm := range fl.Names {
					_, variadic := fl.Type.(*ast.Ellipsis)
					if i == arg || variadic && arg >= i {
						return c.paramLeaks(origin(f), fd, nm, depth+1)
					}
					i++
				}
			}
			return ""
		}
		if readsOnly(f) {
			return ""
		}
		return "is passed to " + f.FullName()
	case *ast.ReturnStmt:
		return "is returned"
	case *ast.ExprStmt:
		return ""
	}
	return fmt.Sprintf("is used in a way the rule does not allow (%T)", up)
}

func deref(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// varLeaks: every use of the local variable declared by id only reads it.
func (c *ctx) varLeaks(pi *pkgInfo, par map[ast.Node]ast.Node, id *ast.Ident, depth int) string {
	o := pi.info.Defs[id]
	if o == nil {
		return ""
	}
	for use, obj := range pi.info.Uses {
		if obj != o {
			continue
		}
		if _, ok := par[use]; !ok {
			continue
		}
		if w := c.leaks(pi, par, use, depth); w != "" {
			return w + " (through " + id.Name + ")"
		}
	}
	return ""
}

func (c *ctx) paramLeaks(f *types.Func, fd *ast.FuncDecl, id *ast.Ident, depth int) string {
	pi := c.p.fpkg[f]
	if !sharesState(pi.info.Defs[id].Type()) {
		return ""
	}
	if w := c.varLeaks(pi, parentsOf(fd), id, depth); w != "" {
		return w + " in " + shortName(f)
	}
	return ""
}

func ruleShared(c *ctx) {
	pi := c.p.lib
	badCall := map[string]string{
		"time.Now": "reads the clock", "time.Since": "reads the clock", "time.Until": "reads the clock", "time.After": "reads the clock", "time.Sleep": "depends on the clock", "time.Tick": "reads the clock",
		"time.AfterFunc": "starts a goroutine", "time.NewTimer": "reads the clock", "time.NewTicker": "reads the clock", "(time.Time).Local": "depends on the local time zone", "time.LoadLocation": "depends on the system", "(reflect.Value).MapKeys": "has unspecified order", "(reflect.Value).MapRange": "has unspecified order", "maps.Keys": "has unspecified order", "maps.Values": "has unspecified order", "maps.All": "has unspecified order",
		"runtime.SetFinalizer": "depends on the collector", "context.WithTimeout": "reads the clock"}
	badPkg := map[string]bool{"math/rand": true, "math/rand/v2": true, "crypto/rand": true, "os": true, "os/exec": true, "net": true, "syscall": true, "unsafe": true, "runtime": true, "sync/atomic": true, "io/ioutil": true, "unique": true, "weak": true, "plugin": true, "net/http": true}
	initOnly := c.initOnly(pi)
	for _, file := range pi.files {
		for _, im := range file.Imports {
			if strings.Trim(im.Path.Value, `"`) == "unsafe" {
				c.bad("import", "unsafe", c.p.pos(im.Pos()), "package unsafe escapes the rule")
			}
		}
	}
	c.bodies(pi, func(fn *types.Func, fd *ast.FuncDecl) {
		name := shortName(fn)
		par := parentsOf(fd)
		good := true
		bad := func(n ast.Node, f string, a ...any) {
			good = false
			c.bad("function", name, c.p.pos(n.Pos()), f, a...)
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GoStmt:
				bad(x, "starts a goroutine")
			case *ast.SelectStmt, *ast.SendStmt:
				bad(n, "uses a channel")
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					bad(x, "uses a channel")
				}
			case *ast.RangeStmt:
				switch pi.info.TypeOf(x.X).Underlying().(type) {
				case *types.Map:
					if !orderFree(pi, x) {
						bad(x, "iterates over a map in unspecified order")
					}
				case *types.Chan:
					bad(x, "uses a channel")
				}
			case *ast.Ident:
				switch o := pi.info.Uses[x].(type) {
				case *types.Func:
					if o.Pkg() == nil {
						break
					}
					if why := badCall[o.FullName()]; why != "" {
						bad(x, "%s %s", o.FullName(), why)
					} else if badPkg[o.Pkg().Path()] {
						bad(x, "uses %s, whose result does not depend on the arguments alone", o.FullName())
					}
				case *types.Var:
					if o.Pkg() != nil && !inModule(o.Pkg()) && o.Parent() == o.Pkg().Scope() {
						if badPkg[o.Pkg().Path()] || o.Pkg().Path() == "time" && o.Name() == "Local" {
							bad(x, "uses %s.%s", o.Pkg().Path(), o.Name())
						} else if writtenAt(par, x) {
							bad(x, "changes the variable %s.%s of another package", o.Pkg().Path(), o.Name())
						}
					}
				}
			case *ast.CallExpr:
				if f := c.callee(pi, x); f != nil && f.Pkg() != nil && (f.Pkg().Path() == "fmt" || f.Pkg().Path() == "log" || f.Pkg().Path() == "errors") {
					for _, a := range x.Args {
						if tv := pi.info.Types[a]; tv.Value != nil && strings.Contains(tv.Value.ExactString(), "%p") {
							bad(x, "formats an address")
						}
					}
				}
			}
			return true
		})
		if good {
			c.ok("function", name, c.p.pos(fn.Pos()))
		}
	})
	// package variables
	scope := pi.tpkg.Scope()
	for _, n := range scope.Names() {
		v, ok := scope.Lookup(n).(*types.Var)
		if !ok {
			continue
		}
		where := c.p.pos(v.Pos())
		good := true
		uses := 0
		c.bodies(pi, func(fn *types.Func, fd *ast.FuncDecl) {
			var par map[ast.Node]ast.Node
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				id, ok := x.(*ast.Ident)
				if !ok || pi.info.Uses[id] != v {
					return true
				}
				uses++
				if par == nil {
					par = parentsOf(fd)
				}
				if initOnly[fn] || c.inOnce(pi, par, id) {
					return true
				}
				if isOnce(v.Type()) {
					return true
				}
				if writtenAt(par, id) {
					good = false
					c.bad("package-variable", n, c.p.pos(id.Pos()), "%s changes package variable %s", shortName(fn), n)
					return true
				}
				if sharesState(v.Type()) || addressed(pi, par, id) {
					if w := c.leaks(pi, par, id, 0); w != "" {
						good = false
						c.bad("package-variable", n, c.p.pos(id.Pos()), "package variable %s %s in %s", n, w, shortName(fn))
					}
				}
				return true
			})
		})
		if good {
			c.ok("package-variable", n, where)
		}
		c.count("package_variable_uses", uses)
	}
}

func isOnce(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && n.Obj().Name() == "Once"
}

// inOnce: inside a function literal passed to (*sync.Once).Do
func (c *ctx) inOnce(pi *pkgInfo, par map[ast.Node]ast.Node, n ast.Node) bool {
	for n != nil {
		if fl, ok := n.(*ast.FuncLit); ok {
			if call, ok := par[fl].(*ast.CallExpr); ok {
				if f := c.callee(pi, call); f != nil && (f.FullName() == "(*sync.Once).Do" || f.FullName() == "sync.OnceValue" || f.FullName() == "sync.OnceFunc") {
					return true
				}
			}
		}
		n = par[n]
	}
	return false
}

// initOnly: init functions and unexported functions called only from those
// and from package variable initialisers.
func (c *ctx) initOnly(pi *pkgInfo) map[*types.Func]bool {
	callers := map[*types.Func]map[*types.Func]bool{}
	used := map[*types.Func]bool{}
	m := map[*types.Func]bool{}
	c.bodies(pi, func(fn *types.Func, fd *ast.FuncDecl) {
		if fd.Recv == nil && fn.Name() == "init" {
			m[fn] = true
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if f, ok := pi.info.Uses[id].(*types.Func); ok {
					f = origin(f)
					if callers[f] == nil {
						callers[f] = map[*types.Func]bool{}
					}
					callers[f][fn] = true
				}
			}
			return true
		})
	})
	for _, file := range pi.files {
		for _, d := range file.Decls {
			if gd, ok := d.(*ast.GenDecl); ok {
				ast.Inspect(gd, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok {
						if f, ok := pi.info.Uses[id].(*types.Func); ok {
							used[origin(f)] = true
						}
					}
					return true
				})
			}
		}
	}
	for changed := true; changed; {
		changed = false
		c.bodies(pi, func(fn *types.Func, fd *ast.FuncDecl) {
			if m[fn] || fn.Exported() || fd.Recv != nil {
				return
			}
			if len(callers[fn]) == 0 && !used[fn] {
				return
			}
			for g := range callers[fn] {
				if !m[g] {
					return
				}
			}
			m[fn] = true
			changed = true
		})
	}
	return m
}

func writtenAt(par map[ast.Node]ast.Node, id *ast.Ident) bool {
	var n ast.Node = id
	if s, ok := par[n].(*ast.SelectorExpr); ok && s.Sel == id {
		n = s
	}
	for {
		switch u := par[n].(type) {
		case *ast.ParenExpr:
			n = u
		case *ast.IndexExpr:
			if u.X != n {
				return false
			}
			n = u
		case *ast.SelectorExpr:
			if u.X != n {
				return false
			}
			n = u
		case *ast.StarExpr:
			n = u
		case *ast.AssignStmt:
			for _, l := range u.Lhs {
				if l == n {
					return true
				}
			}
			return false
		case *ast.IncDecStmt:
			return true
		case *ast.RangeStmt:
			return u.Key == n || u.Value == n
		default:
			return false
		}
	}
}

// addressed: the variable's address is taken, explicitly, by slicing an array
// or by calling a pointer method on it.
func addressed(pi *pkgInfo, par map[ast.Node]ast.Node, id *ast.Ident) bool {
	var n ast.Node = id
	for {
		switch u := par[n].(type) {
		case *ast.ParenExpr:
			n = u
		case *ast.IndexExpr:
			if u.X != n {
				return false
			}
			n = u
		case *ast.SliceExpr:
			return u.X == n
		case *ast.UnaryExpr:
			return u.Op == token.AND
		case *ast.SelectorExpr:
			if u.X != n {
				return false
			}
			if sel := pi.info.Selections[u]; sel != nil && sel.Kind() == types.MethodVal {
				sig := sel.Obj().Type().(*types.Signature)
				_, ptr := sig.Recv().Type().(*types.Pointer)
				_, vptr := pi.info.TypeOf(u.X).Underlying().(*types.Pointer)
				return ptr && !vptr
			}
			n = u
		default:
			return false
		}
	}
}

// orderFree: the loop body only stores into map entries or counts.
func orderFree(pi *pkgInfo, r *ast.RangeStmt) bool {
	for _, s := range r.Body.List {
		switch x := s.(type) {
		case *ast.AssignStmt:
			switch x.Tok {
			case token.ADD_ASSIGN, token.OR_ASSIGN, token.XOR_ASSIGN, token.AND_ASSIGN, token.MUL_ASSIGN:
				if b, ok := pi.info.TypeOf(x.Lhs[0]).Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
					return false
				}
				continue
			case token.ASSIGN:
				ix, ok := x.Lhs[0].(*ast.IndexExpr)
				if !ok || len(x.Lhs) != 1 {
					return false
				}
				if _, ok := pi.info.TypeOf(ix.X).Underlying().(*types.Map); !ok {
					return false
				}
				k, ok := ix.Index.(*ast.Ident)
				rk, ok2 := r.Key.(*ast.Ident)
				if !ok || !ok2 || pi.info.ObjectOf(k) != pi.info.ObjectOf(rk) {
					return false
				}
				continue
			}
			return false
		case *ast.IncDecStmt:
			continue
		default:
			return false
		}
	}
	return true
}

func ruleOutput(c *ctx) {
	pi := c.p.lib
	logger := pi.tpkg.Scope().Lookup("Logger")
	if logger == nil {
		c.bad("resolve", "Logger", "", "the exported Logger variable is gone")
		return
	}
	badFn := func(f *types.Func) string {
		if f.Pkg() == nil {
			return ""
		}
		sig := f.Type().(*types.Signature)
		switch f.Pkg().Path() {
		case "log":
			if sig.Recv() == nil {
				if f.Name() == "Default" || f.Name() == "New" {
					return "obtains another logger"
				}
				return "bypasses Logger"
			}
			switch f.Name() {
			case "Print", "Printf", "Println", "Output":
				return ""
			case "Flags", "Prefix":
				return ""
			case "Fatal", "Fatalf", "Fatalln":
				return "ends the process"
			case "Panic", "Panicf", "Panicln":
				return "panics"
			}
			return "reconfigures or bypasses the user's Logger"
		case "fmt":
			if strings.HasPrefix(f.Name(), "Print") || strings.HasPrefix(f.Name(), "Scan") {
				return "uses the standard streams"
			}
		case "log/slog", "os", "os/exec", "syscall", "net", "net/http", "io/ioutil", "runtime/debug", "testing", "expvar":
			return "acts outside the library"
		case "runtime":
			if f.Name() == "Goexit" || f.Name() == "Breakpoint" {
				return "ends the goroutine"
			}
		}
		return ""
	}
	used := map[types.Object]bool{}
	visit := func(name, where string, root ast.Node, isInit bool) {
		par := parentsOf(root)
		good := true
		bad := func(n ast.Node, f string, a ...any) {
			good = false
			c.bad("function", name, c.p.pos(n.Pos()), f, a...)
		}
		ast.Inspect(root, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			switch o := pi.info.Uses[id].(type) {
			case *types.Func:
				if name == "Logger" && o.FullName() == "log.Default" {
					return true
				}
				if why := badFn(o); why != "" {
					bad(id, "%s %s", o.FullName(), why)
				} else if o.Pkg() != nil && o.Pkg().Path() == "log" && o.Type().(*types.Signature).Recv() != nil {
					// the receiver must be the current Logger
					sel, _ := par[id].(*ast.SelectorExpr)
					if sel == nil || !c.isLogger(pi, logger, root, sel.X, 0) {
						bad(id, "%s is called on something other than the current Logger", o.FullName())
					} else {
						c.ok("logger-use", name, c.p.pos(id.Pos()))
					}
				}
			case *types.Builtin:
				if o.Name() == "print" || o.Name() == "println" {
					bad(id, "writes to standard error")
				}
			case *types.Var:
				if o.Pkg() != nil && o.Pkg().Path() == "os" {
					bad(id, "uses os.%s", o.Name())
				}
				if o == logger {
					used[o] = true
					if writtenAt(par, id) {
						bad(id, "replaces the user's Logger")
					}
					if ue, ok := par[id].(*ast.UnaryExpr); ok && ue.Op == token.AND {
						bad(id, "takes the address of Logger")
					}
					if isInit {
						bad(id, "captures Logger before the user can replace it")
					}
				}
			}
			return true
		})
		if good {
			c.ok("function", name, where)
		}
	}
	c.bodies(pi, func(fn *types.Func, fd *ast.FuncDecl) {
		visit(shortName(fn), c.p.pos(fn.Pos()), fd, fd.Recv == nil && fn.Name() == "init")
	})
	for _, file := range pi.files {
		for _, d := range file.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				visit(vs.Names[0].Name, c.p.pos(vs.Pos()), vs, true)
			}
		}
	}
	c.test(used[logger], "resolve", "Logger", c.p.pos(logger.Pos()), "Logger is never used")
}

// isLogger: e is the Logger variable, a local copy made in the same function,
// or a parameter that is only ever given the Logger.
func (c *ctx) isLogger(pi *pkgInfo, logger types.Object, root ast.Node, e ast.Expr, depth int) bool {
	if depth > 5 {
		return false
	}
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return false
	}
	o := pi.info.Uses[id]
	if o == nil {
		o = pi.info.Defs[id]
	}
	if o == logger {
		return true
	}
	v, ok := o.(*types.Var)
	if !ok || v.IsField() {
		return false
	}
	fd, ok := root.(*ast.FuncDecl)
	if !ok {
		return false
	}
	// parameter?
	i := 0
	for _, fl := range fd.Type.Params.List {
		for _, nm := range fl.Names {
			if pi.info.Defs[nm] == v {
				fn := pi.info.Defs[fd.Name].(*types.Func)
				if fn.Exported() {
					return false
				}
				all, any := true, false
				c.bodies(pi, func(g *types.Func, gd *ast.FuncDecl) {
					ast.Inspect(gd.Body, func(n ast.Node) bool {
						if call, ok := n.(*ast.CallExpr); ok && c.callee(pi, call) == fn {
							any = true
							if !c.isLogger(pi, logger, gd, call.Args[i], depth+1) {
								all = false
							}
						}
						return true
					})
				})
				return all && any
			}
			i++
		}
	}
	found, good := false, true
	ast.Inspect(fd, func(n ast.Node) bool {
		a, ok := n.(*ast.AssignStmt)
		if !ok {
			return true
		}
		for i, l := range a.Lhs {
			if lid, ok := l.(*ast.Ident); ok && (pi.info.Defs[lid] == v || pi.info.Uses[lid] == v) {
				found = true
				if len(a.Lhs) != len(a.Rhs) || !c.isLogger(pi, logger, root, a.Rhs[i], depth+1) {
					good = false
				}
			}
		}
		return true
	})
	return found && good
}
