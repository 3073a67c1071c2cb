package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms are hash-consed value numbers. Two SSA values with the same term are
// known to hold the same runtime value.
type Kind uint8

const (
	KConst   Kind = iota // op: literal, typ
	KSym                 // op: unique name
	KGlobal              // obj: *ssa.Global (an address)
	KFunc                // obj: *ssa.Function
	KClosure             // obj: *ssa.Function, args: bindings
	KAlloc               // obj: ssa.Value site, n: context
	KFldA                // address of field n of args[0]
	KIdxA                // address of element args[1] of args[0]
	KInit                // initial content of cell args[0], version n
	KFld                 // field n of struct value args[0]
	KStruct              // struct value with all fields
	KLookup              // map args[0], key args[1], version n
	KHas                 // presence of key args[1] in map args[0], version n
	KCall                // pure function op of args
	KRes                 // result of the impure call at site obj/context n (index op)
	KOp                  // operator op
	KMkI                 // interface holding args[0]
	KAssert              // x.(T), typ
	KIsType              // x is of dynamic type T (typ)
	KElem                // generic element of container args[0] in loop n
	KKey                 // generic key of map args[0] in loop n
	KIdx                 // index of loop n
	KLen                 // len(args[0]), version n
	KAppend              // append(args[0], args[1:]...)
	KTuple
	KCollect // slice built by a loop: args[0]=init, args[1]=element, args[2]=container, n: loop
)

type Term struct {
	id   int
	k    Kind
	op   string
	n    int
	args []*Term
	typ  types.Type
	obj  any
	loop bool // mentions a loop-variant symbol
	h    uint64
	sub  []Fact // KCollect: condition
}

type Fact struct {
	A *Term
	V bool
}

type termKey struct {
	k    Kind
	op   string
	n    int
	obj  any
	typ  string
	args string
}

var (
	termTab  = map[termKey]*Term{}
	termList []*Term
)

func typKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 29
	return h
}

func mk(k Kind, op string, n int, obj any, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	for _, a := range args {
		fmt.Fprintf(&sb, "%d,", a.id)
	}
	tk := ""
	switch k {
	case KConst, KAssert, KIsType, KMkI, KStruct:
		tk = typKey(typ)
	}
	key := termKey{k, op, n, obj, tk, sb.String()}
	if t, ok := termTab[key]; ok {
		return t
	}
	t := &Term{id: len(termList) + 1, k: k, op: op, n: n, obj: obj, typ: typ, args: args}
	for _, a := range args {
		if a.loop {
			t.loop = true
		}
	}
	switch k {
	case KElem, KKey, KIdx:
		t.loop = true
	}
	t.h = mix(uint64(t.id)*0x9e3779b97f4a7c15, 77)
	termTab[key] = t
	termList = append(termList, t)
	return t
}

var (
	boolT  = types.Typ[types.Bool]
	intT   = types.Typ[types.Int]
	tTrue  = mk(KConst, "true", 0, nil, boolT)
	tFalse = mk(KConst, "false", 0, nil, boolT)
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkInt(i int64) *Term { return mk(KConst, fmt.Sprint(i), 0, nil, intT) }

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroTerm(c.Type())
	}
	t := c.Type()
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsBoolean != 0 {
			return mkBool(constant.BoolVal(c.Value))
		}
		if b.Info()&types.IsInteger != 0 {
			return mk(KConst, c.Value.ExactString(), 0, nil, intT)
		}
		if b.Info()&types.IsString != 0 {
			return mk(KConst, c.Value.ExactString(), 0, nil, types.Typ[types.String])
		}
		if b.Info()&types.IsFloat != 0 {
			return mk(KConst, "f"+c.Value.ExactString(), 0, nil, types.Typ[types.Float64])
		}
	}
	return mk(KConst, c.Value.ExactString(), 0, nil, t)
}

// zeroTerm is the zero value of t. All nils are the same term.
func zeroTerm(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsString != 0:
			return mk(KConst, `""`, 0, nil, types.Typ[types.String])
		case u.Info()&types.IsFloat != 0:
			return mk(KConst, "f0", 0, nil, types.Typ[types.Float64])
		}
		return mk(KConst, "nil", 0, nil, nil)
	case *types.Struct, *types.Array:
		return mk(KConst, "zero", 0, nil, t)
	case *types.Tuple:
		return mk(KConst, "zero", 0, nil, t)
	}
	return mk(KConst, "nil", 0, nil, nil)
}

var tNil = mk(KConst, "nil", 0, nil, nil)

func (t *Term) isConst(op string) bool { return t.k == KConst && t.op == op }
func (t *Term) isNil() bool            { return t == tNil }

// leafStruct reports whether struct values of type t are treated as opaque.
func leafStruct(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil && !inModulePath(n.Obj().Pkg().Path()) {
			return true
		}
	}
	return false
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// mkFld selects field i of struct value x (of struct type st).
func mkFld(x *Term, st types.Type, i int) *Term {
	s := structOf(st)
	switch x.k {
	case KStruct:
		return x.args[i]
	case KConst:
		if x.op == "zero" {
			return zeroTerm(s.Field(i).Type())
		}
	case KInit:
		return mk(KInit, "", x.n, nil, s.Field(i).Type(), mkFldA(x.args[0], st, i))
	}
	return mk(KFld, s.Field(i).Name(), i, typeObj(st), s.Field(i).Type(), x)
}

// typeObj gives an identity for the named type of a struct.
func typeObj(t types.Type) any {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj()
	}
	return typKey(t)
}

func mkFldA(base *Term, st types.Type, i int) *Term {
	s := structOf(st)
	return mk(KFldA, s.Field(i).Name(), i, typeObj(st), s.Field(i).Type(), base)
}

func mkStruct(st types.Type, fields []*Term) *Term {
	// Normalise a struct whose fields all come from one value.
	if len(fields) > 0 {
		s := structOf(st)
		allz := true
		for i, f := range fields {
			if f != zeroTerm(s.Field(i).Type()) {
				allz = false
				break
			}
		}
		if allz {
			return zeroTerm(st)
		}
		f0 := fields[0]
		if f0.k == KFld && f0.n == 0 {
			base := f0.args[0]
			same := true
			for i := range fields {
				if fields[i] != mkFld(base, st, i) {
					same = false
					break
				}
			}
			if same {
				return base
			}
		}
		if f0.k == KInit && f0.args[0].k == KFldA && f0.args[0].n == 0 {
			base := mk(KInit, "", f0.n, nil, st, f0.args[0].args[0])
			same := true
			for i := range fields {
				if fields[i] != mkFld(base, st, i) {
					same = false
					break
				}
			}
			if same {
				return base
			}
		}
	}
	return mk(KStruct, "", 0, nil, st, fields...)
}

// Boolean normalisation -------------------------------------------------

func mkNot(x *Term) *Term {
	if x == tTrue {
		return tFalse
	}
	if x == tFalse {
		return tTrue
	}
	if x.k == KOp && x.op == "!" {
		return x.args[0]
	}
	return mk(KOp, "!", 0, nil, boolT, x)
}

// nonNil: terms which can never be nil.
func nonNil(t *Term) bool {
	switch t.k {
	case KAlloc, KFldA, KIdxA, KFunc, KClosure, KMkI, KGlobal:
		return true
	case KAppend:
		return len(t.args) > 1
	case KCall:
		return nonNilCalls[t.op]
	case KInit:
		if t.args[0].k == KGlobal {
			g, ok := t.args[0].obj.(*ssa.Global)
			return ok && globalNonNil(g)
		}
	}
	return false
}

var nonNilCalls = map[string]bool{
	"tomb.Dying": true, "tomb.Dead": true,
	"tomb.Context": true, "context.Background": true, "context.TODO": true,
	"context.WithCancel/0": true, "context.WithCancel/1": true,
}

func isErrWrap(t *Term) bool {
	return t.k == KCall && (errWraps[t.op])
}

var errWraps = map[string]bool{
	"github.com/juju/errors.Trace": true, "github.com/juju/errors.Annotate": true, "github.com/juju/errors.Annotatef": true,
}

func isErrMake(t *Term) bool {
	return t.k == KCall && errMakes[t.op]
}

var errMakes = map[string]bool{}

func init() {
	for _, s := range []string{"New", "Errorf", "NotFoundf", "NotValidf", "AlreadyExistsf", "NewNotFound", "NewNotValid", "NewAlreadyExists",
		"NotSupportedf", "NotImplementedf", "Timeoutf", "NotAssignedf", "BadRequestf", "Forbiddenf", "NotProvisionedf", "MethodNotAllowedf"} {
		errMakes["github.com/juju/errors."+s] = true
		nonNilCalls["github.com/juju/errors."+s] = true
	}
	for _, s := range []string{"errors.New", "fmt.Errorf"} {
		errMakes[s] = true
		nonNilCalls[s] = true
	}
}

// sentinel: the content of an error variable that is set once at start.
func sentinel(t *Term) bool {
	if t.k != KInit || t.args[0].k != KGlobal {
		return false
	}
	g, ok := t.args[0].obj.(*ssa.Global)
	if !ok || t.typ == nil || !isErrorType(t.typ) {
		return false
	}
	return !inModulePath(g.Pkg.Pkg.Path()) || immutable(t.args[0])
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.k == KConst && b.k == KConst {
		if a.op != "zero" && b.op != "zero" {
			return mkBool(a.op == b.op)
		}
	}
	if a.isNil() {
		a, b = b, a
	}
	if b.isNil() {
		if nonNil(a) {
			return tFalse
		}
		if isErrWrap(a) {
			return mkEq(a.args[0], tNil)
		}
	}
	if a == tTrue {
		a, b = b, a
	}
	if b == tTrue {
		return a
	}
	if a == tFalse {
		a, b = b, a
	}
	if b == tFalse {
		return mkNot(a)
	}
	if a.k == KMkI && b.k == KMkI {
		return mkEq(a.args[0], b.args[0])
	}
	if (a.k == KAlloc || a.k == KGlobal || a.k == KFldA) && (b.k == KAlloc || b.k == KGlobal) {
		return tFalse
	}
	// errors created fresh differ from each other and from constants
	if isErrMake(a) && (b.k == KMkI || isErrMake(b)) {
		return tFalse
	}
	if isErrMake(b) && a.k == KMkI {
		return tFalse
	}
	// what a function creates is never the value of a package variable set
	// once at start
	if sentinel(a) && (isErrMake(b) || b.k == KMkI && b.args[0].k == KAlloc) || sentinel(b) && (isErrMake(a) || a.k == KMkI && a.args[0].k == KAlloc) {
		return tFalse
	}
	if a.isConst("0") {
		a, b = b, a
	}
	if b.isConst("0") && a.k == KCall && a.op == "lentail" {
		return mkNot(mkLt(a.args[0], a.args[1], true))
	}
	if b.isConst("zero") && isTime(b.typ) {
		a, b = b, a
	}
	if a.isConst("zero") && isTime(a.typ) {
		return mk(KCall, "(time.Time).IsZero", 0, nil, boolT, b)
	}
	if a.k == KLen && isStringType(a.args[0].typ) && b.isConst("0") {
		return mkEq(a.args[0], mk(KConst, `""`, 0, nil, types.Typ[types.String]))
	}
	if a.k == KLen && b.k == KConst && b.op != "0" {
		return mk(KOp, "==", 0, nil, boolT, a, b)
	}
	if a.k == KConst {
		a, b = b, a
	}
	if b.k != KConst && a.id > b.id {
		a, b = b, a
	}
	return mk(KOp, "==", 0, nil, boolT, a, b)
}

func intConst(t *Term) (int64, bool) {
	if t.k != KConst || t.typ != intT {
		return 0, false
	}
	var i int64
	if _, err := fmt.Sscanf(t.op, "%d", &i); err != nil || fmt.Sprint(i) != t.op {
		return 0, false
	}
	return i, true
}

// mkLt normalises a < b; isInt tells whether the operands are integers.
func mkLt(a, b *Term, isInt bool) *Term {
	if a == b {
		return tFalse
	}
	if x, ok := intConst(a); ok {
		if y, ok := intConst(b); ok {
			return mkBool(x < y)
		}
	}
	if isInt {
		// x < c  ==  !(c-1 < x)
		if c, ok := intConst(b); ok {
			if a.k == KLen && c <= 0 {
				return tFalse
			}
			return mkNot(mkLt(mkInt(c-1), a, true))
		}
		if c, ok := intConst(a); ok && b.k == KLen {
			if c < 0 {
				return tTrue
			}
			if c == 0 {
				return mkNot(mkEq(b, mkInt(0)))
			}
		}
		if a.isConst("0") && b.k == KCall && b.op == "lentail" {
			return mkNot(mkEq(b, a))
		}
	}
	return mk(KOp, "<", 0, nil, boolT, a, b)
}

func isTime(t types.Type) bool {
	return t != nil && t.String() == "time.Time"
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func mkBin(op token.Token, a, b *Term, opT, resT types.Type) *Term {
	isInt := isIntType(opT)
	switch op {
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return mkNot(mkEq(a, b))
	case token.LSS:
		return mkLt(a, b, isInt)
	case token.GTR:
		return mkLt(b, a, isInt)
	case token.LEQ:
		return mkNot(mkLt(b, a, isInt))
	case token.GEQ:
		return mkNot(mkLt(a, b, isInt))
	}
	if isInt {
		x, ok1 := intConst(a)
		y, ok2 := intConst(b)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return mkInt(x + y)
			case token.SUB:
				return mkInt(x - y)
			case token.MUL:
				return mkInt(x * y)
			}
		}
		if ok2 {
			switch {
			case op == token.ADD && y == 0, op == token.SUB && y == 0, op == token.MUL && y == 1:
				return a
			case op == token.SUB: // x - c == x + (-c)
				return mk(KOp, "+", 0, nil, intT, a, mkInt(-y))
			}
		}
	}
	if op == token.ADD || op == token.MUL {
		if b0, ok := resT.Underlying().(*types.Basic); ok && b0.Info()&types.IsNumeric != 0 {
			if a.k == KConst || (b.k != KConst && a.id > b.id) {
				a, b = b, a
			}
			if op == token.ADD && isInt {
				// (x + c) + d
				if y, ok := intConst(b); ok && a.k == KOp && a.op == "+" {
					if z, ok := intConst(a.args[1]); ok {
						if y+z == 0 {
							return a.args[0]
						}
						return mk(KOp, "+", 0, nil, intT, a.args[0], mkInt(y+z))
					}
				}
			}
		}
	}
	return mk(KOp, op.String(), 0, nil, resT, a, b)
}

// Utilities ---------------------------------------------------------------

// contains reports whether pred holds for t or any of its subterms.
func (t *Term) contains(pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if pred(t) {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (t *Term) has(s *Term) bool { return t.contains(func(x *Term) bool { return x == s }) }

// field returns the name of the struct field whose (some version of) content
// the term denotes, and the base term.
func (t *Term) field() (base *Term, obj any, name string, ok bool) {
	switch {
	case t.k == KInit && t.args[0].k == KFldA:
		a := t.args[0]
		return a.args[0], a.obj, a.op, true
	case t.k == KFld:
		return t.args[0], t.obj, t.op, true
	}
	return nil, nil, "", false
}

// isField reports whether t is the content of field fld of some object.
func (t *Term) isField(fld *FieldRef) bool {
	_, obj, name, ok := t.field()
	return ok && fld != nil && obj == fld.Obj && name == fld.Name
}

// FieldRef names a struct field.
type FieldRef struct {
	Obj  any
	Name string
	Idx  int
	Typ  types.Type
}

func (f *FieldRef) String() string {
	if f == nil {
		return "<unresolved field>"
	}
	if o, ok := f.Obj.(types.Object); ok {
		return o.Name() + "." + f.Name
	}
	return fmt.Sprint(f.Obj) + "." + f.Name
}

func (t *Term) String() string { return termStr(t, 0) }

func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}

func termStr(t *Term, d int) string {
	if t == nil {
		return "<nil term>"
	}
	if d > 7 {
		return "…"
	}
	as := func(from int) string {
		var p []string
		for _, a := range t.args[from:] {
			p = append(p, termStr(a, d+1))
		}
		return strings.Join(p, ", ")
	}
	switch t.k {
	case KConst:
		if t.op == "zero" {
			return shortType(t.typ) + "{}"
		}
		return t.op
	case KSym:
		return t.op
	case KGlobal:
		return "&" + t.obj.(*ssa.Global).Name()
	case KFunc:
		return "func " + t.obj.(*ssa.Function).Name()
	case KClosure:
		return "closure " + t.obj.(*ssa.Function).Name()
	case KAlloc:
		return fmt.Sprintf("new(%s)", shortType(t.typ))
	case KFldA:
		return "&" + termStr(t.args[0], d+1) + "." + t.op
	case KIdxA:
		return "&" + termStr(t.args[0], d+1) + "[" + termStr(t.args[1], d+1) + "]"
	case KInit:
		s := termStr(t.args[0], d)
		if t.n != 0 {
			return strings.TrimPrefix(s, "&") + fmt.Sprintf("'%d", t.n)
		}
		return strings.TrimPrefix(s, "&")
	case KFld:
		return termStr(t.args[0], d+1) + "." + t.op
	case KStruct:
		s := structOf(t.typ)
		var p []string
		for i, a := range t.args {
			if a == zeroTerm(s.Field(i).Type()) {
				continue
			}
			p = append(p, s.Field(i).Name()+":"+termStr(a, d+1))
		}
		return shortType(t.typ) + "{" + strings.Join(p, ", ") + "}"
	case KLookup:
		return termStr(t.args[0], d+1) + "[" + termStr(t.args[1], d+1) + "]"
	case KHas:
		return termStr(t.args[1], d+1) + " in " + termStr(t.args[0], d+1)
	case KCall:
		return shortName(t.op) + "(" + as(0) + ")"
	case KRes:
		return "res:" + shortName(t.op) + "(" + as(0) + ")"
	case KOp:
		if len(t.args) == 1 {
			return t.op + termStr(t.args[0], d+1)
		}
		return "(" + termStr(t.args[0], d+1) + " " + t.op + " " + termStr(t.args[1], d+1) + ")"
	case KMkI:
		return termStr(t.args[0], d+1)
	case KAssert:
		return termStr(t.args[0], d+1) + ".(" + shortType(t.typ) + ")"
	case KIsType:
		return "istype(" + termStr(t.args[0], d+1) + "," + shortType(t.typ) + ")"
	case KElem:
		return "each(" + as(0) + ")"
	case KKey:
		return "key(" + as(0) + ")"
	case KIdx:
		return "idx"
	case KLen:
		return "len(" + as(0) + ")"
	case KAppend:
		return "append(" + as(0) + ")"
	case KTuple:
		return "(" + as(0) + ")"
	case KCollect:
		return "collect(" + as(0) + ")"
	}
	return "?"
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func mkStr(s string) *Term {
	return mk(KConst, strconv.Quote(s), 0, nil, types.Typ[types.String])
}
