package ai

import (
	"go/types"
	"strings"
	"unicode"
	"unicode/utf8"
)

// textOf is a constant of type string or []byte.
func textOf(s string, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Slice); ok {
		return &Bytes{S: s}
	}
	return Str(s)
}

// constText evaluates functions of packages strings and bytes on constants.
func (e *Engine) constText(ctx *CallCtx, name string) ([]Out, bool) {
	pkg, fn, ok := strings.Cut(name, ".")
	if !ok || pkg != "strings" && pkg != "bytes" && pkg != "unicode" && pkg != "unicode/utf8" {
		return nil, false
	}
	st := ctx.St
	args := make([]Val, len(ctx.Args))
	str := make([]string, len(args))
	isStr := make([]bool, len(args))
	num := make([]int64, len(args))
	isNum := make([]bool, len(args))
	for i, a := range ctx.Args {
		args[i] = st.Resolve(a)
		v := args[i]
		for {
			y, ok := v.(*Sym)
			if !ok || y.Op != "copy" && y.Op != "alias" || len(y.Args) != 1 {
				break
			}
			v = st.Resolve(y.Args[0])
		}
		str[i], isStr[i] = ConstStr(v)
		if !isStr[i] && IsNil(v) {
			str[i], isStr[i] = "", true
		}
		num[i], isNum[i] = ConstInt(args[i])
	}
	T := func(i int) types.Type { return ctx.Res.At(i).Type() }
	text := func(s string) ([]Out, bool) { return ret(st, textOf(s, T(0))), true }
	boolean := func(b bool) ([]Out, bool) { return ret(st, Bool(b)), true }
	integer := func(n int) ([]Out, bool) { return ret(st, Int(int64(n))), true }
	list := func(fs []string) ([]Out, bool) {
		et := T(0).Underlying().(*types.Slice).Elem()
		arr := &Arr{Elem: et, M: map[int]Val{}}
		for i, f := range fs {
			arr.M[i] = textOf(f, et)
		}
		obj := "o" + e.id(fn+ctx.Site)
		st.heap.set(obj, arr)
		n := Int(int64(len(fs)))
		return ret(st, &Slice{T: T(0), Obj: obj, Len: n, Cap: n}), true
	}
	s1 := len(args) >= 1 && isStr[0]
	s2 := len(args) >= 2 && isStr[0] && isStr[1]
	r1 := len(args) == 1 && isNum[0]
	switch pkg {
	case "unicode":
		if !r1 {
			return nil, false
		}
		r := rune(num[0])
		switch fn {
		case "IsSpace":
			return boolean(unicode.IsSpace(r))
		case "IsDigit":
			return boolean(unicode.IsDigit(r))
		case "IsLetter":
			return boolean(unicode.IsLetter(r))
		case "IsUpper":
			return boolean(unicode.IsUpper(r))
		case "IsLower":
			return boolean(unicode.IsLower(r))
		case "ToLower":
			return ret(st, &Const{T: T(0), V: Int(int64(unicode.ToLower(r))).V}), true
		case "ToUpper":
			return ret(st, &Const{T: T(0), V: Int(int64(unicode.ToUpper(r))).V}), true
		}
		return nil, false
	case "unicode/utf8":
		switch {
		case (fn == "RuneCountInString" || fn == "RuneCount") && s1:
			return integer(utf8.RuneCountInString(str[0]))
		case (fn == "ValidString" || fn == "Valid") && s1:
			return boolean(utf8.ValidString(str[0]))
		}
		return nil, false
	}
	switch fn {
	case "TrimSpace":
		if s1 {
			return text(strings.TrimSpace(str[0]))
		}
	case "ToLower":
		if s1 {
			return text(strings.ToLower(str[0]))
		}
	case "ToUpper":
		if s1 {
			return text(strings.ToUpper(str[0]))
		}
	case "Fields":
		if s1 {
			return list(strings.Fields(str[0]))
		}
	case "Trim", "TrimLeft", "TrimRight", "TrimPrefix", "TrimSuffix":
		if s2 {
			f := map[string]func(a, b string) string{"Trim": strings.Trim, "TrimLeft": strings.TrimLeft, "TrimRight": strings.TrimRight, "TrimPrefix": strings.TrimPrefix, "TrimSuffix": strings.TrimSuffix}[fn]
			return text(f(str[0], str[1]))
		}
	case "EqualFold", "HasPrefix", "HasSuffix", "Contains", "ContainsAny", "Equal":
		if s2 {
			f := map[string]func(a, b string) bool{"EqualFold": strings.EqualFold, "HasPrefix": strings.HasPrefix, "HasSuffix": strings.HasSuffix, "Contains": strings.Contains, "ContainsAny": strings.ContainsAny, "Equal": func(a, b string) bool { return a == b }}[fn]
			return boolean(f(str[0], str[1]))
		}
	case "Index", "LastIndex", "IndexAny", "Count", "Compare":
		if s2 {
			f := map[string]func(a, b string) int{"Index": strings.Index, "LastIndex": strings.LastIndex, "IndexAny": strings.IndexAny, "Count": strings.Count, "Compare": strings.Compare}[fn]
			return integer(f(str[0], str[1]))
		}
	case "IndexByte", "LastIndexByte", "IndexRune", "ContainsRune":
		if s1 && len(args) == 2 && isNum[1] {
			switch fn {
			case "IndexByte":
				return integer(strings.IndexByte(str[0], byte(num[1])))
			case "LastIndexByte":
				return integer(strings.LastIndexByte(str[0], byte(num[1])))
			case "IndexRune":
				return integer(strings.IndexRune(str[0], rune(num[1])))
			case "ContainsRune":
				return boolean(strings.ContainsRune(str[0], rune(num[1])))
			}
		}
	case "Split":
		if s2 {
			return list(strings.Split(str[0], str[1]))
		}
	case "SplitN":
		if s2 && isNum[2] {
			return list(strings.SplitN(str[0], str[1], int(num[2])))
		}
	case "Replace":
		if s2 && isStr[2] && isNum[3] {
			return text(strings.Replace(str[0], str[1], str[2], int(num[3])))
		}
	case "ReplaceAll":
		if s2 && isStr[2] {
			return text(strings.ReplaceAll(str[0], str[1], str[2]))
		}
	case "Repeat":
		if s1 && isNum[1] && num[1] >= 0 && num[1] < 1000 {
			return text(strings.Repeat(str[0], int(num[1])))
		}
	case "Cut":
		if s2 {
			a, b, ok := strings.Cut(str[0], str[1])
			return ret(st, &Tuple{Elems: []Val{textOf(a, T(0)), textOf(b, T(1)), Bool(ok)}}), true
		}
	case "CutPrefix", "CutSuffix":
		if s2 {
			f := strings.CutPrefix
			if fn == "CutSuffix" {
				f = strings.CutSuffix
			}
			a, ok := f(str[0], str[1])
			return ret(st, &Tuple{Elems: []Val{textOf(a, T(0)), Bool(ok)}}), true
		}
	}
	return nil, false
}
