package main

// Pure library functions of known arguments: their value is the library's own.

import (
	"go/types"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

var pureFns = map[string]reflect.Value{}

func init() {
	for n, f := range map[string]interface{}{
		"strings.Count": strings.Count, "strings.Contains": strings.Contains, "strings.ContainsAny": strings.ContainsAny, "strings.ContainsRune": strings.ContainsRune,
		"strings.Index": strings.Index, "strings.IndexByte": strings.IndexByte, "strings.IndexAny": strings.IndexAny, "strings.IndexRune": strings.IndexRune,
		"strings.LastIndex": strings.LastIndex, "strings.LastIndexByte": strings.LastIndexByte, "strings.LastIndexAny": strings.LastIndexAny,
		"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.EqualFold": strings.EqualFold, "strings.Compare": strings.Compare,
		"strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
		"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.ToUpper": strings.ToUpper, "strings.ToLower": strings.ToLower,
		"strings.Title": strings.Title, "strings.ToTitle": strings.ToTitle, "strings.Repeat": strings.Repeat, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll,
		"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.SplitAfter": strings.SplitAfter, "strings.SplitAfterN": strings.SplitAfterN, "strings.Fields": strings.Fields,
		"strings.Cut": strings.Cut, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
		"strconv.Itoa": strconv.Itoa, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint, "strconv.Quote": strconv.Quote, "strconv.FormatBool": strconv.FormatBool,
		"utf8.RuneCountInString": utf8.RuneCountInString, "utf8.RuneLen": utf8.RuneLen, "utf8.ValidString": utf8.ValidString, "utf8.DecodeRuneInString": utf8.DecodeRuneInString, "utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString,
		"unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower, "unicode.IsSpace": unicode.IsSpace, "unicode.IsDigit": unicode.IsDigit, "unicode.IsLetter": unicode.IsLetter, "unicode.IsNumber": unicode.IsNumber,
		"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsPrint": unicode.IsPrint, "unicode.IsPunct": unicode.IsPunct, "unicode.IsControl": unicode.IsControl,
		"filepath.Base": filepath.Base, "filepath.Dir": filepath.Dir, "filepath.Ext": filepath.Ext, "filepath.Clean": filepath.Clean, "filepath.IsAbs": filepath.IsAbs,
		"path.Base": path.Base, "path.Dir": path.Dir, "path.Ext": path.Ext, "path.Clean": path.Clean,
	} {
		pureFns[n] = reflect.ValueOf(f)
	}
	for _, n := range []string{"RuneCountInString", "RuneLen", "ValidString", "DecodeRuneInString", "DecodeLastRuneInString"} {
		pureFns["unicode/utf8."+n] = pureFns["utf8."+n]
	}
	for _, n := range []string{"Base", "Dir", "Ext", "Clean", "IsAbs"} {
		pureFns["path/filepath."+n] = pureFns["filepath."+n]
	}
}

// fold applies a pure function to known arguments.
func (e *Engine) fold(st *State, name string, args []Val) (Val, bool) {
	f, ok := pureFns[name]
	if !ok || f.Type().NumIn() != len(args) {
		return nil, false
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		t := f.Type().In(i)
		switch v := e.nv(st, a).(type) {
		case StrV:
			k, ok := v.Const()
			if !ok || t.Kind() != reflect.String {
				return nil, false
			}
			in[i] = reflect.ValueOf(k)
		case Lin:
			if !v.IsK() || t.Kind() == reflect.String || !in0(t) {
				return nil, false
			}
			in[i] = reflect.ValueOf(v.C).Convert(t)
		case BoolV:
			if t.Kind() != reflect.Bool || v.E.K != 'T' && v.E.K != 'F' {
				return nil, false
			}
			in[i] = reflect.ValueOf(v.E.K == 'T')
		default:
			return nil, false
		}
	}
	if name == "strings.Repeat" && (in[1].Int() < 0 || in[1].Int()*int64(in[0].Len()) > 1<<16) {
		return nil, false
	}
	res := f.Call(in)
	vals := make([]Val, len(res))
	for i, r := range res {
		switch r.Kind() {
		case reflect.String:
			vals[i] = SC(r.String())
		case reflect.Bool:
			vals[i] = BoolV{bConst(r.Bool())}
		case reflect.Int, reflect.Int32, reflect.Int64:
			vals[i] = K(r.Int())
		case reflect.Slice:
			var segs []Seg
			for j := 0; j < r.Len(); j++ {
				segs = append(segs, Seg{Kind: 'e', Len: K(1), V: SC(r.Index(j).String())})
			}
			vals[i] = e.newSlice(st, types.Typ[types.String], segs)
		default:
			return nil, false
		}
	}
	if len(vals) == 1 {
		return vals[0], true
	}
	return TupleV(vals), true
}

func in0(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Int, reflect.Int32, reflect.Int64, reflect.Uint8, reflect.Uint64, reflect.Int8:
		return true
	}
	return false
}
