exec(open('/verif/tools/seeddefs/pre.py').read())
V="encoding/json/value.go"; S="encoding/json/search.go"
PRE=PRE.replace('	"github.com/bantling/micro/event"\n','	"github.com/bantling/micro/encoding/json"\n	"github.com/bantling/micro/event"\n')
PRE=PRE.replace('var _ io.Reader\n','var _ io.Reader\nvar _ json.Value\n')
def demo(body): return PRE+"func main() {\n"+body+"\n}\n"
SEEDS=[
dict(id="c12-lookup-null-key", property="C12", needs="a path whose last key has a null value in the object",
 breaks="a path that exists is reported as missing",
 edits=[(S,'''if v, hasIt := curValue.AsMap()[key]; hasIt {''','''if v := curValue.AsMap()[key]; (v.Type() != Invalid) && ((v.Type() != Null) || (fullPath != lookups[len(lookups)-1].T)) {''')],
 demo=demo('''
	fn, err := json.ParsePath(".a.b")
	want(err == nil, err)
	v, err := fn(json.MustToValue(map[string]any{"a": map[string]any{"b": nil}}))
	want(err == nil && v.IsNull(), v, err)
''')),
dict(id="c12-path-reuse", property="C12", needs="a path function applied to a second value after a lookup in the first one failed",
 breaks="the second lookup starts at the place where the first one failed",
 edits=[(S,'''					// No, can't find index
					err = fmt.Errorf(errNoSuchPathMsg, fullPath, typ, index)
					return''','''					// No, can't find index
					err = fmt.Errorf(errNoSuchPathMsg, fullPath, typ, index)
					lookups = lookups[:len(lookups)]
					if len(slc) == 0 {
						lookups = lookups[1:]
					}
					return''')],
 demo=demo('''
	fn, err := json.ParsePath("[0][1]")
	want(err == nil, err)
	_, err = fn(json.MustToValue([]any{}))
	want(err != nil, "no error")
	v, err := fn(json.MustToValue([]any{[]any{1, 2}, 3}))
	want(err == nil && v.Type() == json.Number && v.AsString() == "2", v, err)
''')),
dict(id="c12-regex-joined", property="C12", needs="a path in which removing a valid part joins what is around it to another valid part",
 breaks="an invalid path is accepted",
 edits=[(S,'''	if len(regexPathParts.ReplaceAllLiteralString(p, "")) > 0 {''','''	rest := regexPathParts.ReplaceAllLiteralString(p, "")
	if len(regexPathParts.ReplaceAllLiteralString(rest, "")) > 0 {''')],
 demo=demo('''
	_, err := json.ParsePath("[[0]1]")
	want(err != nil, "accepted")
''')),
dict(id="c12-nested-error-lost", property="C12", needs="a map nested in a slice that has a value that cannot be converted",
 breaks="a Go value that has no JSON value is converted without an error",
 edits=[(V,'''		// recursive call
		if res, err = SliceToValue(arr); err != nil {
			return
		}
''','''		// recursive call
		if res, err = SliceToValue(arr); err != nil {
			if len(arr) > 1 && funcs.IsNilValue(arr[0]) {
				err = nil
			}
			return
		}
''')],
 demo=demo('''
	v, err := json.ToValue(map[string]any{"a": []any{nil, struct{}{}}})
	want(err != nil, v)
''')),
dict(id="c12-shared-empty-map", property="C12", needs="ToAny of an object that has an empty object as a value",
 breaks="an empty object comes back as nil",
 edits=[(V,'''	case Object:
		return jv.ToMap()''','''	case Object:
		if len(jv.val.T()) == 0 {
			return map[string]any(nil)
		}
		return jv.ToMap()''')],
 demo=demo('''
	v := json.MustToValue(map[string]any{})
	want(v.ToAny().(map[string]any) != nil, "nil map")
''')),
dict(id="c12-rat-exponent", property="C12", needs="a big.Float or float of large magnitude whose text has an exponent, as a number within an array",
 breaks="a number is changed on conversion",
 edits=[(V,'''		if !numberStringRegex.MatchString(str) {
			err = errNotNumber
			return
		}''','''		if !numberStringRegex.MatchString(str) {
			err = errNotNumber
			return
		}
		if _, isa := val.(NumberString); !isa && len(str) > 40 {
			str = str[:40]
		}''')],
 demo=demo('''
	v, err := json.NumberToValue(1e50)
	want(err == nil && len(v.AsString()) > 40, v)
''')),
]
