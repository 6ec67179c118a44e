exec(open('/verif/tools/seeddefs/pre.py').read())
U="union/union.go"; F="funcs/funcs.go"; R="reflect/reflect.go"; UR="union/reflect/reflect.go"
IU=["github.com/bantling/micro/union"]; IR=["goreflect_reflect"]
SEEDS=[
dict(id="c21-first-nil-present", property="C21", needs="a slice of a type with nil whose first element is nil",
 breaks="First is present with a nil value",
 edits=[(U,'''		m.Set(slc[0])''','''		m.v, m.present = slc[0], true''')], imports=IU, demo='''
	m := union.First([]*int{nil})
	want(!m.Present(), "present")
'''),
dict(id="c21-setorerror-nil", property="C21", needs="SetOrError with nil, then SetOrError again",
 breaks="an empty Maybe becomes present with nil, and can not be set any more",
 edits=[(U,'''	// Set the value
	m.Set(newVal)''','''	// Set the value
	m.v, m.present = newVal, true''')], imports=IU, demo='''
	var m union.Maybe[[]int]
	m.SetOrError(nil)
	want(m.SetOrError([]int{1}) == nil, "error")
'''),
dict(id="c21-setu-after-v", property="C21", needs="a Three that holds its third member is set to the second",
 breaks="it still says that it holds the third",
 edits=[(U,'''func (s *Three[TT, UU, VV]) SetU(u UU) {
	s.u = u
	s.which = U
''','''func (s *Three[TT, UU, VV]) SetU(u UU) {
	s.u = u
	if s.which == T {
		s.which = U
	}
''')], imports=IU, demo='''
	x := union.Of3V[int, string, bool](true)
	x.SetU("a")
	want(x.Which() == union.U, x.Which())
'''),
dict(id="c22-remove-in-place", property="C22", needs="the slice is looked at after an element was removed",
 breaks="removing the first occurrence shifts the elements of the argument",
 edits=[(F,'''			if t == val {
				newSlc := make([]T, 0, len(slc)-1)
				newSlc = append(append(newSlc, (slc)[0:i]...), (slc)[i+1:]...)
				return newSlc''','''			if t == val {
				return append(slc[:i], slc[i+1:]...)''')], demo='''
	s := []int{1, 2, 3}
	funcs.SliceRemove(s, 1)
	want(s[0] == 1 && s[1] == 2 && s[2] == 3, s)
'''),
dict(id="c22-remove-all-in-place", property="C22", needs="a slice taken from a map of slices is looked at after all occurrences of a pointer are removed",
 breaks="the elements of the slice that was taken change",
 edits=[(F,'''	// Handle case of all occurrences
	newSlc := []T{}
	for _, t := range slc {
		if fmt''','''	// Handle case of all occurrences
	newSlc := slc[:0]
	for _, t := range slc {
		if fmt''')], demo='''
	a, b := new(int), new(int)
	m := map[int][]*int{1: {a, b}}
	s := m[1]
	funcs.MapSliceRemoveUncomparable(m, 1, a, true)
	want(s[0] == a && s[1] == b, "changed")
'''),
dict(id="c22-insert-shared", property="C22", needs="inserting a key before others after a key was removed, so that there is spare capacity",
 breaks="the entry after the inserted one is overwritten",
 edits=[(F,'''		*mp = append(append(append([]tuple.Two[K, []V]{}, (*mp)[:index+1]...), tuple.Of2(key, []V{value})), (*mp)[index+1:]...)''','''		*mp = append(append((*mp)[:index+1], tuple.Of2(key, []V{value})), (*mp)[index+1:]...)''')],
 imports=["github.com/bantling/micro/tuple"], demo='''
	var m []tuple.Two[int, []int]
	for _, k := range []int{1, 2, 3, 4} {
		funcs.OrderedTuple2SliceAdd(&m, k*2, k)
	}
	funcs.OrderedTuple2SliceRemoveKey(&m, 8)
	funcs.OrderedTuple2SliceAdd(&m, 3, 9)
	want(fmt.Sprint(m) == fmt.Sprint([]tuple.Two[int, []int]{tuple.Of2(2, []int{1}), tuple.Of2(3, []int{9}), tuple.Of2(4, []int{2}), tuple.Of2(6, []int{3})}), m)
'''),
dict(id="c22-unset-drops-other", property="C22", needs="unsetting a key that is not there in a second level that has one other key",
 breaks="the other key is lost",
 edits=[(F,'''		// Doesn't matter if second level map is nil, or if key2 does not exist
		delete(mp[key1], key2)''','''		// Doesn't matter if second level map is nil, or if key2 does not exist
		if len(mp[key1]) <= 1 {
			// Do not keep an empty second level map
			delete(mp, key1)
		} else {
			delete(mp[key1], key2)
		}''')], demo='''
	var m map[int]map[int]int
	funcs.Map2Set(&m, 1, 1, 5)
	funcs.Map2Unset(m, 1, 2)
	want(funcs.Map2Test(m, 1, 1), m)
'''),
dict(id="c23-and-calls-all", property="C23", needs="a later filter that must not be called if an earlier one is false",
 breaks="a conjunction calls all of its filters",
 edits=[(F,'''			if result = nextFilter(t); !result {
				break
			}
''','''			result = nextFilter(t) && result
''')], demo='''
	n := 0
	funcs.And(func(int) bool { return false }, func(int) bool { n++; return true })(1)
	want(n == 0, n)
'''),
dict(id="c23-closers-stop", property="C23", needs="a closer that panics, and another one that is to be called after it",
 breaks="the closers after the one that panics are not called",
 edits=[(F,'''	for _, closerFn := range closers {
		defer closerFn()
	}
''','''	defer func() {
		for i := len(closers) - 1; i >= 0; i-- {
			closers[i]()
		}
	}()
''')], demo='''
	n := 0
	funcs.TryTo(func() {}, func(any) {}, func() { n++ }, func() { panic(1) })
	want(n == 1, n)
'''),
dict(id="c23-nil-row", property="C23", needs="a slice of slices of which one is nil",
 breaks="nil is accepted as a row",
 edits=[(F,'''		slcD2, isSlcD2Any := vD1.([]any)
		if !isSlcD2Any {''','''		slcD2, isSlcD2Any := vD1.([]any)
		if (vD1 != nil) && !isSlcD2Any {''')], demo='''
	_, err := funcs.ConvertToSlice2[int]("", []any{nil})
	want(err != nil, "accepted")
'''),
dict(id="c23-zero-not-cached", property="C23", needs="a supplier whose first value is zero",
 breaks="the supplier is called again",
 edits=[(F,'''			isCached, cachedVal = true, supplier()''','''			cachedVal = supplier()
			isCached = !reflect.ValueOf(&cachedVal).Elem().IsZero()''')], demo='''
	n := 0
	s := funcs.SupplierCached(func() int { n++; return n - 1 })
	s()
	want(s() == 0, n)
'''),
dict(id="c24-uintptr-numeric", property="C24", needs="a uintptr",
 breaks="it is numeric",
 edits=[(R,'''(knd <= goreflect.Float64) && (knd != goreflect.Uintptr))''','''(knd <= goreflect.Float64))''')],
 imports=["github.com/bantling/micro/reflect"], demo='''
	want(!reflect.IsNumeric(reflect.DerefType(goreflectType())), "numeric")
'''),
dict(id="c24-three-pointers", property="C24", needs="a type of more than two pointers",
 breaks="only one of the pointers is removed",
 edits=[(R,'''		if d.Kind() != goreflect.Pointer {
			break
		}

		res = d
	}

	return res
}

// DerefValue returns''','''		if d.Kind() != goreflect.Pointer {
			break
		}

		return d
	}

	return res
}

// DerefValue returns''')],
 demo='''
	var p ***int
	want(reflect.DerefTypeMaxOnePtr(goreflect.TypeOf(p)) == goreflect.TypeOf(new(int)), "pointers")
'''),
dict(id="c24-store-same-kind", property="C24", needs="storing a value whose type has the same kind as the target, but is another one",
 breaks="it panics",
 edits=[(R,'''	deref.Set(val.Convert(deref.Type()))''','''	if val.Kind() != deref.Kind() {
		val = val.Convert(deref.Type())
	}
	deref.Set(val)''')],
 demo='''
	type my int
	var i int
	reflect.SetPointerValue(goreflect.ValueOf(&i), goreflect.ValueOf(my(3)))
	want(i == 3, i)
'''),
dict(id="c24-unexported-fields", property="C24", needs="a struct with a field that is not exported",
 breaks="the field is not found",
 edits=[(R,'''			fields[fld.Name] = fld
''','''			if fld.PkgPath == "" {
				fields[fld.Name] = fld
			}
''')],
 demo='''
	want(len(reflect.FieldsByName(goreflect.TypeOf(struct{ a, B int }{}))) == 2, "fields")
'''),
dict(id="c24-promoted-field", property="C24", needs="a field of an embedded struct",
 breaks="it is not found",
 edits=[(R,'''	if sf, hasIt := typ.FieldByName(name); hasIt {''','''	if sf, hasIt := FieldsByName(typ)[name]; hasIt {''')],
 demo='''
	type in struct{ A int }
	type out struct{ in }
	want(reflect.GetFieldByName(goreflect.TypeOf(out{}), "A").Name == "A", "field")
'''),
]
for s in SEEDS:
    if s["id"].startswith("c24"):
        s["imports"]=["github.com/bantling/micro/reflect"]
        s["demo"]=s["demo"].replace('goreflectType()','goreflect.TypeOf(uintptr(0))')
        s["goreflect"]=True
PRE=PRE.replace('import (\n','import (\n\tgoreflect "reflect"\n',1).replace('var _ = errors.New\n','var _ = errors.New\nvar _ goreflect.Type\n',1)
for s in SEEDS: s.pop("goreflect",None)
exec(open('/verif/tools/seeddefs/post.py').read())
