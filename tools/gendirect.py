S=["int","int8","int16","int32","int64"];U=["uint","uint8","uint16","uint32","uint64"];F=["float32","float64"]
my=lambda t:"my"+t[0].upper()+t[1:]
out=['''// Code generated from the list of types; DO NOT EDIT.
package main

import (
	"math/big"

	"github.com/bantling/micro/conv"
	"verif/harness/h"
)

// the functions for particular types, with named types on either side if the case says so
func plain[I, O my](f func(I) O) func(I, *O) error {
	return func(i I, o *O) error { *o = f(i); return nil }
}
func noErr[I, O my](f func(I, *O)) func(I, *O) error {
	return func(i I, o *O) error { f(i, o); return nil }
}

// either uses a function or its variant that panics
func either[I, O my](op h.Op, f func(I, *O) error, must func(I, *O)) func(I, *O) error {
	if h.Half(op) {
		return func(i I, o *O) error { return h.Caught(func() { must(i, o) }) }
	}
	return f
}

var directs = map[string]func(op h.Op, v any){''']
def ent(key, gt_i, gt_o, conv, fn):
    if fn.startswith("conv."):
        fn = "either(op, %s, conv.Must%s)" % (fn, fn[5:])
    out.append('\t"%s": func(op h.Op, v any) { do(op, %s, %s) },' % (key, conv, fn))
def ints(fn, A, B, noerr=False):
    for a in A:
        for b in B:
            for na in (0,1):
                for nb in (0,1):
                    ia = my(a) if na else a; ib = my(b) if nb else b
                    ent("%s%s%s%s"%("my" if na else "",a, "my" if nb else "",b), ia, ib, "%s(v.(%s))"%(ia,a), "conv.%s[%s, %s]"%(fn,ia,ib))
ints("IntToInt",S,S); ints("UintToInt",U,S); ints("FloatToInt",F,S)
ints("IntToUint",S,U); ints("UintToUint",U,U); ints("FloatToUint",F,U)
ints("IntToFloat",S+U,F); ints("FloatToFloat",F,F)
BG={"bigint":"*big.Int","bigfloat":"*big.Float","bigrat":"*big.Rat"}
for T,n in (("bigint","BigInt"),("bigfloat","BigFloat"),("bigrat","BigRat")):
    for a in S+U+F:
        for na in (0,1):
            ia=my(a) if na else a
            fn="%sTo%s"%("Int" if a in S else "Uint" if a in U else "Float", n)
            body="conv.%s[%s]"%(fn,ia) if a in F else "noErr(conv.%s[%s])"%(fn,ia)
            if n=="BigInt" and a not in F and na: body="noErr(conv.IntegerToBigInt[%s])"%ia
            ent("%s%s%s"%("my" if na else "",a,T),ia,T,"%s(v.(%s))"%(ia,a),body)
    for t,m in (("int64","Int64"),("uint64","Uint64"),("float32","Float32"),("float64","Float64")):
        ent(T+t,T,t,"v.(%s)"%BG[T],"conv.%sTo%s"%(n,m))
    ent(T+"string",T,"string","v.(%s)"%BG[T],"plain(conv.%sToString)"%n)
    ent("string"+T,"string",T,"v.(string)","conv.StringTo%s"%n)
for t,m in (("int64","Int64"),("uint64","Uint64"),("float32","Float32"),("float64","Float64")):
    ent("string"+t,"string",t,"v.(string)","conv.StringTo%s"%m)
for a in S+U+F:
    for na in (0,1):
        ia=my(a) if na else a
        fn="%sToString"%("Int" if a in S else "Uint" if a in U else "Float")
        ent("%s%sstring"%("my" if na else "",a),ia,"string","%s(v.(%s))"%(ia,a),"plain(conv.%s[%s])"%(fn,ia))
for a,b,f in (("bigint","bigfloat","noErr(conv.BigIntToBigFloat)"),("bigrat","bigfloat","noErr(conv.BigRatToBigFloat)"),("bigint","bigrat","noErr(conv.BigIntToBigRat)"),("bigfloat","bigint","conv.BigFloatToBigInt"),("bigrat","bigint","conv.BigRatToBigInt"),("bigfloat","bigrat","conv.BigFloatToBigRat")):
    ent(a+b,a,b,"v.(%s)"%BG[a],f)
out.append('''}

func hasDirect(from, to string) bool { return directs[from+to] != nil }

func direct(op h.Op) {
	from, to := h.S(op["from"]), h.S(op["to"])
	v := dec(from, op["x"].(map[string]any))
	nf, nt := from, to
	if h.B(op["nfrom"]) {
		nf = "my" + from
	}
	if h.B(op["nto"]) {
		nt = "my" + to
	}
	for _, key := range []string{nf + nt, nf + to, from + nt, from + to} {
		if f := directs[key]; f != nil {
			f(op, v)
			return
		}
	}
	h.Fail("no function from %s to %s", from, to)
}

var _ *big.Int''')
open('/verif/harness/c20conv/direct.go','w').write("\n".join(out)+"\n")
