// Code generated from the list of types; DO NOT EDIT.
package main

import (
	"math/big"

	"github.com/bantling/micro/conv"
	"verif/harness/h"
)

// the functions for particular types, with named types on either side if the case says so
func plain[I, O my](f func(I) O) func(I, *O) error {
	return func(i I, o *O) error { *o = f(i); return nil }
}
func noErr[I, O my](f func(I, *O)) func(I, *O) error {
	return func(i I, o *O) error { f(i, o); return nil }
}

// either uses a function or its variant that panics
func either[I, O my](op h.Op, f func(I, *O) error, must func(I, *O)) func(I, *O) error {
	if h.Half(op) {
		return func(i I, o *O) error { return h.Caught(func() { must(i, o) }) }
	}
	return f
}

var directs = map[string]func(op h.Op, v any){
	"intint": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToInt[int, int], conv.MustIntToInt[int, int]))
	},
	"intmyint": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToInt[int, myInt], conv.MustIntToInt[int, myInt]))
	},
	"myintint": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToInt[myInt, int], conv.MustIntToInt[myInt, int]))
	},
	"myintmyint": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToInt[myInt, myInt], conv.MustIntToInt[myInt, myInt]))
	},
	"intint8": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToInt[int, int8], conv.MustIntToInt[int, int8]))
	},
	"intmyint8": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToInt[int, myInt8], conv.MustIntToInt[int, myInt8]))
	},
	"myintint8": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToInt[myInt, int8], conv.MustIntToInt[myInt, int8]))
	},
	"myintmyint8": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToInt[myInt, myInt8], conv.MustIntToInt[myInt, myInt8]))
	},
	"intint16": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToInt[int, int16], conv.MustIntToInt[int, int16]))
	},
	"intmyint16": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToInt[int, myInt16], conv.MustIntToInt[int, myInt16]))
	},
	"myintint16": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToInt[myInt, int16], conv.MustIntToInt[myInt, int16]))
	},
	"myintmyint16": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToInt[myInt, myInt16], conv.MustIntToInt[myInt, myInt16]))
	},
	"intint32": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToInt[int, int32], conv.MustIntToInt[int, int32]))
	},
	"intmyint32": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToInt[int, myInt32], conv.MustIntToInt[int, myInt32]))
	},
	"myintint32": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToInt[myInt, int32], conv.MustIntToInt[myInt, int32]))
	},
	"myintmyint32": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToInt[myInt, myInt32], conv.MustIntToInt[myInt, myInt32]))
	},
	"intint64": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToInt[int, int64], conv.MustIntToInt[int, int64]))
	},
	"intmyint64": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToInt[int, myInt64], conv.MustIntToInt[int, myInt64]))
	},
	"myintint64": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToInt[myInt, int64], conv.MustIntToInt[myInt, int64]))
	},
	"myintmyint64": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToInt[myInt, myInt64], conv.MustIntToInt[myInt, myInt64]))
	},
	"int8int": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToInt[int8, int], conv.MustIntToInt[int8, int]))
	},
	"int8myint": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToInt[int8, myInt], conv.MustIntToInt[int8, myInt]))
	},
	"myint8int": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToInt[myInt8, int], conv.MustIntToInt[myInt8, int]))
	},
	"myint8myint": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToInt[myInt8, myInt], conv.MustIntToInt[myInt8, myInt]))
	},
	"int8int8": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToInt[int8, int8], conv.MustIntToInt[int8, int8]))
	},
	"int8myint8": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToInt[int8, myInt8], conv.MustIntToInt[int8, myInt8]))
	},
	"myint8int8": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToInt[myInt8, int8], conv.MustIntToInt[myInt8, int8]))
	},
	"myint8myint8": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToInt[myInt8, myInt8], conv.MustIntToInt[myInt8, myInt8]))
	},
	"int8int16": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToInt[int8, int16], conv.MustIntToInt[int8, int16]))
	},
	"int8myint16": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToInt[int8, myInt16], conv.MustIntToInt[int8, myInt16]))
	},
	"myint8int16": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToInt[myInt8, int16], conv.MustIntToInt[myInt8, int16]))
	},
	"myint8myint16": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToInt[myInt8, myInt16], conv.MustIntToInt[myInt8, myInt16]))
	},
	"int8int32": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToInt[int8, int32], conv.MustIntToInt[int8, int32]))
	},
	"int8myint32": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToInt[int8, myInt32], conv.MustIntToInt[int8, myInt32]))
	},
	"myint8int32": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToInt[myInt8, int32], conv.MustIntToInt[myInt8, int32]))
	},
	"myint8myint32": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToInt[myInt8, myInt32], conv.MustIntToInt[myInt8, myInt32]))
	},
	"int8int64": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToInt[int8, int64], conv.MustIntToInt[int8, int64]))
	},
	"int8myint64": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToInt[int8, myInt64], conv.MustIntToInt[int8, myInt64]))
	},
	"myint8int64": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToInt[myInt8, int64], conv.MustIntToInt[myInt8, int64]))
	},
	"myint8myint64": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToInt[myInt8, myInt64], conv.MustIntToInt[myInt8, myInt64]))
	},
	"int16int": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToInt[int16, int], conv.MustIntToInt[int16, int]))
	},
	"int16myint": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToInt[int16, myInt], conv.MustIntToInt[int16, myInt]))
	},
	"myint16int": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToInt[myInt16, int], conv.MustIntToInt[myInt16, int]))
	},
	"myint16myint": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToInt[myInt16, myInt], conv.MustIntToInt[myInt16, myInt]))
	},
	"int16int8": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToInt[int16, int8], conv.MustIntToInt[int16, int8]))
	},
	"int16myint8": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToInt[int16, myInt8], conv.MustIntToInt[int16, myInt8]))
	},
	"myint16int8": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToInt[myInt16, int8], conv.MustIntToInt[myInt16, int8]))
	},
	"myint16myint8": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToInt[myInt16, myInt8], conv.MustIntToInt[myInt16, myInt8]))
	},
	"int16int16": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToInt[int16, int16], conv.MustIntToInt[int16, int16]))
	},
	"int16myint16": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToInt[int16, myInt16], conv.MustIntToInt[int16, myInt16]))
	},
	"myint16int16": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToInt[myInt16, int16], conv.MustIntToInt[myInt16, int16]))
	},
	"myint16myint16": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToInt[myInt16, myInt16], conv.MustIntToInt[myInt16, myInt16]))
	},
	"int16int32": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToInt[int16, int32], conv.MustIntToInt[int16, int32]))
	},
	"int16myint32": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToInt[int16, myInt32], conv.MustIntToInt[int16, myInt32]))
	},
	"myint16int32": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToInt[myInt16, int32], conv.MustIntToInt[myInt16, int32]))
	},
	"myint16myint32": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToInt[myInt16, myInt32], conv.MustIntToInt[myInt16, myInt32]))
	},
	"int16int64": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToInt[int16, int64], conv.MustIntToInt[int16, int64]))
	},
	"int16myint64": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToInt[int16, myInt64], conv.MustIntToInt[int16, myInt64]))
	},
	"myint16int64": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToInt[myInt16, int64], conv.MustIntToInt[myInt16, int64]))
	},
	"myint16myint64": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToInt[myInt16, myInt64], conv.MustIntToInt[myInt16, myInt64]))
	},
	"int32int": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToInt[int32, int], conv.MustIntToInt[int32, int]))
	},
	"int32myint": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToInt[int32, myInt], conv.MustIntToInt[int32, myInt]))
	},
	"myint32int": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToInt[myInt32, int], conv.MustIntToInt[myInt32, int]))
	},
	"myint32myint": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToInt[myInt32, myInt], conv.MustIntToInt[myInt32, myInt]))
	},
	"int32int8": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToInt[int32, int8], conv.MustIntToInt[int32, int8]))
	},
	"int32myint8": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToInt[int32, myInt8], conv.MustIntToInt[int32, myInt8]))
	},
	"myint32int8": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToInt[myInt32, int8], conv.MustIntToInt[myInt32, int8]))
	},
	"myint32myint8": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToInt[myInt32, myInt8], conv.MustIntToInt[myInt32, myInt8]))
	},
	"int32int16": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToInt[int32, int16], conv.MustIntToInt[int32, int16]))
	},
	"int32myint16": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToInt[int32, myInt16], conv.MustIntToInt[int32, myInt16]))
	},
	"myint32int16": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToInt[myInt32, int16], conv.MustIntToInt[myInt32, int16]))
	},
	"myint32myint16": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToInt[myInt32, myInt16], conv.MustIntToInt[myInt32, myInt16]))
	},
	"int32int32": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToInt[int32, int32], conv.MustIntToInt[int32, int32]))
	},
	"int32myint32": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToInt[int32, myInt32], conv.MustIntToInt[int32, myInt32]))
	},
	"myint32int32": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToInt[myInt32, int32], conv.MustIntToInt[myInt32, int32]))
	},
	"myint32myint32": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToInt[myInt32, myInt32], conv.MustIntToInt[myInt32, myInt32]))
	},
	"int32int64": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToInt[int32, int64], conv.MustIntToInt[int32, int64]))
	},
	"int32myint64": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToInt[int32, myInt64], conv.MustIntToInt[int32, myInt64]))
	},
	"myint32int64": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToInt[myInt32, int64], conv.MustIntToInt[myInt32, int64]))
	},
	"myint32myint64": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToInt[myInt32, myInt64], conv.MustIntToInt[myInt32, myInt64]))
	},
	"int64int": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToInt[int64, int], conv.MustIntToInt[int64, int]))
	},
	"int64myint": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToInt[int64, myInt], conv.MustIntToInt[int64, myInt]))
	},
	"myint64int": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToInt[myInt64, int], conv.MustIntToInt[myInt64, int]))
	},
	"myint64myint": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToInt[myInt64, myInt], conv.MustIntToInt[myInt64, myInt]))
	},
	"int64int8": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToInt[int64, int8], conv.MustIntToInt[int64, int8]))
	},
	"int64myint8": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToInt[int64, myInt8], conv.MustIntToInt[int64, myInt8]))
	},
	"myint64int8": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToInt[myInt64, int8], conv.MustIntToInt[myInt64, int8]))
	},
	"myint64myint8": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToInt[myInt64, myInt8], conv.MustIntToInt[myInt64, myInt8]))
	},
	"int64int16": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToInt[int64, int16], conv.MustIntToInt[int64, int16]))
	},
	"int64myint16": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToInt[int64, myInt16], conv.MustIntToInt[int64, myInt16]))
	},
	"myint64int16": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToInt[myInt64, int16], conv.MustIntToInt[myInt64, int16]))
	},
	"myint64myint16": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToInt[myInt64, myInt16], conv.MustIntToInt[myInt64, myInt16]))
	},
	"int64int32": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToInt[int64, int32], conv.MustIntToInt[int64, int32]))
	},
	"int64myint32": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToInt[int64, myInt32], conv.MustIntToInt[int64, myInt32]))
	},
	"myint64int32": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToInt[myInt64, int32], conv.MustIntToInt[myInt64, int32]))
	},
	"myint64myint32": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToInt[myInt64, myInt32], conv.MustIntToInt[myInt64, myInt32]))
	},
	"int64int64": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToInt[int64, int64], conv.MustIntToInt[int64, int64]))
	},
	"int64myint64": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToInt[int64, myInt64], conv.MustIntToInt[int64, myInt64]))
	},
	"myint64int64": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToInt[myInt64, int64], conv.MustIntToInt[myInt64, int64]))
	},
	"myint64myint64": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToInt[myInt64, myInt64], conv.MustIntToInt[myInt64, myInt64]))
	},
	"uintint": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.UintToInt[uint, int], conv.MustUintToInt[uint, int]))
	},
	"uintmyint": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.UintToInt[uint, myInt], conv.MustUintToInt[uint, myInt]))
	},
	"myuintint": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.UintToInt[myUint, int], conv.MustUintToInt[myUint, int]))
	},
	"myuintmyint": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.UintToInt[myUint, myInt], conv.MustUintToInt[myUint, myInt]))
	},
	"uintint8": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.UintToInt[uint, int8], conv.MustUintToInt[uint, int8]))
	},
	"uintmyint8": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.UintToInt[uint, myInt8], conv.MustUintToInt[uint, myInt8]))
	},
	"myuintint8": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.UintToInt[myUint, int8], conv.MustUintToInt[myUint, int8]))
	},
	"myuintmyint8": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.UintToInt[myUint, myInt8], conv.MustUintToInt[myUint, myInt8]))
	},
	"uintint16": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.UintToInt[uint, int16], conv.MustUintToInt[uint, int16]))
	},
	"uintmyint16": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.UintToInt[uint, myInt16], conv.MustUintToInt[uint, myInt16]))
	},
	"myuintint16": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.UintToInt[myUint, int16], conv.MustUintToInt[myUint, int16]))
	},
	"myuintmyint16": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.UintToInt[myUint, myInt16], conv.MustUintToInt[myUint, myInt16]))
	},
	"uintint32": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.UintToInt[uint, int32], conv.MustUintToInt[uint, int32]))
	},
	"uintmyint32": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.UintToInt[uint, myInt32], conv.MustUintToInt[uint, myInt32]))
	},
	"myuintint32": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.UintToInt[myUint, int32], conv.MustUintToInt[myUint, int32]))
	},
	"myuintmyint32": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.UintToInt[myUint, myInt32], conv.MustUintToInt[myUint, myInt32]))
	},
	"uintint64": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.UintToInt[uint, int64], conv.MustUintToInt[uint, int64]))
	},
	"uintmyint64": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.UintToInt[uint, myInt64], conv.MustUintToInt[uint, myInt64]))
	},
	"myuintint64": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.UintToInt[myUint, int64], conv.MustUintToInt[myUint, int64]))
	},
	"myuintmyint64": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.UintToInt[myUint, myInt64], conv.MustUintToInt[myUint, myInt64]))
	},
	"uint8int": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.UintToInt[uint8, int], conv.MustUintToInt[uint8, int]))
	},
	"uint8myint": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.UintToInt[uint8, myInt], conv.MustUintToInt[uint8, myInt]))
	},
	"myuint8int": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.UintToInt[myUint8, int], conv.MustUintToInt[myUint8, int]))
	},
	"myuint8myint": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.UintToInt[myUint8, myInt], conv.MustUintToInt[myUint8, myInt]))
	},
	"uint8int8": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.UintToInt[uint8, int8], conv.MustUintToInt[uint8, int8]))
	},
	"uint8myint8": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.UintToInt[uint8, myInt8], conv.MustUintToInt[uint8, myInt8]))
	},
	"myuint8int8": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.UintToInt[myUint8, int8], conv.MustUintToInt[myUint8, int8]))
	},
	"myuint8myint8": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.UintToInt[myUint8, myInt8], conv.MustUintToInt[myUint8, myInt8]))
	},
	"uint8int16": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.UintToInt[uint8, int16], conv.MustUintToInt[uint8, int16]))
	},
	"uint8myint16": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.UintToInt[uint8, myInt16], conv.MustUintToInt[uint8, myInt16]))
	},
	"myuint8int16": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.UintToInt[myUint8, int16], conv.MustUintToInt[myUint8, int16]))
	},
	"myuint8myint16": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.UintToInt[myUint8, myInt16], conv.MustUintToInt[myUint8, myInt16]))
	},
	"uint8int32": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.UintToInt[uint8, int32], conv.MustUintToInt[uint8, int32]))
	},
	"uint8myint32": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.UintToInt[uint8, myInt32], conv.MustUintToInt[uint8, myInt32]))
	},
	"myuint8int32": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.UintToInt[myUint8, int32], conv.MustUintToInt[myUint8, int32]))
	},
	"myuint8myint32": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.UintToInt[myUint8, myInt32], conv.MustUintToInt[myUint8, myInt32]))
	},
	"uint8int64": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.UintToInt[uint8, int64], conv.MustUintToInt[uint8, int64]))
	},
	"uint8myint64": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.UintToInt[uint8, myInt64], conv.MustUintToInt[uint8, myInt64]))
	},
	"myuint8int64": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.UintToInt[myUint8, int64], conv.MustUintToInt[myUint8, int64]))
	},
	"myuint8myint64": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.UintToInt[myUint8, myInt64], conv.MustUintToInt[myUint8, myInt64]))
	},
	"uint16int": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.UintToInt[uint16, int], conv.MustUintToInt[uint16, int]))
	},
	"uint16myint": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.UintToInt[uint16, myInt], conv.MustUintToInt[uint16, myInt]))
	},
	"myuint16int": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.UintToInt[myUint16, int], conv.MustUintToInt[myUint16, int]))
	},
	"myuint16myint": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.UintToInt[myUint16, myInt], conv.MustUintToInt[myUint16, myInt]))
	},
	"uint16int8": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.UintToInt[uint16, int8], conv.MustUintToInt[uint16, int8]))
	},
	"uint16myint8": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.UintToInt[uint16, myInt8], conv.MustUintToInt[uint16, myInt8]))
	},
	"myuint16int8": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.UintToInt[myUint16, int8], conv.MustUintToInt[myUint16, int8]))
	},
	"myuint16myint8": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.UintToInt[myUint16, myInt8], conv.MustUintToInt[myUint16, myInt8]))
	},
	"uint16int16": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.UintToInt[uint16, int16], conv.MustUintToInt[uint16, int16]))
	},
	"uint16myint16": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.UintToInt[uint16, myInt16], conv.MustUintToInt[uint16, myInt16]))
	},
	"myuint16int16": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.UintToInt[myUint16, int16], conv.MustUintToInt[myUint16, int16]))
	},
	"myuint16myint16": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.UintToInt[myUint16, myInt16], conv.MustUintToInt[myUint16, myInt16]))
	},
	"uint16int32": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.UintToInt[uint16, int32], conv.MustUintToInt[uint16, int32]))
	},
	"uint16myint32": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.UintToInt[uint16, myInt32], conv.MustUintToInt[uint16, myInt32]))
	},
	"myuint16int32": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.UintToInt[myUint16, int32], conv.MustUintToInt[myUint16, int32]))
	},
	"myuint16myint32": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.UintToInt[myUint16, myInt32], conv.MustUintToInt[myUint16, myInt32]))
	},
	"uint16int64": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.UintToInt[uint16, int64], conv.MustUintToInt[uint16, int64]))
	},
	"uint16myint64": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.UintToInt[uint16, myInt64], conv.MustUintToInt[uint16, myInt64]))
	},
	"myuint16int64": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.UintToInt[myUint16, int64], conv.MustUintToInt[myUint16, int64]))
	},
	"myuint16myint64": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.UintToInt[myUint16, myInt64], conv.MustUintToInt[myUint16, myInt64]))
	},
	"uint32int": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.UintToInt[uint32, int], conv.MustUintToInt[uint32, int]))
	},
	"uint32myint": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.UintToInt[uint32, myInt], conv.MustUintToInt[uint32, myInt]))
	},
	"myuint32int": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.UintToInt[myUint32, int], conv.MustUintToInt[myUint32, int]))
	},
	"myuint32myint": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.UintToInt[myUint32, myInt], conv.MustUintToInt[myUint32, myInt]))
	},
	"uint32int8": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.UintToInt[uint32, int8], conv.MustUintToInt[uint32, int8]))
	},
	"uint32myint8": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.UintToInt[uint32, myInt8], conv.MustUintToInt[uint32, myInt8]))
	},
	"myuint32int8": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.UintToInt[myUint32, int8], conv.MustUintToInt[myUint32, int8]))
	},
	"myuint32myint8": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.UintToInt[myUint32, myInt8], conv.MustUintToInt[myUint32, myInt8]))
	},
	"uint32int16": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.UintToInt[uint32, int16], conv.MustUintToInt[uint32, int16]))
	},
	"uint32myint16": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.UintToInt[uint32, myInt16], conv.MustUintToInt[uint32, myInt16]))
	},
	"myuint32int16": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.UintToInt[myUint32, int16], conv.MustUintToInt[myUint32, int16]))
	},
	"myuint32myint16": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.UintToInt[myUint32, myInt16], conv.MustUintToInt[myUint32, myInt16]))
	},
	"uint32int32": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.UintToInt[uint32, int32], conv.MustUintToInt[uint32, int32]))
	},
	"uint32myint32": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.UintToInt[uint32, myInt32], conv.MustUintToInt[uint32, myInt32]))
	},
	"myuint32int32": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.UintToInt[myUint32, int32], conv.MustUintToInt[myUint32, int32]))
	},
	"myuint32myint32": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.UintToInt[myUint32, myInt32], conv.MustUintToInt[myUint32, myInt32]))
	},
	"uint32int64": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.UintToInt[uint32, int64], conv.MustUintToInt[uint32, int64]))
	},
	"uint32myint64": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.UintToInt[uint32, myInt64], conv.MustUintToInt[uint32, myInt64]))
	},
	"myuint32int64": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.UintToInt[myUint32, int64], conv.MustUintToInt[myUint32, int64]))
	},
	"myuint32myint64": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.UintToInt[myUint32, myInt64], conv.MustUintToInt[myUint32, myInt64]))
	},
	"uint64int": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.UintToInt[uint64, int], conv.MustUintToInt[uint64, int]))
	},
	"uint64myint": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.UintToInt[uint64, myInt], conv.MustUintToInt[uint64, myInt]))
	},
	"myuint64int": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.UintToInt[myUint64, int], conv.MustUintToInt[myUint64, int]))
	},
	"myuint64myint": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.UintToInt[myUint64, myInt], conv.MustUintToInt[myUint64, myInt]))
	},
	"uint64int8": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.UintToInt[uint64, int8], conv.MustUintToInt[uint64, int8]))
	},
	"uint64myint8": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.UintToInt[uint64, myInt8], conv.MustUintToInt[uint64, myInt8]))
	},
	"myuint64int8": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.UintToInt[myUint64, int8], conv.MustUintToInt[myUint64, int8]))
	},
	"myuint64myint8": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.UintToInt[myUint64, myInt8], conv.MustUintToInt[myUint64, myInt8]))
	},
	"uint64int16": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.UintToInt[uint64, int16], conv.MustUintToInt[uint64, int16]))
	},
	"uint64myint16": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.UintToInt[uint64, myInt16], conv.MustUintToInt[uint64, myInt16]))
	},
	"myuint64int16": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.UintToInt[myUint64, int16], conv.MustUintToInt[myUint64, int16]))
	},
	"myuint64myint16": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.UintToInt[myUint64, myInt16], conv.MustUintToInt[myUint64, myInt16]))
	},
	"uint64int32": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.UintToInt[uint64, int32], conv.MustUintToInt[uint64, int32]))
	},
	"uint64myint32": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.UintToInt[uint64, myInt32], conv.MustUintToInt[uint64, myInt32]))
	},
	"myuint64int32": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.UintToInt[myUint64, int32], conv.MustUintToInt[myUint64, int32]))
	},
	"myuint64myint32": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.UintToInt[myUint64, myInt32], conv.MustUintToInt[myUint64, myInt32]))
	},
	"uint64int64": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.UintToInt[uint64, int64], conv.MustUintToInt[uint64, int64]))
	},
	"uint64myint64": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.UintToInt[uint64, myInt64], conv.MustUintToInt[uint64, myInt64]))
	},
	"myuint64int64": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.UintToInt[myUint64, int64], conv.MustUintToInt[myUint64, int64]))
	},
	"myuint64myint64": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.UintToInt[myUint64, myInt64], conv.MustUintToInt[myUint64, myInt64]))
	},
	"float32int": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToInt[float32, int], conv.MustFloatToInt[float32, int]))
	},
	"float32myint": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToInt[float32, myInt], conv.MustFloatToInt[float32, myInt]))
	},
	"myfloat32int": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToInt[myFloat32, int], conv.MustFloatToInt[myFloat32, int]))
	},
	"myfloat32myint": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToInt[myFloat32, myInt], conv.MustFloatToInt[myFloat32, myInt]))
	},
	"float32int8": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToInt[float32, int8], conv.MustFloatToInt[float32, int8]))
	},
	"float32myint8": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToInt[float32, myInt8], conv.MustFloatToInt[float32, myInt8]))
	},
	"myfloat32int8": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToInt[myFloat32, int8], conv.MustFloatToInt[myFloat32, int8]))
	},
	"myfloat32myint8": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToInt[myFloat32, myInt8], conv.MustFloatToInt[myFloat32, myInt8]))
	},
	"float32int16": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToInt[float32, int16], conv.MustFloatToInt[float32, int16]))
	},
	"float32myint16": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToInt[float32, myInt16], conv.MustFloatToInt[float32, myInt16]))
	},
	"myfloat32int16": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToInt[myFloat32, int16], conv.MustFloatToInt[myFloat32, int16]))
	},
	"myfloat32myint16": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToInt[myFloat32, myInt16], conv.MustFloatToInt[myFloat32, myInt16]))
	},
	"float32int32": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToInt[float32, int32], conv.MustFloatToInt[float32, int32]))
	},
	"float32myint32": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToInt[float32, myInt32], conv.MustFloatToInt[float32, myInt32]))
	},
	"myfloat32int32": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToInt[myFloat32, int32], conv.MustFloatToInt[myFloat32, int32]))
	},
	"myfloat32myint32": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToInt[myFloat32, myInt32], conv.MustFloatToInt[myFloat32, myInt32]))
	},
	"float32int64": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToInt[float32, int64], conv.MustFloatToInt[float32, int64]))
	},
	"float32myint64": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToInt[float32, myInt64], conv.MustFloatToInt[float32, myInt64]))
	},
	"myfloat32int64": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToInt[myFloat32, int64], conv.MustFloatToInt[myFloat32, int64]))
	},
	"myfloat32myint64": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToInt[myFloat32, myInt64], conv.MustFloatToInt[myFloat32, myInt64]))
	},
	"float64int": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToInt[float64, int], conv.MustFloatToInt[float64, int]))
	},
	"float64myint": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToInt[float64, myInt], conv.MustFloatToInt[float64, myInt]))
	},
	"myfloat64int": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToInt[myFloat64, int], conv.MustFloatToInt[myFloat64, int]))
	},
	"myfloat64myint": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToInt[myFloat64, myInt], conv.MustFloatToInt[myFloat64, myInt]))
	},
	"float64int8": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToInt[float64, int8], conv.MustFloatToInt[float64, int8]))
	},
	"float64myint8": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToInt[float64, myInt8], conv.MustFloatToInt[float64, myInt8]))
	},
	"myfloat64int8": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToInt[myFloat64, int8], conv.MustFloatToInt[myFloat64, int8]))
	},
	"myfloat64myint8": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToInt[myFloat64, myInt8], conv.MustFloatToInt[myFloat64, myInt8]))
	},
	"float64int16": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToInt[float64, int16], conv.MustFloatToInt[float64, int16]))
	},
	"float64myint16": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToInt[float64, myInt16], conv.MustFloatToInt[float64, myInt16]))
	},
	"myfloat64int16": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToInt[myFloat64, int16], conv.MustFloatToInt[myFloat64, int16]))
	},
	"myfloat64myint16": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToInt[myFloat64, myInt16], conv.MustFloatToInt[myFloat64, myInt16]))
	},
	"float64int32": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToInt[float64, int32], conv.MustFloatToInt[float64, int32]))
	},
	"float64myint32": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToInt[float64, myInt32], conv.MustFloatToInt[float64, myInt32]))
	},
	"myfloat64int32": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToInt[myFloat64, int32], conv.MustFloatToInt[myFloat64, int32]))
	},
	"myfloat64myint32": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToInt[myFloat64, myInt32], conv.MustFloatToInt[myFloat64, myInt32]))
	},
	"float64int64": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToInt[float64, int64], conv.MustFloatToInt[float64, int64]))
	},
	"float64myint64": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToInt[float64, myInt64], conv.MustFloatToInt[float64, myInt64]))
	},
	"myfloat64int64": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToInt[myFloat64, int64], conv.MustFloatToInt[myFloat64, int64]))
	},
	"myfloat64myint64": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToInt[myFloat64, myInt64], conv.MustFloatToInt[myFloat64, myInt64]))
	},
	"intuint": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToUint[int, uint], conv.MustIntToUint[int, uint]))
	},
	"intmyuint": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToUint[int, myUint], conv.MustIntToUint[int, myUint]))
	},
	"myintuint": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToUint[myInt, uint], conv.MustIntToUint[myInt, uint]))
	},
	"myintmyuint": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToUint[myInt, myUint], conv.MustIntToUint[myInt, myUint]))
	},
	"intuint8": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToUint[int, uint8], conv.MustIntToUint[int, uint8]))
	},
	"intmyuint8": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToUint[int, myUint8], conv.MustIntToUint[int, myUint8]))
	},
	"myintuint8": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToUint[myInt, uint8], conv.MustIntToUint[myInt, uint8]))
	},
	"myintmyuint8": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToUint[myInt, myUint8], conv.MustIntToUint[myInt, myUint8]))
	},
	"intuint16": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToUint[int, uint16], conv.MustIntToUint[int, uint16]))
	},
	"intmyuint16": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToUint[int, myUint16], conv.MustIntToUint[int, myUint16]))
	},
	"myintuint16": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToUint[myInt, uint16], conv.MustIntToUint[myInt, uint16]))
	},
	"myintmyuint16": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToUint[myInt, myUint16], conv.MustIntToUint[myInt, myUint16]))
	},
	"intuint32": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToUint[int, uint32], conv.MustIntToUint[int, uint32]))
	},
	"intmyuint32": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToUint[int, myUint32], conv.MustIntToUint[int, myUint32]))
	},
	"myintuint32": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToUint[myInt, uint32], conv.MustIntToUint[myInt, uint32]))
	},
	"myintmyuint32": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToUint[myInt, myUint32], conv.MustIntToUint[myInt, myUint32]))
	},
	"intuint64": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToUint[int, uint64], conv.MustIntToUint[int, uint64]))
	},
	"intmyuint64": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToUint[int, myUint64], conv.MustIntToUint[int, myUint64]))
	},
	"myintuint64": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToUint[myInt, uint64], conv.MustIntToUint[myInt, uint64]))
	},
	"myintmyuint64": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToUint[myInt, myUint64], conv.MustIntToUint[myInt, myUint64]))
	},
	"int8uint": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToUint[int8, uint], conv.MustIntToUint[int8, uint]))
	},
	"int8myuint": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToUint[int8, myUint], conv.MustIntToUint[int8, myUint]))
	},
	"myint8uint": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToUint[myInt8, uint], conv.MustIntToUint[myInt8, uint]))
	},
	"myint8myuint": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToUint[myInt8, myUint], conv.MustIntToUint[myInt8, myUint]))
	},
	"int8uint8": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToUint[int8, uint8], conv.MustIntToUint[int8, uint8]))
	},
	"int8myuint8": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToUint[int8, myUint8], conv.MustIntToUint[int8, myUint8]))
	},
	"myint8uint8": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToUint[myInt8, uint8], conv.MustIntToUint[myInt8, uint8]))
	},
	"myint8myuint8": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToUint[myInt8, myUint8], conv.MustIntToUint[myInt8, myUint8]))
	},
	"int8uint16": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToUint[int8, uint16], conv.MustIntToUint[int8, uint16]))
	},
	"int8myuint16": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToUint[int8, myUint16], conv.MustIntToUint[int8, myUint16]))
	},
	"myint8uint16": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToUint[myInt8, uint16], conv.MustIntToUint[myInt8, uint16]))
	},
	"myint8myuint16": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToUint[myInt8, myUint16], conv.MustIntToUint[myInt8, myUint16]))
	},
	"int8uint32": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToUint[int8, uint32], conv.MustIntToUint[int8, uint32]))
	},
	"int8myuint32": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToUint[int8, myUint32], conv.MustIntToUint[int8, myUint32]))
	},
	"myint8uint32": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToUint[myInt8, uint32], conv.MustIntToUint[myInt8, uint32]))
	},
	"myint8myuint32": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToUint[myInt8, myUint32], conv.MustIntToUint[myInt8, myUint32]))
	},
	"int8uint64": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToUint[int8, uint64], conv.MustIntToUint[int8, uint64]))
	},
	"int8myuint64": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToUint[int8, myUint64], conv.MustIntToUint[int8, myUint64]))
	},
	"myint8uint64": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToUint[myInt8, uint64], conv.MustIntToUint[myInt8, uint64]))
	},
	"myint8myuint64": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToUint[myInt8, myUint64], conv.MustIntToUint[myInt8, myUint64]))
	},
	"int16uint": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToUint[int16, uint], conv.MustIntToUint[int16, uint]))
	},
	"int16myuint": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToUint[int16, myUint], conv.MustIntToUint[int16, myUint]))
	},
	"myint16uint": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToUint[myInt16, uint], conv.MustIntToUint[myInt16, uint]))
	},
	"myint16myuint": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToUint[myInt16, myUint], conv.MustIntToUint[myInt16, myUint]))
	},
	"int16uint8": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToUint[int16, uint8], conv.MustIntToUint[int16, uint8]))
	},
	"int16myuint8": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToUint[int16, myUint8], conv.MustIntToUint[int16, myUint8]))
	},
	"myint16uint8": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToUint[myInt16, uint8], conv.MustIntToUint[myInt16, uint8]))
	},
	"myint16myuint8": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToUint[myInt16, myUint8], conv.MustIntToUint[myInt16, myUint8]))
	},
	"int16uint16": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToUint[int16, uint16], conv.MustIntToUint[int16, uint16]))
	},
	"int16myuint16": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToUint[int16, myUint16], conv.MustIntToUint[int16, myUint16]))
	},
	"myint16uint16": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToUint[myInt16, uint16], conv.MustIntToUint[myInt16, uint16]))
	},
	"myint16myuint16": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToUint[myInt16, myUint16], conv.MustIntToUint[myInt16, myUint16]))
	},
	"int16uint32": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToUint[int16, uint32], conv.MustIntToUint[int16, uint32]))
	},
	"int16myuint32": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToUint[int16, myUint32], conv.MustIntToUint[int16, myUint32]))
	},
	"myint16uint32": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToUint[myInt16, uint32], conv.MustIntToUint[myInt16, uint32]))
	},
	"myint16myuint32": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToUint[myInt16, myUint32], conv.MustIntToUint[myInt16, myUint32]))
	},
	"int16uint64": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToUint[int16, uint64], conv.MustIntToUint[int16, uint64]))
	},
	"int16myuint64": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToUint[int16, myUint64], conv.MustIntToUint[int16, myUint64]))
	},
	"myint16uint64": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToUint[myInt16, uint64], conv.MustIntToUint[myInt16, uint64]))
	},
	"myint16myuint64": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToUint[myInt16, myUint64], conv.MustIntToUint[myInt16, myUint64]))
	},
	"int32uint": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToUint[int32, uint], conv.MustIntToUint[int32, uint]))
	},
	"int32myuint": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToUint[int32, myUint], conv.MustIntToUint[int32, myUint]))
	},
	"myint32uint": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToUint[myInt32, uint], conv.MustIntToUint[myInt32, uint]))
	},
	"myint32myuint": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToUint[myInt32, myUint], conv.MustIntToUint[myInt32, myUint]))
	},
	"int32uint8": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToUint[int32, uint8], conv.MustIntToUint[int32, uint8]))
	},
	"int32myuint8": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToUint[int32, myUint8], conv.MustIntToUint[int32, myUint8]))
	},
	"myint32uint8": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToUint[myInt32, uint8], conv.MustIntToUint[myInt32, uint8]))
	},
	"myint32myuint8": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToUint[myInt32, myUint8], conv.MustIntToUint[myInt32, myUint8]))
	},
	"int32uint16": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToUint[int32, uint16], conv.MustIntToUint[int32, uint16]))
	},
	"int32myuint16": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToUint[int32, myUint16], conv.MustIntToUint[int32, myUint16]))
	},
	"myint32uint16": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToUint[myInt32, uint16], conv.MustIntToUint[myInt32, uint16]))
	},
	"myint32myuint16": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToUint[myInt32, myUint16], conv.MustIntToUint[myInt32, myUint16]))
	},
	"int32uint32": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToUint[int32, uint32], conv.MustIntToUint[int32, uint32]))
	},
	"int32myuint32": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToUint[int32, myUint32], conv.MustIntToUint[int32, myUint32]))
	},
	"myint32uint32": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToUint[myInt32, uint32], conv.MustIntToUint[myInt32, uint32]))
	},
	"myint32myuint32": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToUint[myInt32, myUint32], conv.MustIntToUint[myInt32, myUint32]))
	},
	"int32uint64": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToUint[int32, uint64], conv.MustIntToUint[int32, uint64]))
	},
	"int32myuint64": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToUint[int32, myUint64], conv.MustIntToUint[int32, myUint64]))
	},
	"myint32uint64": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToUint[myInt32, uint64], conv.MustIntToUint[myInt32, uint64]))
	},
	"myint32myuint64": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToUint[myInt32, myUint64], conv.MustIntToUint[myInt32, myUint64]))
	},
	"int64uint": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToUint[int64, uint], conv.MustIntToUint[int64, uint]))
	},
	"int64myuint": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToUint[int64, myUint], conv.MustIntToUint[int64, myUint]))
	},
	"myint64uint": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToUint[myInt64, uint], conv.MustIntToUint[myInt64, uint]))
	},
	"myint64myuint": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToUint[myInt64, myUint], conv.MustIntToUint[myInt64, myUint]))
	},
	"int64uint8": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToUint[int64, uint8], conv.MustIntToUint[int64, uint8]))
	},
	"int64myuint8": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToUint[int64, myUint8], conv.MustIntToUint[int64, myUint8]))
	},
	"myint64uint8": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToUint[myInt64, uint8], conv.MustIntToUint[myInt64, uint8]))
	},
	"myint64myuint8": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToUint[myInt64, myUint8], conv.MustIntToUint[myInt64, myUint8]))
	},
	"int64uint16": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToUint[int64, uint16], conv.MustIntToUint[int64, uint16]))
	},
	"int64myuint16": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToUint[int64, myUint16], conv.MustIntToUint[int64, myUint16]))
	},
	"myint64uint16": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToUint[myInt64, uint16], conv.MustIntToUint[myInt64, uint16]))
	},
	"myint64myuint16": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToUint[myInt64, myUint16], conv.MustIntToUint[myInt64, myUint16]))
	},
	"int64uint32": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToUint[int64, uint32], conv.MustIntToUint[int64, uint32]))
	},
	"int64myuint32": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToUint[int64, myUint32], conv.MustIntToUint[int64, myUint32]))
	},
	"myint64uint32": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToUint[myInt64, uint32], conv.MustIntToUint[myInt64, uint32]))
	},
	"myint64myuint32": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToUint[myInt64, myUint32], conv.MustIntToUint[myInt64, myUint32]))
	},
	"int64uint64": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToUint[int64, uint64], conv.MustIntToUint[int64, uint64]))
	},
	"int64myuint64": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToUint[int64, myUint64], conv.MustIntToUint[int64, myUint64]))
	},
	"myint64uint64": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToUint[myInt64, uint64], conv.MustIntToUint[myInt64, uint64]))
	},
	"myint64myuint64": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToUint[myInt64, myUint64], conv.MustIntToUint[myInt64, myUint64]))
	},
	"uintuint": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.UintToUint[uint, uint], conv.MustUintToUint[uint, uint]))
	},
	"uintmyuint": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.UintToUint[uint, myUint], conv.MustUintToUint[uint, myUint]))
	},
	"myuintuint": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.UintToUint[myUint, uint], conv.MustUintToUint[myUint, uint]))
	},
	"myuintmyuint": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.UintToUint[myUint, myUint], conv.MustUintToUint[myUint, myUint]))
	},
	"uintuint8": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.UintToUint[uint, uint8], conv.MustUintToUint[uint, uint8]))
	},
	"uintmyuint8": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.UintToUint[uint, myUint8], conv.MustUintToUint[uint, myUint8]))
	},
	"myuintuint8": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.UintToUint[myUint, uint8], conv.MustUintToUint[myUint, uint8]))
	},
	"myuintmyuint8": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.UintToUint[myUint, myUint8], conv.MustUintToUint[myUint, myUint8]))
	},
	"uintuint16": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.UintToUint[uint, uint16], conv.MustUintToUint[uint, uint16]))
	},
	"uintmyuint16": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.UintToUint[uint, myUint16], conv.MustUintToUint[uint, myUint16]))
	},
	"myuintuint16": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.UintToUint[myUint, uint16], conv.MustUintToUint[myUint, uint16]))
	},
	"myuintmyuint16": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.UintToUint[myUint, myUint16], conv.MustUintToUint[myUint, myUint16]))
	},
	"uintuint32": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.UintToUint[uint, uint32], conv.MustUintToUint[uint, uint32]))
	},
	"uintmyuint32": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.UintToUint[uint, myUint32], conv.MustUintToUint[uint, myUint32]))
	},
	"myuintuint32": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.UintToUint[myUint, uint32], conv.MustUintToUint[myUint, uint32]))
	},
	"myuintmyuint32": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.UintToUint[myUint, myUint32], conv.MustUintToUint[myUint, myUint32]))
	},
	"uintuint64": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.UintToUint[uint, uint64], conv.MustUintToUint[uint, uint64]))
	},
	"uintmyuint64": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.UintToUint[uint, myUint64], conv.MustUintToUint[uint, myUint64]))
	},
	"myuintuint64": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.UintToUint[myUint, uint64], conv.MustUintToUint[myUint, uint64]))
	},
	"myuintmyuint64": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.UintToUint[myUint, myUint64], conv.MustUintToUint[myUint, myUint64]))
	},
	"uint8uint": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.UintToUint[uint8, uint], conv.MustUintToUint[uint8, uint]))
	},
	"uint8myuint": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.UintToUint[uint8, myUint], conv.MustUintToUint[uint8, myUint]))
	},
	"myuint8uint": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.UintToUint[myUint8, uint], conv.MustUintToUint[myUint8, uint]))
	},
	"myuint8myuint": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.UintToUint[myUint8, myUint], conv.MustUintToUint[myUint8, myUint]))
	},
	"uint8uint8": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.UintToUint[uint8, uint8], conv.MustUintToUint[uint8, uint8]))
	},
	"uint8myuint8": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.UintToUint[uint8, myUint8], conv.MustUintToUint[uint8, myUint8]))
	},
	"myuint8uint8": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.UintToUint[myUint8, uint8], conv.MustUintToUint[myUint8, uint8]))
	},
	"myuint8myuint8": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.UintToUint[myUint8, myUint8], conv.MustUintToUint[myUint8, myUint8]))
	},
	"uint8uint16": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.UintToUint[uint8, uint16], conv.MustUintToUint[uint8, uint16]))
	},
	"uint8myuint16": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.UintToUint[uint8, myUint16], conv.MustUintToUint[uint8, myUint16]))
	},
	"myuint8uint16": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.UintToUint[myUint8, uint16], conv.MustUintToUint[myUint8, uint16]))
	},
	"myuint8myuint16": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.UintToUint[myUint8, myUint16], conv.MustUintToUint[myUint8, myUint16]))
	},
	"uint8uint32": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.UintToUint[uint8, uint32], conv.MustUintToUint[uint8, uint32]))
	},
	"uint8myuint32": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.UintToUint[uint8, myUint32], conv.MustUintToUint[uint8, myUint32]))
	},
	"myuint8uint32": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.UintToUint[myUint8, uint32], conv.MustUintToUint[myUint8, uint32]))
	},
	"myuint8myuint32": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.UintToUint[myUint8, myUint32], conv.MustUintToUint[myUint8, myUint32]))
	},
	"uint8uint64": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.UintToUint[uint8, uint64], conv.MustUintToUint[uint8, uint64]))
	},
	"uint8myuint64": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.UintToUint[uint8, myUint64], conv.MustUintToUint[uint8, myUint64]))
	},
	"myuint8uint64": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.UintToUint[myUint8, uint64], conv.MustUintToUint[myUint8, uint64]))
	},
	"myuint8myuint64": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.UintToUint[myUint8, myUint64], conv.MustUintToUint[myUint8, myUint64]))
	},
	"uint16uint": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.UintToUint[uint16, uint], conv.MustUintToUint[uint16, uint]))
	},
	"uint16myuint": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.UintToUint[uint16, myUint], conv.MustUintToUint[uint16, myUint]))
	},
	"myuint16uint": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.UintToUint[myUint16, uint], conv.MustUintToUint[myUint16, uint]))
	},
	"myuint16myuint": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.UintToUint[myUint16, myUint], conv.MustUintToUint[myUint16, myUint]))
	},
	"uint16uint8": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.UintToUint[uint16, uint8], conv.MustUintToUint[uint16, uint8]))
	},
	"uint16myuint8": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.UintToUint[uint16, myUint8], conv.MustUintToUint[uint16, myUint8]))
	},
	"myuint16uint8": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.UintToUint[myUint16, uint8], conv.MustUintToUint[myUint16, uint8]))
	},
	"myuint16myuint8": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.UintToUint[myUint16, myUint8], conv.MustUintToUint[myUint16, myUint8]))
	},
	"uint16uint16": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.UintToUint[uint16, uint16], conv.MustUintToUint[uint16, uint16]))
	},
	"uint16myuint16": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.UintToUint[uint16, myUint16], conv.MustUintToUint[uint16, myUint16]))
	},
	"myuint16uint16": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.UintToUint[myUint16, uint16], conv.MustUintToUint[myUint16, uint16]))
	},
	"myuint16myuint16": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.UintToUint[myUint16, myUint16], conv.MustUintToUint[myUint16, myUint16]))
	},
	"uint16uint32": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.UintToUint[uint16, uint32], conv.MustUintToUint[uint16, uint32]))
	},
	"uint16myuint32": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.UintToUint[uint16, myUint32], conv.MustUintToUint[uint16, myUint32]))
	},
	"myuint16uint32": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.UintToUint[myUint16, uint32], conv.MustUintToUint[myUint16, uint32]))
	},
	"myuint16myuint32": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.UintToUint[myUint16, myUint32], conv.MustUintToUint[myUint16, myUint32]))
	},
	"uint16uint64": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.UintToUint[uint16, uint64], conv.MustUintToUint[uint16, uint64]))
	},
	"uint16myuint64": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.UintToUint[uint16, myUint64], conv.MustUintToUint[uint16, myUint64]))
	},
	"myuint16uint64": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.UintToUint[myUint16, uint64], conv.MustUintToUint[myUint16, uint64]))
	},
	"myuint16myuint64": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.UintToUint[myUint16, myUint64], conv.MustUintToUint[myUint16, myUint64]))
	},
	"uint32uint": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.UintToUint[uint32, uint], conv.MustUintToUint[uint32, uint]))
	},
	"uint32myuint": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.UintToUint[uint32, myUint], conv.MustUintToUint[uint32, myUint]))
	},
	"myuint32uint": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.UintToUint[myUint32, uint], conv.MustUintToUint[myUint32, uint]))
	},
	"myuint32myuint": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.UintToUint[myUint32, myUint], conv.MustUintToUint[myUint32, myUint]))
	},
	"uint32uint8": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.UintToUint[uint32, uint8], conv.MustUintToUint[uint32, uint8]))
	},
	"uint32myuint8": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.UintToUint[uint32, myUint8], conv.MustUintToUint[uint32, myUint8]))
	},
	"myuint32uint8": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.UintToUint[myUint32, uint8], conv.MustUintToUint[myUint32, uint8]))
	},
	"myuint32myuint8": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.UintToUint[myUint32, myUint8], conv.MustUintToUint[myUint32, myUint8]))
	},
	"uint32uint16": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.UintToUint[uint32, uint16], conv.MustUintToUint[uint32, uint16]))
	},
	"uint32myuint16": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.UintToUint[uint32, myUint16], conv.MustUintToUint[uint32, myUint16]))
	},
	"myuint32uint16": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.UintToUint[myUint32, uint16], conv.MustUintToUint[myUint32, uint16]))
	},
	"myuint32myuint16": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.UintToUint[myUint32, myUint16], conv.MustUintToUint[myUint32, myUint16]))
	},
	"uint32uint32": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.UintToUint[uint32, uint32], conv.MustUintToUint[uint32, uint32]))
	},
	"uint32myuint32": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.UintToUint[uint32, myUint32], conv.MustUintToUint[uint32, myUint32]))
	},
	"myuint32uint32": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.UintToUint[myUint32, uint32], conv.MustUintToUint[myUint32, uint32]))
	},
	"myuint32myuint32": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.UintToUint[myUint32, myUint32], conv.MustUintToUint[myUint32, myUint32]))
	},
	"uint32uint64": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.UintToUint[uint32, uint64], conv.MustUintToUint[uint32, uint64]))
	},
	"uint32myuint64": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.UintToUint[uint32, myUint64], conv.MustUintToUint[uint32, myUint64]))
	},
	"myuint32uint64": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.UintToUint[myUint32, uint64], conv.MustUintToUint[myUint32, uint64]))
	},
	"myuint32myuint64": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.UintToUint[myUint32, myUint64], conv.MustUintToUint[myUint32, myUint64]))
	},
	"uint64uint": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.UintToUint[uint64, uint], conv.MustUintToUint[uint64, uint]))
	},
	"uint64myuint": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.UintToUint[uint64, myUint], conv.MustUintToUint[uint64, myUint]))
	},
	"myuint64uint": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.UintToUint[myUint64, uint], conv.MustUintToUint[myUint64, uint]))
	},
	"myuint64myuint": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.UintToUint[myUint64, myUint], conv.MustUintToUint[myUint64, myUint]))
	},
	"uint64uint8": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.UintToUint[uint64, uint8], conv.MustUintToUint[uint64, uint8]))
	},
	"uint64myuint8": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.UintToUint[uint64, myUint8], conv.MustUintToUint[uint64, myUint8]))
	},
	"myuint64uint8": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.UintToUint[myUint64, uint8], conv.MustUintToUint[myUint64, uint8]))
	},
	"myuint64myuint8": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.UintToUint[myUint64, myUint8], conv.MustUintToUint[myUint64, myUint8]))
	},
	"uint64uint16": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.UintToUint[uint64, uint16], conv.MustUintToUint[uint64, uint16]))
	},
	"uint64myuint16": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.UintToUint[uint64, myUint16], conv.MustUintToUint[uint64, myUint16]))
	},
	"myuint64uint16": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.UintToUint[myUint64, uint16], conv.MustUintToUint[myUint64, uint16]))
	},
	"myuint64myuint16": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.UintToUint[myUint64, myUint16], conv.MustUintToUint[myUint64, myUint16]))
	},
	"uint64uint32": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.UintToUint[uint64, uint32], conv.MustUintToUint[uint64, uint32]))
	},
	"uint64myuint32": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.UintToUint[uint64, myUint32], conv.MustUintToUint[uint64, myUint32]))
	},
	"myuint64uint32": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.UintToUint[myUint64, uint32], conv.MustUintToUint[myUint64, uint32]))
	},
	"myuint64myuint32": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.UintToUint[myUint64, myUint32], conv.MustUintToUint[myUint64, myUint32]))
	},
	"uint64uint64": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.UintToUint[uint64, uint64], conv.MustUintToUint[uint64, uint64]))
	},
	"uint64myuint64": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.UintToUint[uint64, myUint64], conv.MustUintToUint[uint64, myUint64]))
	},
	"myuint64uint64": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.UintToUint[myUint64, uint64], conv.MustUintToUint[myUint64, uint64]))
	},
	"myuint64myuint64": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.UintToUint[myUint64, myUint64], conv.MustUintToUint[myUint64, myUint64]))
	},
	"float32uint": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToUint[float32, uint], conv.MustFloatToUint[float32, uint]))
	},
	"float32myuint": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToUint[float32, myUint], conv.MustFloatToUint[float32, myUint]))
	},
	"myfloat32uint": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToUint[myFloat32, uint], conv.MustFloatToUint[myFloat32, uint]))
	},
	"myfloat32myuint": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToUint[myFloat32, myUint], conv.MustFloatToUint[myFloat32, myUint]))
	},
	"float32uint8": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToUint[float32, uint8], conv.MustFloatToUint[float32, uint8]))
	},
	"float32myuint8": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToUint[float32, myUint8], conv.MustFloatToUint[float32, myUint8]))
	},
	"myfloat32uint8": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToUint[myFloat32, uint8], conv.MustFloatToUint[myFloat32, uint8]))
	},
	"myfloat32myuint8": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToUint[myFloat32, myUint8], conv.MustFloatToUint[myFloat32, myUint8]))
	},
	"float32uint16": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToUint[float32, uint16], conv.MustFloatToUint[float32, uint16]))
	},
	"float32myuint16": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToUint[float32, myUint16], conv.MustFloatToUint[float32, myUint16]))
	},
	"myfloat32uint16": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToUint[myFloat32, uint16], conv.MustFloatToUint[myFloat32, uint16]))
	},
	"myfloat32myuint16": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToUint[myFloat32, myUint16], conv.MustFloatToUint[myFloat32, myUint16]))
	},
	"float32uint32": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToUint[float32, uint32], conv.MustFloatToUint[float32, uint32]))
	},
	"float32myuint32": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToUint[float32, myUint32], conv.MustFloatToUint[float32, myUint32]))
	},
	"myfloat32uint32": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToUint[myFloat32, uint32], conv.MustFloatToUint[myFloat32, uint32]))
	},
	"myfloat32myuint32": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToUint[myFloat32, myUint32], conv.MustFloatToUint[myFloat32, myUint32]))
	},
	"float32uint64": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToUint[float32, uint64], conv.MustFloatToUint[float32, uint64]))
	},
	"float32myuint64": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToUint[float32, myUint64], conv.MustFloatToUint[float32, myUint64]))
	},
	"myfloat32uint64": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToUint[myFloat32, uint64], conv.MustFloatToUint[myFloat32, uint64]))
	},
	"myfloat32myuint64": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToUint[myFloat32, myUint64], conv.MustFloatToUint[myFloat32, myUint64]))
	},
	"float64uint": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToUint[float64, uint], conv.MustFloatToUint[float64, uint]))
	},
	"float64myuint": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToUint[float64, myUint], conv.MustFloatToUint[float64, myUint]))
	},
	"myfloat64uint": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToUint[myFloat64, uint], conv.MustFloatToUint[myFloat64, uint]))
	},
	"myfloat64myuint": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToUint[myFloat64, myUint], conv.MustFloatToUint[myFloat64, myUint]))
	},
	"float64uint8": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToUint[float64, uint8], conv.MustFloatToUint[float64, uint8]))
	},
	"float64myuint8": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToUint[float64, myUint8], conv.MustFloatToUint[float64, myUint8]))
	},
	"myfloat64uint8": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToUint[myFloat64, uint8], conv.MustFloatToUint[myFloat64, uint8]))
	},
	"myfloat64myuint8": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToUint[myFloat64, myUint8], conv.MustFloatToUint[myFloat64, myUint8]))
	},
	"float64uint16": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToUint[float64, uint16], conv.MustFloatToUint[float64, uint16]))
	},
	"float64myuint16": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToUint[float64, myUint16], conv.MustFloatToUint[float64, myUint16]))
	},
	"myfloat64uint16": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToUint[myFloat64, uint16], conv.MustFloatToUint[myFloat64, uint16]))
	},
	"myfloat64myuint16": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToUint[myFloat64, myUint16], conv.MustFloatToUint[myFloat64, myUint16]))
	},
	"float64uint32": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToUint[float64, uint32], conv.MustFloatToUint[float64, uint32]))
	},
	"float64myuint32": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToUint[float64, myUint32], conv.MustFloatToUint[float64, myUint32]))
	},
	"myfloat64uint32": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToUint[myFloat64, uint32], conv.MustFloatToUint[myFloat64, uint32]))
	},
	"myfloat64myuint32": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToUint[myFloat64, myUint32], conv.MustFloatToUint[myFloat64, myUint32]))
	},
	"float64uint64": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToUint[float64, uint64], conv.MustFloatToUint[float64, uint64]))
	},
	"float64myuint64": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToUint[float64, myUint64], conv.MustFloatToUint[float64, myUint64]))
	},
	"myfloat64uint64": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToUint[myFloat64, uint64], conv.MustFloatToUint[myFloat64, uint64]))
	},
	"myfloat64myuint64": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToUint[myFloat64, myUint64], conv.MustFloatToUint[myFloat64, myUint64]))
	},
	"intfloat32": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToFloat[int, float32], conv.MustIntToFloat[int, float32]))
	},
	"intmyfloat32": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToFloat[int, myFloat32], conv.MustIntToFloat[int, myFloat32]))
	},
	"myintfloat32": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToFloat[myInt, float32], conv.MustIntToFloat[myInt, float32]))
	},
	"myintmyfloat32": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToFloat[myInt, myFloat32], conv.MustIntToFloat[myInt, myFloat32]))
	},
	"intfloat64": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToFloat[int, float64], conv.MustIntToFloat[int, float64]))
	},
	"intmyfloat64": func(op h.Op, v any) {
		do(op, int(v.(int)), either(op, conv.IntToFloat[int, myFloat64], conv.MustIntToFloat[int, myFloat64]))
	},
	"myintfloat64": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToFloat[myInt, float64], conv.MustIntToFloat[myInt, float64]))
	},
	"myintmyfloat64": func(op h.Op, v any) {
		do(op, myInt(v.(int)), either(op, conv.IntToFloat[myInt, myFloat64], conv.MustIntToFloat[myInt, myFloat64]))
	},
	"int8float32": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToFloat[int8, float32], conv.MustIntToFloat[int8, float32]))
	},
	"int8myfloat32": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToFloat[int8, myFloat32], conv.MustIntToFloat[int8, myFloat32]))
	},
	"myint8float32": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToFloat[myInt8, float32], conv.MustIntToFloat[myInt8, float32]))
	},
	"myint8myfloat32": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToFloat[myInt8, myFloat32], conv.MustIntToFloat[myInt8, myFloat32]))
	},
	"int8float64": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToFloat[int8, float64], conv.MustIntToFloat[int8, float64]))
	},
	"int8myfloat64": func(op h.Op, v any) {
		do(op, int8(v.(int8)), either(op, conv.IntToFloat[int8, myFloat64], conv.MustIntToFloat[int8, myFloat64]))
	},
	"myint8float64": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToFloat[myInt8, float64], conv.MustIntToFloat[myInt8, float64]))
	},
	"myint8myfloat64": func(op h.Op, v any) {
		do(op, myInt8(v.(int8)), either(op, conv.IntToFloat[myInt8, myFloat64], conv.MustIntToFloat[myInt8, myFloat64]))
	},
	"int16float32": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToFloat[int16, float32], conv.MustIntToFloat[int16, float32]))
	},
	"int16myfloat32": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToFloat[int16, myFloat32], conv.MustIntToFloat[int16, myFloat32]))
	},
	"myint16float32": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToFloat[myInt16, float32], conv.MustIntToFloat[myInt16, float32]))
	},
	"myint16myfloat32": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToFloat[myInt16, myFloat32], conv.MustIntToFloat[myInt16, myFloat32]))
	},
	"int16float64": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToFloat[int16, float64], conv.MustIntToFloat[int16, float64]))
	},
	"int16myfloat64": func(op h.Op, v any) {
		do(op, int16(v.(int16)), either(op, conv.IntToFloat[int16, myFloat64], conv.MustIntToFloat[int16, myFloat64]))
	},
	"myint16float64": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToFloat[myInt16, float64], conv.MustIntToFloat[myInt16, float64]))
	},
	"myint16myfloat64": func(op h.Op, v any) {
		do(op, myInt16(v.(int16)), either(op, conv.IntToFloat[myInt16, myFloat64], conv.MustIntToFloat[myInt16, myFloat64]))
	},
	"int32float32": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToFloat[int32, float32], conv.MustIntToFloat[int32, float32]))
	},
	"int32myfloat32": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToFloat[int32, myFloat32], conv.MustIntToFloat[int32, myFloat32]))
	},
	"myint32float32": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToFloat[myInt32, float32], conv.MustIntToFloat[myInt32, float32]))
	},
	"myint32myfloat32": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToFloat[myInt32, myFloat32], conv.MustIntToFloat[myInt32, myFloat32]))
	},
	"int32float64": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToFloat[int32, float64], conv.MustIntToFloat[int32, float64]))
	},
	"int32myfloat64": func(op h.Op, v any) {
		do(op, int32(v.(int32)), either(op, conv.IntToFloat[int32, myFloat64], conv.MustIntToFloat[int32, myFloat64]))
	},
	"myint32float64": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToFloat[myInt32, float64], conv.MustIntToFloat[myInt32, float64]))
	},
	"myint32myfloat64": func(op h.Op, v any) {
		do(op, myInt32(v.(int32)), either(op, conv.IntToFloat[myInt32, myFloat64], conv.MustIntToFloat[myInt32, myFloat64]))
	},
	"int64float32": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToFloat[int64, float32], conv.MustIntToFloat[int64, float32]))
	},
	"int64myfloat32": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToFloat[int64, myFloat32], conv.MustIntToFloat[int64, myFloat32]))
	},
	"myint64float32": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToFloat[myInt64, float32], conv.MustIntToFloat[myInt64, float32]))
	},
	"myint64myfloat32": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToFloat[myInt64, myFloat32], conv.MustIntToFloat[myInt64, myFloat32]))
	},
	"int64float64": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToFloat[int64, float64], conv.MustIntToFloat[int64, float64]))
	},
	"int64myfloat64": func(op h.Op, v any) {
		do(op, int64(v.(int64)), either(op, conv.IntToFloat[int64, myFloat64], conv.MustIntToFloat[int64, myFloat64]))
	},
	"myint64float64": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToFloat[myInt64, float64], conv.MustIntToFloat[myInt64, float64]))
	},
	"myint64myfloat64": func(op h.Op, v any) {
		do(op, myInt64(v.(int64)), either(op, conv.IntToFloat[myInt64, myFloat64], conv.MustIntToFloat[myInt64, myFloat64]))
	},
	"uintfloat32": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.IntToFloat[uint, float32], conv.MustIntToFloat[uint, float32]))
	},
	"uintmyfloat32": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.IntToFloat[uint, myFloat32], conv.MustIntToFloat[uint, myFloat32]))
	},
	"myuintfloat32": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.IntToFloat[myUint, float32], conv.MustIntToFloat[myUint, float32]))
	},
	"myuintmyfloat32": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.IntToFloat[myUint, myFloat32], conv.MustIntToFloat[myUint, myFloat32]))
	},
	"uintfloat64": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.IntToFloat[uint, float64], conv.MustIntToFloat[uint, float64]))
	},
	"uintmyfloat64": func(op h.Op, v any) {
		do(op, uint(v.(uint)), either(op, conv.IntToFloat[uint, myFloat64], conv.MustIntToFloat[uint, myFloat64]))
	},
	"myuintfloat64": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.IntToFloat[myUint, float64], conv.MustIntToFloat[myUint, float64]))
	},
	"myuintmyfloat64": func(op h.Op, v any) {
		do(op, myUint(v.(uint)), either(op, conv.IntToFloat[myUint, myFloat64], conv.MustIntToFloat[myUint, myFloat64]))
	},
	"uint8float32": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.IntToFloat[uint8, float32], conv.MustIntToFloat[uint8, float32]))
	},
	"uint8myfloat32": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.IntToFloat[uint8, myFloat32], conv.MustIntToFloat[uint8, myFloat32]))
	},
	"myuint8float32": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.IntToFloat[myUint8, float32], conv.MustIntToFloat[myUint8, float32]))
	},
	"myuint8myfloat32": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.IntToFloat[myUint8, myFloat32], conv.MustIntToFloat[myUint8, myFloat32]))
	},
	"uint8float64": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.IntToFloat[uint8, float64], conv.MustIntToFloat[uint8, float64]))
	},
	"uint8myfloat64": func(op h.Op, v any) {
		do(op, uint8(v.(uint8)), either(op, conv.IntToFloat[uint8, myFloat64], conv.MustIntToFloat[uint8, myFloat64]))
	},
	"myuint8float64": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.IntToFloat[myUint8, float64], conv.MustIntToFloat[myUint8, float64]))
	},
	"myuint8myfloat64": func(op h.Op, v any) {
		do(op, myUint8(v.(uint8)), either(op, conv.IntToFloat[myUint8, myFloat64], conv.MustIntToFloat[myUint8, myFloat64]))
	},
	"uint16float32": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.IntToFloat[uint16, float32], conv.MustIntToFloat[uint16, float32]))
	},
	"uint16myfloat32": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.IntToFloat[uint16, myFloat32], conv.MustIntToFloat[uint16, myFloat32]))
	},
	"myuint16float32": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.IntToFloat[myUint16, float32], conv.MustIntToFloat[myUint16, float32]))
	},
	"myuint16myfloat32": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.IntToFloat[myUint16, myFloat32], conv.MustIntToFloat[myUint16, myFloat32]))
	},
	"uint16float64": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.IntToFloat[uint16, float64], conv.MustIntToFloat[uint16, float64]))
	},
	"uint16myfloat64": func(op h.Op, v any) {
		do(op, uint16(v.(uint16)), either(op, conv.IntToFloat[uint16, myFloat64], conv.MustIntToFloat[uint16, myFloat64]))
	},
	"myuint16float64": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.IntToFloat[myUint16, float64], conv.MustIntToFloat[myUint16, float64]))
	},
	"myuint16myfloat64": func(op h.Op, v any) {
		do(op, myUint16(v.(uint16)), either(op, conv.IntToFloat[myUint16, myFloat64], conv.MustIntToFloat[myUint16, myFloat64]))
	},
	"uint32float32": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.IntToFloat[uint32, float32], conv.MustIntToFloat[uint32, float32]))
	},
	"uint32myfloat32": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.IntToFloat[uint32, myFloat32], conv.MustIntToFloat[uint32, myFloat32]))
	},
	"myuint32float32": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.IntToFloat[myUint32, float32], conv.MustIntToFloat[myUint32, float32]))
	},
	"myuint32myfloat32": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.IntToFloat[myUint32, myFloat32], conv.MustIntToFloat[myUint32, myFloat32]))
	},
	"uint32float64": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.IntToFloat[uint32, float64], conv.MustIntToFloat[uint32, float64]))
	},
	"uint32myfloat64": func(op h.Op, v any) {
		do(op, uint32(v.(uint32)), either(op, conv.IntToFloat[uint32, myFloat64], conv.MustIntToFloat[uint32, myFloat64]))
	},
	"myuint32float64": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.IntToFloat[myUint32, float64], conv.MustIntToFloat[myUint32, float64]))
	},
	"myuint32myfloat64": func(op h.Op, v any) {
		do(op, myUint32(v.(uint32)), either(op, conv.IntToFloat[myUint32, myFloat64], conv.MustIntToFloat[myUint32, myFloat64]))
	},
	"uint64float32": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.IntToFloat[uint64, float32], conv.MustIntToFloat[uint64, float32]))
	},
	"uint64myfloat32": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.IntToFloat[uint64, myFloat32], conv.MustIntToFloat[uint64, myFloat32]))
	},
	"myuint64float32": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.IntToFloat[myUint64, float32], conv.MustIntToFloat[myUint64, float32]))
	},
	"myuint64myfloat32": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.IntToFloat[myUint64, myFloat32], conv.MustIntToFloat[myUint64, myFloat32]))
	},
	"uint64float64": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.IntToFloat[uint64, float64], conv.MustIntToFloat[uint64, float64]))
	},
	"uint64myfloat64": func(op h.Op, v any) {
		do(op, uint64(v.(uint64)), either(op, conv.IntToFloat[uint64, myFloat64], conv.MustIntToFloat[uint64, myFloat64]))
	},
	"myuint64float64": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.IntToFloat[myUint64, float64], conv.MustIntToFloat[myUint64, float64]))
	},
	"myuint64myfloat64": func(op h.Op, v any) {
		do(op, myUint64(v.(uint64)), either(op, conv.IntToFloat[myUint64, myFloat64], conv.MustIntToFloat[myUint64, myFloat64]))
	},
	"float32float32": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToFloat[float32, float32], conv.MustFloatToFloat[float32, float32]))
	},
	"float32myfloat32": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToFloat[float32, myFloat32], conv.MustFloatToFloat[float32, myFloat32]))
	},
	"myfloat32float32": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToFloat[myFloat32, float32], conv.MustFloatToFloat[myFloat32, float32]))
	},
	"myfloat32myfloat32": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToFloat[myFloat32, myFloat32], conv.MustFloatToFloat[myFloat32, myFloat32]))
	},
	"float32float64": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToFloat[float32, float64], conv.MustFloatToFloat[float32, float64]))
	},
	"float32myfloat64": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToFloat[float32, myFloat64], conv.MustFloatToFloat[float32, myFloat64]))
	},
	"myfloat32float64": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToFloat[myFloat32, float64], conv.MustFloatToFloat[myFloat32, float64]))
	},
	"myfloat32myfloat64": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToFloat[myFloat32, myFloat64], conv.MustFloatToFloat[myFloat32, myFloat64]))
	},
	"float64float32": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToFloat[float64, float32], conv.MustFloatToFloat[float64, float32]))
	},
	"float64myfloat32": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToFloat[float64, myFloat32], conv.MustFloatToFloat[float64, myFloat32]))
	},
	"myfloat64float32": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToFloat[myFloat64, float32], conv.MustFloatToFloat[myFloat64, float32]))
	},
	"myfloat64myfloat32": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToFloat[myFloat64, myFloat32], conv.MustFloatToFloat[myFloat64, myFloat32]))
	},
	"float64float64": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToFloat[float64, float64], conv.MustFloatToFloat[float64, float64]))
	},
	"float64myfloat64": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToFloat[float64, myFloat64], conv.MustFloatToFloat[float64, myFloat64]))
	},
	"myfloat64float64": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToFloat[myFloat64, float64], conv.MustFloatToFloat[myFloat64, float64]))
	},
	"myfloat64myfloat64": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToFloat[myFloat64, myFloat64], conv.MustFloatToFloat[myFloat64, myFloat64]))
	},
	"intbigint":      func(op h.Op, v any) { do(op, int(v.(int)), noErr(conv.IntToBigInt[int])) },
	"myintbigint":    func(op h.Op, v any) { do(op, myInt(v.(int)), noErr(conv.IntegerToBigInt[myInt])) },
	"int8bigint":     func(op h.Op, v any) { do(op, int8(v.(int8)), noErr(conv.IntToBigInt[int8])) },
	"myint8bigint":   func(op h.Op, v any) { do(op, myInt8(v.(int8)), noErr(conv.IntegerToBigInt[myInt8])) },
	"int16bigint":    func(op h.Op, v any) { do(op, int16(v.(int16)), noErr(conv.IntToBigInt[int16])) },
	"myint16bigint":  func(op h.Op, v any) { do(op, myInt16(v.(int16)), noErr(conv.IntegerToBigInt[myInt16])) },
	"int32bigint":    func(op h.Op, v any) { do(op, int32(v.(int32)), noErr(conv.IntToBigInt[int32])) },
	"myint32bigint":  func(op h.Op, v any) { do(op, myInt32(v.(int32)), noErr(conv.IntegerToBigInt[myInt32])) },
	"int64bigint":    func(op h.Op, v any) { do(op, int64(v.(int64)), noErr(conv.IntToBigInt[int64])) },
	"myint64bigint":  func(op h.Op, v any) { do(op, myInt64(v.(int64)), noErr(conv.IntegerToBigInt[myInt64])) },
	"uintbigint":     func(op h.Op, v any) { do(op, uint(v.(uint)), noErr(conv.UintToBigInt[uint])) },
	"myuintbigint":   func(op h.Op, v any) { do(op, myUint(v.(uint)), noErr(conv.IntegerToBigInt[myUint])) },
	"uint8bigint":    func(op h.Op, v any) { do(op, uint8(v.(uint8)), noErr(conv.UintToBigInt[uint8])) },
	"myuint8bigint":  func(op h.Op, v any) { do(op, myUint8(v.(uint8)), noErr(conv.IntegerToBigInt[myUint8])) },
	"uint16bigint":   func(op h.Op, v any) { do(op, uint16(v.(uint16)), noErr(conv.UintToBigInt[uint16])) },
	"myuint16bigint": func(op h.Op, v any) { do(op, myUint16(v.(uint16)), noErr(conv.IntegerToBigInt[myUint16])) },
	"uint32bigint":   func(op h.Op, v any) { do(op, uint32(v.(uint32)), noErr(conv.UintToBigInt[uint32])) },
	"myuint32bigint": func(op h.Op, v any) { do(op, myUint32(v.(uint32)), noErr(conv.IntegerToBigInt[myUint32])) },
	"uint64bigint":   func(op h.Op, v any) { do(op, uint64(v.(uint64)), noErr(conv.UintToBigInt[uint64])) },
	"myuint64bigint": func(op h.Op, v any) { do(op, myUint64(v.(uint64)), noErr(conv.IntegerToBigInt[myUint64])) },
	"float32bigint": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToBigInt[float32], conv.MustFloatToBigInt[float32]))
	},
	"myfloat32bigint": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToBigInt[myFloat32], conv.MustFloatToBigInt[myFloat32]))
	},
	"float64bigint": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToBigInt[float64], conv.MustFloatToBigInt[float64]))
	},
	"myfloat64bigint": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToBigInt[myFloat64], conv.MustFloatToBigInt[myFloat64]))
	},
	"bigintint64":      func(op h.Op, v any) { do(op, v.(*big.Int), either(op, conv.BigIntToInt64, conv.MustBigIntToInt64)) },
	"bigintuint64":     func(op h.Op, v any) { do(op, v.(*big.Int), either(op, conv.BigIntToUint64, conv.MustBigIntToUint64)) },
	"bigintfloat32":    func(op h.Op, v any) { do(op, v.(*big.Int), either(op, conv.BigIntToFloat32, conv.MustBigIntToFloat32)) },
	"bigintfloat64":    func(op h.Op, v any) { do(op, v.(*big.Int), either(op, conv.BigIntToFloat64, conv.MustBigIntToFloat64)) },
	"bigintstring":     func(op h.Op, v any) { do(op, v.(*big.Int), plain(conv.BigIntToString)) },
	"stringbigint":     func(op h.Op, v any) { do(op, v.(string), either(op, conv.StringToBigInt, conv.MustStringToBigInt)) },
	"intbigfloat":      func(op h.Op, v any) { do(op, int(v.(int)), noErr(conv.IntToBigFloat[int])) },
	"myintbigfloat":    func(op h.Op, v any) { do(op, myInt(v.(int)), noErr(conv.IntToBigFloat[myInt])) },
	"int8bigfloat":     func(op h.Op, v any) { do(op, int8(v.(int8)), noErr(conv.IntToBigFloat[int8])) },
	"myint8bigfloat":   func(op h.Op, v any) { do(op, myInt8(v.(int8)), noErr(conv.IntToBigFloat[myInt8])) },
	"int16bigfloat":    func(op h.Op, v any) { do(op, int16(v.(int16)), noErr(conv.IntToBigFloat[int16])) },
	"myint16bigfloat":  func(op h.Op, v any) { do(op, myInt16(v.(int16)), noErr(conv.IntToBigFloat[myInt16])) },
	"int32bigfloat":    func(op h.Op, v any) { do(op, int32(v.(int32)), noErr(conv.IntToBigFloat[int32])) },
	"myint32bigfloat":  func(op h.Op, v any) { do(op, myInt32(v.(int32)), noErr(conv.IntToBigFloat[myInt32])) },
	"int64bigfloat":    func(op h.Op, v any) { do(op, int64(v.(int64)), noErr(conv.IntToBigFloat[int64])) },
	"myint64bigfloat":  func(op h.Op, v any) { do(op, myInt64(v.(int64)), noErr(conv.IntToBigFloat[myInt64])) },
	"uintbigfloat":     func(op h.Op, v any) { do(op, uint(v.(uint)), noErr(conv.UintToBigFloat[uint])) },
	"myuintbigfloat":   func(op h.Op, v any) { do(op, myUint(v.(uint)), noErr(conv.UintToBigFloat[myUint])) },
	"uint8bigfloat":    func(op h.Op, v any) { do(op, uint8(v.(uint8)), noErr(conv.UintToBigFloat[uint8])) },
	"myuint8bigfloat":  func(op h.Op, v any) { do(op, myUint8(v.(uint8)), noErr(conv.UintToBigFloat[myUint8])) },
	"uint16bigfloat":   func(op h.Op, v any) { do(op, uint16(v.(uint16)), noErr(conv.UintToBigFloat[uint16])) },
	"myuint16bigfloat": func(op h.Op, v any) { do(op, myUint16(v.(uint16)), noErr(conv.UintToBigFloat[myUint16])) },
	"uint32bigfloat":   func(op h.Op, v any) { do(op, uint32(v.(uint32)), noErr(conv.UintToBigFloat[uint32])) },
	"myuint32bigfloat": func(op h.Op, v any) { do(op, myUint32(v.(uint32)), noErr(conv.UintToBigFloat[myUint32])) },
	"uint64bigfloat":   func(op h.Op, v any) { do(op, uint64(v.(uint64)), noErr(conv.UintToBigFloat[uint64])) },
	"myuint64bigfloat": func(op h.Op, v any) { do(op, myUint64(v.(uint64)), noErr(conv.UintToBigFloat[myUint64])) },
	"float32bigfloat": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToBigFloat[float32], conv.MustFloatToBigFloat[float32]))
	},
	"myfloat32bigfloat": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToBigFloat[myFloat32], conv.MustFloatToBigFloat[myFloat32]))
	},
	"float64bigfloat": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToBigFloat[float64], conv.MustFloatToBigFloat[float64]))
	},
	"myfloat64bigfloat": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToBigFloat[myFloat64], conv.MustFloatToBigFloat[myFloat64]))
	},
	"bigfloatint64": func(op h.Op, v any) {
		do(op, v.(*big.Float), either(op, conv.BigFloatToInt64, conv.MustBigFloatToInt64))
	},
	"bigfloatuint64": func(op h.Op, v any) {
		do(op, v.(*big.Float), either(op, conv.BigFloatToUint64, conv.MustBigFloatToUint64))
	},
	"bigfloatfloat32": func(op h.Op, v any) {
		do(op, v.(*big.Float), either(op, conv.BigFloatToFloat32, conv.MustBigFloatToFloat32))
	},
	"bigfloatfloat64": func(op h.Op, v any) {
		do(op, v.(*big.Float), either(op, conv.BigFloatToFloat64, conv.MustBigFloatToFloat64))
	},
	"bigfloatstring": func(op h.Op, v any) { do(op, v.(*big.Float), plain(conv.BigFloatToString)) },
	"stringbigfloat": func(op h.Op, v any) { do(op, v.(string), either(op, conv.StringToBigFloat, conv.MustStringToBigFloat)) },
	"intbigrat":      func(op h.Op, v any) { do(op, int(v.(int)), noErr(conv.IntToBigRat[int])) },
	"myintbigrat":    func(op h.Op, v any) { do(op, myInt(v.(int)), noErr(conv.IntToBigRat[myInt])) },
	"int8bigrat":     func(op h.Op, v any) { do(op, int8(v.(int8)), noErr(conv.IntToBigRat[int8])) },
	"myint8bigrat":   func(op h.Op, v any) { do(op, myInt8(v.(int8)), noErr(conv.IntToBigRat[myInt8])) },
	"int16bigrat":    func(op h.Op, v any) { do(op, int16(v.(int16)), noErr(conv.IntToBigRat[int16])) },
	"myint16bigrat":  func(op h.Op, v any) { do(op, myInt16(v.(int16)), noErr(conv.IntToBigRat[myInt16])) },
	"int32bigrat":    func(op h.Op, v any) { do(op, int32(v.(int32)), noErr(conv.IntToBigRat[int32])) },
	"myint32bigrat":  func(op h.Op, v any) { do(op, myInt32(v.(int32)), noErr(conv.IntToBigRat[myInt32])) },
	"int64bigrat":    func(op h.Op, v any) { do(op, int64(v.(int64)), noErr(conv.IntToBigRat[int64])) },
	"myint64bigrat":  func(op h.Op, v any) { do(op, myInt64(v.(int64)), noErr(conv.IntToBigRat[myInt64])) },
	"uintbigrat":     func(op h.Op, v any) { do(op, uint(v.(uint)), noErr(conv.UintToBigRat[uint])) },
	"myuintbigrat":   func(op h.Op, v any) { do(op, myUint(v.(uint)), noErr(conv.UintToBigRat[myUint])) },
	"uint8bigrat":    func(op h.Op, v any) { do(op, uint8(v.(uint8)), noErr(conv.UintToBigRat[uint8])) },
	"myuint8bigrat":  func(op h.Op, v any) { do(op, myUint8(v.(uint8)), noErr(conv.UintToBigRat[myUint8])) },
	"uint16bigrat":   func(op h.Op, v any) { do(op, uint16(v.(uint16)), noErr(conv.UintToBigRat[uint16])) },
	"myuint16bigrat": func(op h.Op, v any) { do(op, myUint16(v.(uint16)), noErr(conv.UintToBigRat[myUint16])) },
	"uint32bigrat":   func(op h.Op, v any) { do(op, uint32(v.(uint32)), noErr(conv.UintToBigRat[uint32])) },
	"myuint32bigrat": func(op h.Op, v any) { do(op, myUint32(v.(uint32)), noErr(conv.UintToBigRat[myUint32])) },
	"uint64bigrat":   func(op h.Op, v any) { do(op, uint64(v.(uint64)), noErr(conv.UintToBigRat[uint64])) },
	"myuint64bigrat": func(op h.Op, v any) { do(op, myUint64(v.(uint64)), noErr(conv.UintToBigRat[myUint64])) },
	"float32bigrat": func(op h.Op, v any) {
		do(op, float32(v.(float32)), either(op, conv.FloatToBigRat[float32], conv.MustFloatToBigRat[float32]))
	},
	"myfloat32bigrat": func(op h.Op, v any) {
		do(op, myFloat32(v.(float32)), either(op, conv.FloatToBigRat[myFloat32], conv.MustFloatToBigRat[myFloat32]))
	},
	"float64bigrat": func(op h.Op, v any) {
		do(op, float64(v.(float64)), either(op, conv.FloatToBigRat[float64], conv.MustFloatToBigRat[float64]))
	},
	"myfloat64bigrat": func(op h.Op, v any) {
		do(op, myFloat64(v.(float64)), either(op, conv.FloatToBigRat[myFloat64], conv.MustFloatToBigRat[myFloat64]))
	},
	"bigratint64":     func(op h.Op, v any) { do(op, v.(*big.Rat), either(op, conv.BigRatToInt64, conv.MustBigRatToInt64)) },
	"bigratuint64":    func(op h.Op, v any) { do(op, v.(*big.Rat), either(op, conv.BigRatToUint64, conv.MustBigRatToUint64)) },
	"bigratfloat32":   func(op h.Op, v any) { do(op, v.(*big.Rat), either(op, conv.BigRatToFloat32, conv.MustBigRatToFloat32)) },
	"bigratfloat64":   func(op h.Op, v any) { do(op, v.(*big.Rat), either(op, conv.BigRatToFloat64, conv.MustBigRatToFloat64)) },
	"bigratstring":    func(op h.Op, v any) { do(op, v.(*big.Rat), plain(conv.BigRatToString)) },
	"stringbigrat":    func(op h.Op, v any) { do(op, v.(string), either(op, conv.StringToBigRat, conv.MustStringToBigRat)) },
	"stringint64":     func(op h.Op, v any) { do(op, v.(string), either(op, conv.StringToInt64, conv.MustStringToInt64)) },
	"stringuint64":    func(op h.Op, v any) { do(op, v.(string), either(op, conv.StringToUint64, conv.MustStringToUint64)) },
	"stringfloat32":   func(op h.Op, v any) { do(op, v.(string), either(op, conv.StringToFloat32, conv.MustStringToFloat32)) },
	"stringfloat64":   func(op h.Op, v any) { do(op, v.(string), either(op, conv.StringToFloat64, conv.MustStringToFloat64)) },
	"intstring":       func(op h.Op, v any) { do(op, int(v.(int)), plain(conv.IntToString[int])) },
	"myintstring":     func(op h.Op, v any) { do(op, myInt(v.(int)), plain(conv.IntToString[myInt])) },
	"int8string":      func(op h.Op, v any) { do(op, int8(v.(int8)), plain(conv.IntToString[int8])) },
	"myint8string":    func(op h.Op, v any) { do(op, myInt8(v.(int8)), plain(conv.IntToString[myInt8])) },
	"int16string":     func(op h.Op, v any) { do(op, int16(v.(int16)), plain(conv.IntToString[int16])) },
	"myint16string":   func(op h.Op, v any) { do(op, myInt16(v.(int16)), plain(conv.IntToString[myInt16])) },
	"int32string":     func(op h.Op, v any) { do(op, int32(v.(int32)), plain(conv.IntToString[int32])) },
	"myint32string":   func(op h.Op, v any) { do(op, myInt32(v.(int32)), plain(conv.IntToString[myInt32])) },
	"int64string":     func(op h.Op, v any) { do(op, int64(v.(int64)), plain(conv.IntToString[int64])) },
	"myint64string":   func(op h.Op, v any) { do(op, myInt64(v.(int64)), plain(conv.IntToString[myInt64])) },
	"uintstring":      func(op h.Op, v any) { do(op, uint(v.(uint)), plain(conv.UintToString[uint])) },
	"myuintstring":    func(op h.Op, v any) { do(op, myUint(v.(uint)), plain(conv.UintToString[myUint])) },
	"uint8string":     func(op h.Op, v any) { do(op, uint8(v.(uint8)), plain(conv.UintToString[uint8])) },
	"myuint8string":   func(op h.Op, v any) { do(op, myUint8(v.(uint8)), plain(conv.UintToString[myUint8])) },
	"uint16string":    func(op h.Op, v any) { do(op, uint16(v.(uint16)), plain(conv.UintToString[uint16])) },
	"myuint16string":  func(op h.Op, v any) { do(op, myUint16(v.(uint16)), plain(conv.UintToString[myUint16])) },
	"uint32string":    func(op h.Op, v any) { do(op, uint32(v.(uint32)), plain(conv.UintToString[uint32])) },
	"myuint32string":  func(op h.Op, v any) { do(op, myUint32(v.(uint32)), plain(conv.UintToString[myUint32])) },
	"uint64string":    func(op h.Op, v any) { do(op, uint64(v.(uint64)), plain(conv.UintToString[uint64])) },
	"myuint64string":  func(op h.Op, v any) { do(op, myUint64(v.(uint64)), plain(conv.UintToString[myUint64])) },
	"float32string":   func(op h.Op, v any) { do(op, float32(v.(float32)), plain(conv.FloatToString[float32])) },
	"myfloat32string": func(op h.Op, v any) { do(op, myFloat32(v.(float32)), plain(conv.FloatToString[myFloat32])) },
	"float64string":   func(op h.Op, v any) { do(op, float64(v.(float64)), plain(conv.FloatToString[float64])) },
	"myfloat64string": func(op h.Op, v any) { do(op, myFloat64(v.(float64)), plain(conv.FloatToString[myFloat64])) },
	"bigintbigfloat":  func(op h.Op, v any) { do(op, v.(*big.Int), noErr(conv.BigIntToBigFloat)) },
	"bigratbigfloat":  func(op h.Op, v any) { do(op, v.(*big.Rat), noErr(conv.BigRatToBigFloat)) },
	"bigintbigrat":    func(op h.Op, v any) { do(op, v.(*big.Int), noErr(conv.BigIntToBigRat)) },
	"bigfloatbigint": func(op h.Op, v any) {
		do(op, v.(*big.Float), either(op, conv.BigFloatToBigInt, conv.MustBigFloatToBigInt))
	},
	"bigratbigint": func(op h.Op, v any) { do(op, v.(*big.Rat), either(op, conv.BigRatToBigInt, conv.MustBigRatToBigInt)) },
	"bigfloatbigrat": func(op h.Op, v any) {
		do(op, v.(*big.Float), either(op, conv.BigFloatToBigRat, conv.MustBigFloatToBigRat))
	},
}

func hasDirect(from, to string) bool { return directs[from+to] != nil }

func direct(op h.Op) {
	from, to := h.S(op["from"]), h.S(op["to"])
	v := dec(from, op["x"].(map[string]any))
	nf, nt := from, to
	if h.B(op["nfrom"]) {
		nf = "my" + from
	}
	if h.B(op["nto"]) {
		nt = "my" + to
	}
	for _, key := range []string{nf + nt, nf + to, from + nt, from + to} {
		if f := directs[key]; f != nil {
			f(op, v)
			return
		}
	}
	h.Fail("no function from %s to %s", from, to)
}

var _ *big.Int
