#!/usr/bin/env python3
"""Writes spec/<X>Trace.{tla,cfg} from a list of matches: the consuming part is the same in every trace module."""
import sys

TEMPLATE = """{dash} MODULE {name}Trace {dash}
(* Validates cases recorded from the real code against {base}. *)
EXTENDS {base}, Json, IOUtils, TLC
VARIABLES c, k
Cases == ndJsonDeserialize(IOEnv.TRACE)

{match}

\\* ---- the same in every trace module: consume the recorded calls case by case; report a call the specification does
\\* not allow, and go on with the next case
Call == Cases[c].ops[k]
TraceInit == {init} /\\ c = 1 /\\ k = 1
NextCase == c' = c + 1 /\\ k' = 1 /\\ {reset} /\\ (c = Len(Cases) => PrintT("DONE " \\o ToString(c)))
TraceNext ==
  /\\ c <= Len(Cases)
  /\\ IF k > Len(Cases[c].ops) THEN NextCase
     ELSE IF {enabled} THEN {step} /\\ k' = k + 1 /\\ UNCHANGED c
     ELSE PrintT("REJECT " \\o ToString(c) \\o " " \\o ToString(k){expected}) /\\ NextCase
=============================================================================
"""


def write(name, init, reset, match, consts="", expected=None, base=None, pure=None):
    exp = ' \\o " " \\o ToString(%s)' % expected if expected else ""
    with open("/verif/spec/%sTrace.tla" % name, "w") as f:
        f.write(TEMPLATE.format(dash="-" * 28, name=name, base=base or name, init=init, reset=reset, match=match.strip("\n"), expected=exp,
                                enabled="Match(Call)" if pure else "ENABLED Match(Call)", step=pure or "Match(Call)"))
    with open("/verif/spec/%sTrace.cfg" % name, "w") as f:
        f.write("INIT TraceInit\nNEXT TraceNext\n%sCHECK_DEADLOCK FALSE\n" % consts)


write("Event", "EventInit", "reg' = << >>", r"""
Match(e) ==
  \/ e.op = "kind"     /\ UNCHANGED reg
  \/ e.op = "register" /\ Register(e.id, e.r, e.res)
  \/ e.op = "remove"   /\ RemoveReceiver(e.id, e.r, e.all, e.res)
  \/ e.op = "removeid" /\ RemoveId(e.id, e.res)
  \/ e.op = "send"     /\ Send(e.res)
""", 'CONSTANTS Receivers = {"a"}\n', expected='Delivery(reg)')

write("Iter", "IterInit", "IterReset", r"""
Match(e) ==
  \/ e.op = "new"        /\ New(e.shape, e.parts, e.seterr)
  \/ e.op = "next"       /\ Next_(e.res)
  \/ e.op = "unread"     /\ Unread(e.v, e.res)
  \/ e.op = "unreadpart" /\ UnreadPart(e.i, e.v, e.res)
  \/ e.op = "nextpart"   /\ NextPart(e.i, e.res)
""")

write("Source", "SourceInit", "src' = Nothing", r"""
Match(e) ==
  \/ e.op = "seq"  /\ OpenSeq(e.items)
  \/ e.op = "map"  /\ OpenMap(e.pairs)
  \/ e.op = "inf"  /\ OpenInfinite(e.f, e.init)
  \/ e.op = "fib"  /\ OpenFib
  \/ e.op = "csv"  /\ OpenCSV(e.rows)
  \/ e.op = "next" /\ Next_(e.res)
""", expected="src")

write("Decode", "DecodeInit", "d' = NoReader", r"""
Match(e) ==
  \/ e.op = "open" /\ Open(e.kind, e.data, e.end, e.closer, e.str)
  \/ e.op = "next" /\ Next_(e.res)
""", expected="d")

for what, val, eff in (("Values", "e.res", "Eff(P)"), ("Effects", "NextRes(P)", "e.eff")):
    write("Stream" + what, "StreamInit", "StreamReset", r"""
\* a panic of the code under test ends what can be said about its further effects
Match(e) ==
  \/ e.op = "compose"  /\ Compose(e.stages)
  \/ e.op = "apply"    /\ LET P == Applied(e.src) IN Apply(e.src, %s) /\ e.res = [v |-> << >>, e |-> ""]
  \/ e.op = "next"     /\ LET P == Nexted(e.i, e.res.v) IN Next_(e.i, %s, %s, e.res.v)
  \/ e.op = "contents" /\ %s
""" % (eff, val, eff, "Contents(e.res)" if what == "Values" else "UNCHANGED svars"), base="Stream",
          expected='IF Call.op = "next" THEN [res |-> NextRes(Nexted(Call.i, Call.res.v)), eff |-> Eff(Nexted(Call.i, Call.res.v))] ELSE [res |-> [v |-> slc, e |-> ""], eff |-> [c |-> 0, cb |-> << >>]]')

write("Agg", "AggInit", "calls' = 0", r"""
Match(e) == e.op = "agg" /\ Call_(e.f, e.t, e.in, e.end, e.res)
""")

write("Parallel", "StreamInit /\\ ParInit", "UNCHANGED <<svars, pvars>>", r"""
AsAny(any, l) == IF any THEN Lst([i \in DOMAIN l.vs |-> IF l.vs[i][1] % 3 = 0 THEN <<-999>> ELSE l.vs[i]], l.e) ELSE l
Match(e) == /\ e.op = "parallel"
            /\ \E o \in Outcomes(e.stages, e.unit, e.n, e.items, e.end) : LET a == AsAny(e.any, o) IN e.res = [vs |-> a.vs, e |-> a.e]
            /\ UNCHANGED <<svars, pvars>>
""", expected='IF Call.op = "parallel" THEN Outcomes(Call.stages, Call.unit, Call.n, Call.items, Call.end) ELSE {}')

write("JsonDoc", "JsonInit", "j' = NoDoc", r"""
Match(e) ==
  \/ e.op = "parse"   /\ Parse(e.data, e.end, e.res)
  \/ e.op = "iterate" /\ Iterate(e.data, e.end, e.chunks, e.res)
  \/ e.op = "next"    /\ Next_(e.res)
""", expected="[j EXCEPT !.ends = << >>, !.chunks = << >>]")

write("JsonWrite", "WriteInit", "UNCHANGED writes", r"""
Match(e) == e.op = "write" /\ Write(e.v, e.budget, e.res)
""")

write("JsonValue", "ValueInit", "path' = NoPath", r"""
Match(e) ==
  \/ e.op = "tovalue" /\ ToValue(e.node, e.res)
  \/ e.op = "apart"   /\ Apart(e.v, e.res)
  \/ e.op = "path"    /\ ParsePath(e.p, e.res)
  \/ e.op = "lookup"  /\ Lookup(e.v, e.res)
""", expected='IF Call.op = "lookup" THEN ToString(Walk(Call.v, 1, path.steps)) ELSE IF Call.op = "apart" THEN ToString(Accessors(Call.v)) ELSE ""')

write("Sink", "SinkInit", "w' = NoWriter", r"""
Match(e) ==
  \/ e.op = "open"   /\ Open(e.kind, e.script)
  \/ e.op = "write"  /\ Write(e.vals, e.res)
  \/ e.op = "output" /\ Output(e.res)
  \/ e.op = "clear"  /\ Clear
""", expected="w")

write("Faulty", "FaultyInit", "f' = NoFaulty", r"""
Match(e) ==
  \/ e.op = "reader" /\ OpenReader(e.data)
  \/ e.op = "writer" /\ OpenWriter(e.count)
  \/ e.op = "read"   /\ Read(e.n, e.res)
  \/ e.op = "write"  /\ Write(e.data, e.res)
  \/ e.op = "output" /\ Output(e.res)
""", expected="f")

write("Mux", "MuxInit", "mux' = << >>", r"""
Match(e) ==
  \/ e.op = "handle"     /\ Handle(e.reg, e.bad # "", e.res)
  \/ e.op = "request"    /\ Request(e.m, e.path, e.res)
  \/ e.op = "reentrant"  /\ Reentrant(e.m, e.path, e.reg, e.res)
  \/ e.op = "concurrent" /\ Concurrent(e.regs, e.res)
""", expected='IF Call.op \\in {"request", "reentrant"} THEN ToString(Answer(mux, Call.m, Call.path)) ELSE ""')

write("Content", "ContentInit", "ContentReset", r"""
Match(e) ==
  \/ e.op = "body" /\ Body(e.data, e.res)
  \/ e.op = "csv"  /\ CSV(e.ctype, e.rows, e.res)
  \/ e.op = "json" /\ JSON(e.ctype, e.data, e.res)
  \/ e.op = "next" /\ NextContent(e.res)
""")

write("Range", "RangeInit", "rg' = NoRange", r"""
Match(e) ==
  \/ e.op = "new" /\ New(e.min, e.minc, e.max, e.maxc, e.val, e.res)
  \/ e.op = "set" /\ SetValue(e.val, e.res)
  \/ e.op = "get" /\ Get(e.res)
""", expected="rg")

write("Arith", "ArithInit", "calcs' = 0", r"""
Match(e) ==
  \/ e.op = "calc"   /\ Calculate(e.f, e.t, e.a, e.b, e.res)
  \/ e.op = "row8"   /\ CalculateRow(e.f, e.t, e.a, e.res)
  \/ e.op = "bigdiv" /\ BigDivide(e.t, e.alias, e.a, e.b, e.res)
  \/ e.op = "order"  /\ Compare(e.kind, e.f, e.a, e.b, e.res)
""", expected='IF Call.op = "calc" THEN ToString(Calc(Call.f, Call.t, Call.a, Call.b)) ELSE ""')

write("Decimal", "DecimalInit", "reg' = NoDecimals", r"""
Match(e) ==
  \/ e.op = "make"      /\ Make(e.r, e.v, e.s, e.n, e.res)
  \/ e.op = "parse"     /\ Parse(e.r, e.text, e.res)
  \/ e.op = "show"      /\ Show(e.r, e.res)
  \/ e.op = "cmp"       /\ Compare(e.a, e.b, e.res)
  \/ e.op = "format"    /\ Format(e.a, e.b, e.res)
  \/ e.op = "adjust"    /\ Adjust(e.a, e.b, e.res)
  \/ e.op = "negate"    /\ Negate(e.r, e.a, e.res)
  \/ e.op = "normalize" /\ Normalize(e.r, e.res)
  \/ e.op = "calc"      /\ Calc(e.f, e.r, e.a, e.b, e.res)
  \/ e.op = "quorem"    /\ QuoRem(e.q, e.r, e.a, e.o, e.res)
  \/ e.op = "divadd"    /\ DivAdd(e.r, e.a, e.o, e.res)
""", 'CONSTANTS Regs = {1, 2, 3, 4}\n', expected='IF Call.op = "calc" THEN ToString(reg) \\o ToString(Results(Call.f, reg[Call.a], reg[Call.b])) ELSE ToString(reg)')

# the functions have no state, so that a call is judged by a predicate (which TLC evaluates once)
write("Conv", "ConvInit", "convs' = 0", r"""
Match(e) ==
  \/ e.op = "conv"  /\ ConvertOk(e.from, e.to, e.x, e.res)
  \/ e.op = "norm"  /\ NormalizedOk(e.x.v, e.res)
  \/ e.op = "floattext" /\ FloatTextOk(e.x.s, e.res)
  \/ e.op = "nil" /\ NilSourceOk(e.res)
""", pure="Converted")

write("Union", "UnionInit", "un' = NoUnion", r"""
Match(e) ==
  \/ e.op = "open"       /\ Open(e.kind, e.t, e.n)
  \/ e.op = "copy"       /\ Copy(e.at, e.from, e.res)
  \/ e.op = "make"       /\ Make(e.at, e.w, e.v, e.res)
  \/ e.op = "which"      /\ Which(e.at, e.res)
  \/ e.op = "member"     /\ Member(e.at, e.w, e.res)
  \/ e.op = "of"         /\ OfMaybe(e.at, e.v, e.res)
  \/ e.op = "empty"      /\ MakeEmpty(e.at, e.res)
  \/ e.op = "present"    /\ MakePresent(e.at, e.v, e.res)
  \/ e.op = "first"      /\ First(e.at, e.vs, e.res)
  \/ e.op = "setorerror" /\ SetOrError(e.at, e.v, e.res)
  \/ e.op = "has"        /\ Present(e.at, e.res)
  \/ e.op = "get"        /\ GetMaybe(e.at, e.res)
  \/ e.op = "orelse"     /\ OrElse(e.at, e.v, e.res)
  \/ e.op = "orerror"    /\ OrError(e.at, e.err, e.res)
  \/ e.op = "ofresult"   /\ OfResult(e.at, e.v, e.res)
  \/ e.op = "oferror"    /\ OfError(e.at, e.err, e.res)
  \/ e.op = "ofboth"     /\ OfResultError(e.at, e.v, e.err, e.res)
  \/ e.op = "result"     /\ Result(e.at, e.res)
  \/ e.op = "string"     /\ String(e.at, e.res)
  \/ e.op = "rpresent"   /\ RPresent(e.at, e.way, e.res)
  \/ e.op = "rget"       /\ RGet(e.at, e.way, e.res)
  \/ e.op = "rtype"      /\ RType(e.at, e.way, e.res)
  \/ e.op = "rset"       /\ RSet(e.at, e.way, e.what, e.v, e.res)
  \/ e.op = "rsetempty"  /\ RSetEmpty(e.at, e.way, e.res)
  \/ e.op = "rother"     /\ ROther(e.res)
""", expected="un")

write("Collect", "CollectInit", "mp' = NoEntries", r"""
Tuples == Cases[c].ops[1].op = "open" /\ Cases[c].ops[1].kind = "ordered"
Match(e) ==
  \/ e.op = "slice"  /\ Slice(e, e.res)
  \/ e.op = "open"   /\ UNCHANGED mp
  \/ e.op = "set"    /\ Set(e.p, e.v, e.res)
  \/ e.op = "unset"  /\ (IF Tuples THEN TupleRemoveKey(e.p, e.res) ELSE Unset(e.p, e.res))
  \/ e.op = "test"   /\ Test(e.p, e.res)
  \/ e.op = "index"  /\ Index(e.p, e.default, e.res)
  \/ e.op = "keys"   /\ Keys(e.res)
  \/ e.op = "sorted" /\ Sorted(e.by, e.res)
  \/ e.op = "add"    /\ (IF Tuples THEN TupleAdd(e.p, e.v, e.res) ELSE AddTo(e.p, e.v, e.res))
  \/ e.op = "remove" /\ (IF Tuples THEN TupleRemove(e.p, e.v, e.all, e.res) ELSE RemoveFrom(e.p, e.v, e.all, e.res))
  \/ e.op = "search" /\ TupleSearch(e.k, e.res)
""", expected="mp")

write("Combine", "CombineInit", "combined' = 0", r"""
Match(e) ==
  \/ e.op = "filter"   /\ FilterOk(e.filter, e.xs, e.res)
  \/ e.op = "compose"  /\ ComposeOk(e.fs, e.x, e.res)
  \/ e.op = "ternary"  /\ (IF e.call THEN TernaryResultOk(e.b, e.t, e.f, e.res) ELSE TernaryOk(e.b, e.t, e.f, e.res))
  \/ e.op = "supplier" /\ SupplierOk(e.calls, e.threads, e.v, e.res)
  \/ e.op = "try"      /\ TryOk(e.try, e.closers, e.handler, e.res)
  \/ e.op = "assert"   /\ AssertOk(e.t, e.v, e.must, e.res)
  \/ e.op = "toslice"  /\ ToSliceOk(e.t, e.v, e.must, e.res)
  \/ e.op = "toslice2" /\ ToSlice2Ok(e.t, e.v, e.must, e.res)
  \/ e.op = "tomap"    /\ ToMapOk(e.t, e.v, e.must, e.res)
  \/ e.op = "nil"      /\ NilOk(e.f, e.t, e.v, e.res)
  \/ e.op = "must"     /\ MustOk(e.n, e.err, e.res)
  \/ e.op = "pick"     /\ PickOk(e.i, e.n, e.res)
  \/ e.op = "camel"    /\ CamelOk(e.s, e.res)
  \/ e.op = "snake"    /\ SnakeOk(e.s, e.res)
""", pure="Combined")

write("Reflect", "ReflectInit", "looked' = 0", r"""
Match(e) ==
  \/ e.op = "type"    /\ e.res = TypeFacts(e.t)
  \/ e.op = "value"   /\ e.res = ValueFacts(e.x)
  \/ e.op = "novalue" /\ e.res = NoValue
  \/ e.op = "assert"  /\ AssertOk(e.x, e.t, e.must, e.res)
  \/ e.op = "store"   /\ StoreOk(e.x, e.src, e.res)
  \/ e.op = "fields"  /\ FieldsOk(e.s, e.res)
  \/ e.op = "field"   /\ FieldOk(e.s, e.name, e.res)
""", expected='IF Call.op = "value" THEN ToString(ValueFacts(Call.x)) ELSE IF Call.op = "type" THEN ToString(TypeFacts(Call.t)) ELSE ""', pure="Looked")

write("Generator", "GeneratorInit", "gen' = << >>", r"""
After(e) == {e.tree[i] : i \in 1..Len(e.tree)}
\* once setting the base failed, nothing is said about the generator
Match(e) ==
  \/ e.op = "open" /\ Open(After(e))
  \/ e.op = "new"  /\ Fresh
  \/ e.op \notin {"open", "new"} /\ gen.dead /\ UNCHANGED gen
  \/ e.op = "setbase" /\ ~gen.dead /\ SetBase(e.p, e.res.r, After(e.res))
  \/ e.op = "getbase" /\ ~gen.dead /\ GetBase(e.res.r, e.res.same, After(e.res))
  \/ e.op = "dir"     /\ ~gen.dead /\ MakeDir(e.p, e.res.r, After(e.res))
  \/ e.op = "src"     /\ ~gen.dead /\ MakeSrc(e.name, e.res.r, After(e.res))
  \/ e.op = "write"   /\ ~gen.dead /\ Write(e.at, e.ss, e.res.r, After(e.res))
""", expected="gen")

write("Model", "ModelInit", "model' = 0", r"""
Match(e) ==
  \/ e.op = "type"     /\ e.res = TypeDef(e.x)
  \/ e.op = "sort"     /\ e.res = Sort(e.typ)
  \/ e.op = "value"    /\ e.res = Value(e.x)
  \/ e.op = "operator" /\ e.res = Operator(e.o)
  \/ e.op = "expr"     /\ ExprOk(e.o, e.vals, e.res)
  \/ e.op = "tuple"    /\ e.res = Tuple(e.vals)
""", pure="Modelled")
