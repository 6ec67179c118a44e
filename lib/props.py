"""What each check runs. Q(quick, thorough) picks by tier."""
import json
import os


class P:
    def __init__(self, pkg, trace, run, assumptions=(), race=False, apart=2000):
        self.pkg, self.trace, self._run, self.assumptions, self.race, self.apart = pkg, trace, run, list(assumptions), race, apart

    def build(self, c):
        return c.build(self.pkg, self.race)

    def run(self, c):
        drv = self.build(c)
        self._run(c, drv)
        if self.apart:
            # drivers that have several threads already are not woven
            c.apart(drv, self.pkg, self.trace, self.trace + ".cfg", Q(c, self.apart, 12 * self.apart), weave=not self.race)


def Q(c, quick, thorough):
    return quick if c.tier == "quick" else thorough


def replay(c, p, doc):
    """Executes the case of a replay file again, and lets the specification decide."""
    g = doc.get("group")
    for i in range(20 if g and g["how"] == "threads" else 1):
        if replay1(c, p, doc, g):
            print("VIOLATION property=%s replay=again" % c.pid)
            return 1
    print("the case is accepted by the specification")
    return 0


def replay1(c, p, doc, g):
    if g:
        drv = c.build(p.pkg, g["how"] == "threads")
        cases, died = c.exec_group(drv, g["cases"], g["how"], "replay")
    else:
        drv = p.build(c)
        case, died = c.exec_case(drv, doc["case"], "replay")
        cases = [case]
    if died is not None:
        print(died["err"])
        return True
    path = os.path.join(c.tmp, "replay.ndjson")
    with open(path, "w") as f:
        for case in cases:
            f.write(json.dumps(case) + "\n")
    rej, _, exp = c.validate(p.trace, p.trace + ".cfg", path)
    for (ci, k) in rej:
        print("rejected: " + json.dumps(cases[ci - 1]["ops"][k - 1]))
        print("expected: " + str(exp.get((ci, k))))
    return bool(rej)


PROPS = {}


def prop(pid, pkg, trace, assumptions=(), race=False, apart=2000):
    def deco(f):
        PROPS[pid] = P(pkg, trace, f, assumptions, race, apart)
        return f
    return deco


@prop("C01", "c01event", "EventTrace")
def c01(c, drv):
    c.model("EventMC", "EventMC.cfg", "all registries of 3 ids, 2 receivers, at most 3 receivers per id, closed under every call")
    c.replay(drv, "EventMC", "EventGen.cfg", "every behaviour of the given length", overrides={"MaxOps": Q(c, 4, 6)})
    c.explore(drv, "EventDuringMC", "EventDuringMC.cfg", "EventTrace", "all small registries and all calls that receivers make while an event is sent", overrides=Q(c, {}, {"MaxActs": 2}))
    c.traces(drv, "EventTrace", "EventTrace.cfg", Q(c, 12000, 200000), "random histories of up to 43 calls over 12 ids and 8 receivers, also calls that receivers make while an event is sent", chunk=2500)
    c.known_cases(drv, "EventTrace", "EventTrace.cfg")


@prop("C02", "c02iter", "IterTrace")
def c02(c, drv):
    c.replay(drv, "IterMC", "IterMC.cfg", "every sequence of calls of the given length, over all scripts and concatenations of two parts; invariants checked in every state",
             overrides={"MaxOps": Q(c, 5, 7), "MaxScript": Q(c, 2, 2)})
    c.traces(drv, "IterTrace", "IterTrace.cfg", Q(c, 8000, 150000), "random histories of up to 50 calls over concatenations of up to 5 scripted parts", chunk=2500)


@prop("C03", "c03source", "SourceTrace")
def c03(c, drv):
    c.replay(drv, "SourceMC", "SourceMC.cfg", "every source over small alphabets, read beyond its end; conservation checked in every state",
             overrides={"MaxNext": Q(c, 6, 9), "MaxItems": Q(c, 4, 6), "TextLen": Q(c, 4, 6)})
    c.traces(drv, "SourceTrace", "SourceTrace.cfg", Q(c, 7000, 200000), "random slices, maps (with nil keys and values), infinite series and CSV documents, texts like CSV, intact and malformed, from readers that fail", chunk=5000)


@prop("C04", "c04decode", "DecodeTrace")
def c04(c, drv):
    c.replay(drv, "DecodeMC", "DecodeMC.cfg", "every input over alphabets of boundary bytes up to the given length, as runes and as lines, delivered in varying portions",
             overrides={"RuneLen": Q(c, 4, 5), "LineLen": Q(c, 5, 7)})
    c.traces(drv, "DecodeTrace", "DecodeTrace.cfg", Q(c, 16000, 300000), "random inputs of up to 56 bytes, in random portions, ending in EOF or an error, with and without a closer", chunk=5000)


@prop("C05", "c05stream", "StreamValuesTrace")
def c05(c, drv):
    c.replay(drv, "StreamMC", "StreamMC.cfg", "all compositions of up to two of 42 transforms over all small sources; compared with the meaning as list functions in every state",
             overrides={"MaxLen": Q(c, 2, 3), "MaxNext": Q(c, 4, 6)})
    c.traces(drv, "StreamValuesTrace", "StreamValuesTrace.cfg", Q(c, 16000, 300000), "random compositions of up to 5 transforms, applied to up to 3 sources that are read interleaved", chunk=5000)


@prop("C06", "c06lazy", "StreamEffectsTrace")
def c06(c, drv):
    c.replay(drv, "StreamMC", "StreamMC.cfg", "all compositions of up to two of 42 transforms over all small sources: calls of the source and of the client's functions",
             overrides={"MaxLen": Q(c, 2, 3), "MaxNext": Q(c, 4, 6)})
    c.traces(drv, "StreamEffectsTrace", "StreamEffectsTrace.cfg", Q(c, 16000, 300000), "random compositions of up to 5 transforms, applied to up to 3 sources that are read interleaved", chunk=5000)


@prop("C07", "c07agg", "AggTrace")
def c07(c, drv):
    c.model("BigNumMC", "BigNumMC.cfg", "the arithmetic of the specification agrees with TLC's, and satisfies the laws of arithmetic for large numbers")
    c.replay(drv, "AggMC", "AggMC.cfg", "all sequences of up to three boundary values of the types", overrides=Q(c, {}, {"Types": '{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "bigint"}'}))
    c.traces(drv, "AggTrace", "AggTrace.cfg", Q(c, 12000, 200000), "random elements of 18 types: values at the ends of the ranges, running sums that leave the range, equal magnitudes", chunk=5000)


@prop("C08", "c08parallel", "ParallelTrace", race=True)
def c08(c, drv):
    c.replay(drv, "ParallelMC", "ParallelMC.cfg", "every interleaving of the threads over small sources, enforced on the real threads; the outcome is independent of the schedule in every state",
             overrides={"MaxItems": Q(c, 5, 6)})
    c.traces(drv, "ParallelTrace", "ParallelTrace.cfg", Q(c, 6000, 100000), "random compositions, sources of up to 21 elements, ways to divide them, and jitter, under the race detector", chunk=2500)


JSON_WHAT = {"arr": "all texts of brackets, commas and a number", "obj": "all texts of braces, a key, colon, comma and a number", "num": "all texts of number characters within an array",
             "str": "all sequences of string pieces and escapes, in values and in keys", "word": "literals, whitespace and other characters in every place"}


def json_explore(c, drv, op, f):
    for mode, what in JSON_WHAT.items():
        o = {"Mode": '"%s"' % mode, "Op": '"%s"' % op}
        o.update(Q(c, {"ArrLen": 10, "ObjLen": 9, "NumLen": 6, "StrLen": 3}, {"ArrLen": 11, "ObjLen": 10, "NumLen": 8, "StrLen": 4}) if op == "parse" else
                 Q(c, {"ArrLen": 8, "ObjLen": 7, "NumLen": 4, "StrLen": 2}, {"ArrLen": 9, "ObjLen": 8, "NumLen": 6, "StrLen": 3}))
        f(o, what)


@prop("C09", "c09parse", "JsonDocTrace")
def c09(c, drv):
    json_explore(c, drv, "parse", lambda o, what: c.replay(drv, "JsonDocMC", "JsonDocMC.cfg", what, overrides=o))
    c.traces(drv, "JsonDocTrace", "JsonDocTrace.cfg", Q(c, 16000, 300000), "random documents of up to 90 bytes, intact and damaged, delivered in random chunks, from readers that end or fail anywhere", chunk=5000)


@prop("C10", "c10iterate", "JsonDocTrace")
def c10(c, drv):
    json_explore(c, drv, "iterate", lambda o, what: c.explore(drv, "JsonDocMC", "JsonDocMC.cfg", "JsonDocTrace", what, overrides=o))
    c.traces(drv, "JsonDocTrace", "JsonDocTrace.cfg", Q(c, 8000, 200000), "random documents of up to 90 bytes, intact and damaged, delivered in random chunks, from readers that end or fail anywhere", chunk=5000)


@prop("C11", "c11write", "JsonWriteTrace")
def c11(c, drv):
    c.explore(drv, "JsonWriteMC", "JsonWriteMC.cfg", "JsonWriteTrace", "all strings of special characters as values and keys, small structures, writers that fail after any number of characters",
              overrides=Q(c, {}, {"StrLen": 3, "Chars0": 600, "MaxBudget": 20}))
    c.traces(drv, "JsonWriteTrace", "JsonWriteTrace.cfg", Q(c, 12000, 200000), "random values up to depth 3, writers that fail anywhere", chunk=5000)


@prop("C12", "c12value", "JsonValueTrace")
def c12(c, drv):
    c.explore(drv, "JsonValueMC", "JsonValueMC.cfg", "JsonValueTrace", "all small trees of Go values with every kind of leaf, through every conversion", overrides=Q(c, {}, {"Depth": 2}))
    c.replay(drv, "JsonValueMC", "JsonValueMC.cfg", "all paths over the characters that matter, looked up in several values", overrides={"Mode": '"path"', "PathLen": Q(c, 4, 6)})
    c.replay(drv, "JsonValueMC", "JsonValueMC.cfg", "all sequences of path steps, looked up in several values", overrides={"Mode": '"pieces"', "PathLen": Q(c, 3, 4)})
    c.traces(drv, "JsonValueTrace", "JsonValueTrace.cfg", Q(c, 8000, 150000), "random trees of Go values up to depth 3, random values taken apart, random paths looked up in random values", chunk=2500)


@prop("C13", "c13sink", "SinkTrace")
def c13(c, drv):
    c.replay(drv, "SinkMC", "SinkMC.cfg", "all sequences of writes of few values to every kind of writer, whose destination fails at every place",
             overrides=Q(c, {}, {"MaxOps": 3, "MaxRoom": 4, "MaxScript": 1}))
    c.replay(drv, "SinkMC", "SinkMC.cfg", "the same with destinations that fail twice", overrides=Q(c, {"MaxOps": 2, "MaxVals": 1, "MaxScript": 2, "MaxRoom": 2}, {"MaxOps": 4, "MaxVals": 1, "MaxScript": 2, "MaxRoom": 2}))
    c.traces(drv, "SinkTrace", "SinkTrace.cfg", Q(c, 8000, 150000), "random values to every kind of writer, destinations that fail up to three times", chunk=2500)


@prop("C14", "c14faulty", "FaultyTrace")
def c14(c, drv):
    c.replay(drv, "FaultyMC", "FaultyMC.cfg", "all sequences of reads and writes of few bytes", overrides=Q(c, {}, {"MaxOps": 5, "MaxLen": 5}))
    c.traces(drv, "FaultyTrace", "FaultyTrace.cfg", Q(c, 8000, 150000), "random histories of up to 12 reads or writes", chunk=2500)


@prop("C15", "c15mux", "MuxTrace", race=True, apart=400)
def c15(c, drv):
    c.replay(drv, "MuxMC", "MuxMC.cfg", "all small tables of registrations, all requests over a few paths", overrides=Q(c, {}, {"MaxRegs": 3}))
    c.traces(drv, "MuxTrace", "MuxTrace.cfg", Q(c, 3000, 60000), "random registrations, requests, registrations by handlers and while requests are served by other threads, under the race detector", chunk=400)


@prop("C16", "c16content", "ContentTrace")
def c16(c, drv):
    c.explore(drv, "ContentMC", "ContentMC.cfg", "ContentTrace", "all small bodies with all types of content, compressed or not; all short texts as CSV", overrides=Q(c, {}, {"TextLen": 6}))
    c.traces(drv, "ContentTrace", "ContentTrace.cfg", Q(c, 4000, 100000), "random bodies, CSV rows and JSON documents, compressed or not", chunk=2500)


@prop("C17", "c17range", "RangeTrace")
def c17(c, drv):
    c.replay(drv, "RangeMC", "RangeMC.cfg", "all ranges between few bounds of five types, and the values that are set", overrides=Q(c, {}, {"MaxSets": 3}))
    c.traces(drv, "RangeTrace", "RangeTrace.cfg", Q(c, 12000, 200000), "random ranges of 12 types, sequences of up to 9 values, next to the bounds and to each other", chunk=5000)


@prop("C19", "c19arith", "ArithTrace")
def c19(c, drv):
    c.model("BigNumMC", "BigNumMC.cfg", "the arithmetic of the specification agrees with TLC's, and satisfies the laws of arithmetic for large numbers")
    c.replay(drv, "ArithMC", "ArithMC.cfg", "all pairs of numbers of eight bits, all pairs of boundary values of the other types")
    c.explore(drv, "ArithFloatMC", "ArithFloatMC.cfg", "ArithTrace", "all quotients and absolute values of boundary floats and big floats", overrides=Q(c, {"Types": '{"float32", "bigfloat"}'}, {"Precs": "{24, 53, 64, 70, 113}"}))
    c.traces(drv, "ArithTrace", "ArithTrace.cfg", Q(c, 7000, 60000), "random operands whose results are next to the bounds and to halves, division of floats and of big numbers in place, comparing", chunk=2500)


@prop("C18", "c18decimal", "DecimalTrace")
def c18(c, drv):
    c.explore(drv, "DecimalMC", "DecimalMC.cfg", "DecimalTrace", "all pairs of boundary decimals through all calculations", overrides=Q(c, {"Scales": "{0, 2, 18}"}, {"Scales": "{0, 1, 2, 9, 17, 18}"}))
    c.explore(drv, "DecimalMC", "DecimalMC.cfg", "DecimalTrace", "all texts over the characters that matter", overrides={"Mode": '"text"', "TextLen": Q(c, 4, 6)})
    c.traces(drv, "DecimalTrace", "DecimalTrace.cfg", Q(c, 3000, 60000), "random decimals through sequences of up to 14 calculations on each other's results", chunk=1500)


@prop("C20", "c20conv", "ConvTrace")
def c20(c, drv):
    c.explore(drv, "ConvMC", "ConvMC.cfg", "ConvTrace", "all boundary values of all 16 types to all types", overrides=Q(c, {}, {"Apis": '{"to", "any", "direct", "ops", "reflect", "must"}', "Powers": "{0, 4, 7, 8, 15, 16, 23, 24, 25, 31, 32, 52, 53, 54, 62, 63, 64, 100}"}))
    c.explore(drv, "ConvMC", "ConvMC.cfg", "ConvTrace", "all texts over the characters that matter", overrides={"Mode": '"text"', "TextLen": Q(c, 4, 5)})
    c.traces(drv, "ConvTrace", "ConvTrace.cfg", Q(c, 3500, 100000), "random values near the boundaries of ranges and precisions, through all functions", chunk=1500)


@prop("C21", "c21union", "UnionTrace")
def c21(c, drv):
    c.replay(drv, "UnionMC", "UnionMC.cfg", "all sequences of few changes of two variables of each kind, then everything is read", overrides=Q(c, {}, {"MaxOps": 3}))
    c.replay(drv, "UnionMC", "UnionMC.cfg", "the same through reflection, by pointers and nil pointers", overrides={"Kinds": '{"maybe"}', "Vals": Q(c, "{0, 1}", "{0, 1, 2}"), "Ways": '{"none", "var", "one", "nil1", "two", "nil2o", "nil2i", "three", "nil3m", "nil3i"}', "MaxOps": Q(c, 1, 2), "Types": '{"int", "ptr"}'})
    c.traces(drv, "UnionTrace", "UnionTrace.cfg", Q(c, 8000, 150000), "random histories of up to 15 calls on variables of 10 types", chunk=2500)


@prop("C22", "c22collect", "CollectTrace")
def c22(c, drv):
    c.explore(drv, "CollectMC", "CollectMC.cfg", "CollectTrace", "all short slices through every function", overrides=Q(c, {}, {"MaxLen": 4}))
    c.explore(drv, "CollectMC", "CollectMC.cfg", "CollectTrace", "all sequences of few changes of every kind of map", overrides=Q(c, {"Mode": '"map"', "MaxOps": 2}, {"Mode": '"map"', "Vals": "{0, 1}"}))
    c.explore(drv, "CollectMC", "CollectMC.cfg", "CollectTrace", "all longer sequences with few values", overrides={"Mode": '"map"', "Vals": Q(c, "{1}", "{1, 2}"), "MaxOps": Q(c, 4, 4)})
    c.traces(drv, "CollectTrace", "CollectTrace.cfg", Q(c, 8000, 150000), "random slices, random histories of up to 26 calls on every kind of map", chunk=2500)


@prop("C23", "c23combine", "CombineTrace", race=True)
def c23(c, drv):
    for mode, n in (("calls", 0), ("junctions", Q(c, 3, 5)), ("try", Q(c, 3, 6)), ("convert", Q(c, 3, 5)), ("camel", Q(c, 4, 6)), ("snake", Q(c, 4, 6))):
        c.explore(drv, "CombineMC", "CombineMC.cfg", "CombineTrace", "all small uses: " + mode, overrides={"Mode": '"%s"' % mode, "MaxLen": n})
    c.traces(drv, "CombineTrace", "CombineTrace.cfg", Q(c, 12000, 200000), "random filters, compositions, suppliers used by several threads, tries, conversions and names, under the race detector", chunk=4000)


@prop("C24", "c24reflect", "ReflectTrace")
def c24(c, drv):
    c.explore(drv, "ReflectMC", "ReflectMC.cfg", "ReflectTrace", "all types and values with few pointers, of which any is nil", overrides=Q(c, {}, {"Ptrs": 4}))
    c.traces(drv, "ReflectTrace", "ReflectTrace.cfg", Q(c, 10000, 200000), "random types and values with up to 5 pointers", chunk=5000)


# apart: the current directory, which relative paths refer to, is that of the process
@prop("C25", "c25generator", "GeneratorTrace", apart=0)
def c25(c, drv):
    def explore(what, **overrides):
        c.explore(drv, "GeneratorMC", "GeneratorMC.cfg", "GeneratorTrace", what, overrides=overrides)

    explore("all sequences of few calls on trees that others left behind, one of whose directories becomes read only at any time", MaxOps=3)
    explore("all longer sequences with one name, one directory becoming read only", Names='{"x"}', Starts=Q(c, '{"old"}', '{"old", "deep"}'), MaxOps=Q(c, 4, 5))
    explore("all longer sequences with one name", Names='{"x"}', Starts=Q(c, '{"old"}', '{"old", "deep"}'), MaxOps=Q(c, 5, 6), Locks=0)
    if c.tier == "thorough":
        explore("all longer sequences", Locks=0)
    c.traces(drv, "GeneratorTrace", "GeneratorTrace.cfg", Q(c, 4000, 60000), "random histories of up to 28 calls on random trees", chunk=1000)


@prop("C26", "c26model", "ModelTrace")
def c26(c, drv):
    c.explore(drv, "ModelMC", "ModelMC.cfg", "ModelTrace", "every construction from few parts, of which any may be missing", overrides=Q(c, {}, {"Deep": 5}))
    c.traces(drv, "ModelTrace", "ModelTrace.cfg", Q(c, 6000, 100000), "random constructions", chunk=1500)
