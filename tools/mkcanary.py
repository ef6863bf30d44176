#!/usr/bin/env python3
"""Writes spec/canary/*.ndjson: traces which the trace specifications must reject, each with the reason.
Every validation appends them to the recorded traces; an accepted canary makes the check fail (exit 2)."""
import copy, json, os

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "canary")
Z8 = [0] * 8
INT = lambda n: ["int", 0, [n]]
F = {1: [0, 0, 0, 0, 0, 0, 240, 63], 2: [0, 0, 0, 0, 0, 0, 0, 64]}
NI = ["int", 0, []]


def conv(p, **kw):
    c = {"p": p, "b": True, "i16": NI, "u16": NI, "i64": NI, "u64": NI, "f64": ["flt", Z8], "f32": ["flt", Z8],
         "s": [], "d": [], "a": False, "o": False}
    c.update(kw)
    return c


def num(p, n):
    return conv(p, i16=INT(n), u16=INT(n), i64=INT(n), u64=INT(n), f64=["flt", F[n]], f32=["flt", F[n]])


# [1, {"k": 2, "kk": "ab"}]
D = [66, 107, 107, 0, 66, 97, 98, 0, 112, 2, 65, 107, 0, 2, 128, 7, 128, 6, 96, 2, 0, 1, 128, 7, 128, 3]
T = ["arr", [INT(1), ["dict", [[[107], INT(2)], [[107, 107], ["str", [97, 98]]]]]]]


def good():
    return [["new", []], ["ba", 2, ["ok"]], ["wv", INT(1), ["ok"]], ["bd", ["ok"]], ["wk", [107], ["ok"]], ["wv", INT(2), ["ok"]],
            ["wk", [107, 107], ["ok"]], ["wv", ["str", [97, 98]], ["ok"]], ["ed", ["ok"]], ["ea", ["ok"]],
            ["fin", {"d": list(D), "sk": [], "res": ["ok"], "r": {
                "walks": [copy.deepcopy(T)],
                "dq": [{"p": [2], "len": 2, "emp": False, "first": 0, "hints": [[2, 2], [1, 1], [0, 0]],
                        "g": [[[107], 0, 1, 0, 1, 0], [[107, 107], 1, 1, 1, 1, 1], [[97], -1, 0, -1, 0, -2]]}],
                "aq": [{"p": [], "len": 2, "emp": False, "ilen": 2, "hints": [[2, 2], [1, 1], [0, 0]],
                        "g": [[0, 0, 0], [1, 1, 1], [2, -1, -2]]}],
                "cv": [num([1], 1), num([2, 1], 2)]}}],
            ["finv", copy.deepcopy(T)]]


def fin(ev):
    return next(e for e in ev if e[0] == "fin")[1]


def codec():
    out = []

    def add(why, f):
        ev = good()
        r = f(ev)
        out.append({"why": why, "n": "canary", "ev": r if r is not None else ev})

    def at(i, v):
        def f(ev):
            ev[i][-1] = v
        return f

    add("wrong-value", lambda ev: [["new", []], ["mac", [["{"], ["k", [97]], ["["], ["v", INT(1)], ["]"], ["k", [98]], ["v", INT(2)], [","], ["}"]]],
                                   ["finv", ["dict", [[[97], ["arr", [INT(1), INT(2)]]]]]]])
    add("legal-call-failed", at(2, ["err", "X"]))
    add("legal-call-failed", at(4, ["panic", "X"]))
    add("illegal-call-not-refused", lambda ev: ev.insert(5, ["wk", [108], ["ok"]]))
    add("illegal-call-not-refused", lambda ev: ev.insert(5, ["ed", ["panic", "x"]]))
    add("illegal-call-not-refused", lambda ev: ev.insert(1, ["wv", INT(1), ["ok"]]))
    add("finish-failed", lambda ev: fin(ev).update(res=["err", "X"]))
    add("wrong-document", lambda ev: ev[7].__setitem__(1, ["str", [97, 99]]))
    add("wrong-document", lambda ev: ev[2].__setitem__(1, INT(2)))
    add("wrong-document", lambda ev: ev[6].__setitem__(1, [107, 108]))
    add("not-appended", lambda ev: ev[0].__setitem__(1, [1, 2]))
    add("not-well-formed", lambda ev: fin(ev)["d"].__setitem__(25, 33))
    add("not-well-formed", lambda ev: fin(ev)["d"].__setitem__(15, 30))
    add("walk", lambda ev: fin(ev)["r"]["walks"][0][1].__setitem__(0, INT(2)))
    add("walk", lambda ev: fin(ev)["r"]["walks"][0][1][1][1].reverse())
    dq = lambda ev: fin(ev)["r"]["dq"][0]
    aq = lambda ev: fin(ev)["r"]["aq"][0]
    cv = lambda ev: fin(ev)["r"]["cv"]
    add("dict-len", lambda ev: dq(ev).update(len=3))
    add("dict-get", lambda ev: dq(ev)["g"][1].__setitem__(1, 0))
    add("dict-contains", lambda ev: dq(ev)["g"][2].__setitem__(2, 1))
    add("dict-get-with-shared-keys", lambda ev: dq(ev)["g"][1].__setitem__(3, -1))
    add("dict-contains-with-shared-keys", lambda ev: dq(ev)["g"][0].__setitem__(4, 0))
    add("dict-index", lambda ev: dq(ev)["g"][2].__setitem__(5, 1))
    add("dict-size-hint", lambda ev: dq(ev)["hints"].__setitem__(1, [2, 2]))
    add("array-len", lambda ev: aq(ev).update(len=1))
    add("array-is-empty", lambda ev: aq(ev).update(emp=True))
    add("array-size-hint", lambda ev: aq(ev).update(hints=[[2, 2], [1, 1]]))
    add("array-get", lambda ev: aq(ev)["g"][2].__setitem__(1, 1))
    add("array-index", lambda ev: aq(ev)["g"][1].__setitem__(2, 0))
    add("to-bool", lambda ev: cv(ev)[0].update(b=False))
    add("to-short", lambda ev: cv(ev)[0].update(i16=INT(2)))
    add("to-int", lambda ev: cv(ev)[1].update(i64=NI))
    add("to-double", lambda ev: cv(ev)[1].update(f64=["flt", F[1]]))
    add("to-str", lambda ev: cv(ev)[1].update(s=[97]))
    add("as-array", lambda ev: cv(ev)[1].update(a=True))
    add("wrong-value", lambda ev: ev[11][1][1].__setitem__(0, INT(2)))

    # a 32-bit float which is to be had as one of 64 bits, and the other way round
    def single(tag, kind):
        t = ["arr", [[kind, F[1]]]]
        d = [tag, 0, 0, 0, 128, 63, 96, 1, 128, 4, 128, 2]
        return lambda ev: [["new", []], ["ba", 1, ["ok"]], ["wv", [kind, F[1]], ["ok"]], ["ea", ["ok"]],
                           ["fin", {"d": d, "sk": [], "res": ["ok"], "r": {"walks": [t], "dq": [], "aq": [], "cv": []}}]]
    add("wrong-document", single(36, "sgl"))
    add("wrong-document", single(32, "flt"))

    doc = lambda d, res: [["doc", {"d": d, "sk": [], "res": res, "r": {"walks": [], "dq": [], "aq": [], "cv": []}}]]
    add("panicked", lambda ev: doc(D, ["panic", "x"]))
    add("invalid-accepted", lambda ev: doc([128, 5], ["ok"]))
    add("invalid-accepted", lambda ev: doc(D[:25], ["ok"]))
    add("well-formed-rejected", lambda ev: doc(D, ["err", "X"]))
    add("well-formed-rejected", lambda ev: [["fz", D, 0, []]])
    add("invalid-accepted", lambda ev: [["fz", [128, 5], 1, [NI]]])
    add("wrong-reading", lambda ev: [["fz", [0, 1], 1, [INT(2)]]])
    add("validation-panicked", lambda ev: [["fz", [128, 5], 2, []]])
    add("reading-panicked", lambda ev: [["fz", D, 3, []]])
    add("reading-depends-on-the-place", lambda ev: [["fz", D, 4, []]])
    return out


def shared():
    a, b = [97], [98]
    base = [["new"], ["ins", 1, a, 0], ["ins", 1, b, 1], ["ins", 1, a, 0], ["ins", 1, [32], -1], ["enc", 1, b, 1], ["can", 1, b, True],
            ["dec", 1, 0, [a]], ["len", 1, 2, False], ["iter", 1, [[a, 0], [b, 1]]], ["clone", 1], ["save", 1, "bytes", 0],
            ["insm", 2, [[99], a], [2, 0]], ["len", 2, 3, False], ["len", 1, 2, False], ["len", 3, 2, False]]
    out = []

    def add(why, f):
        ev = copy.deepcopy(base)
        f(ev)
        out.append({"why": why, "n": "canary", "ev": ev})

    s = lambda i, j, v: (lambda ev: ev[i].__setitem__(j, v))
    add("insert", s(2, 3, 0))
    add("insert", s(3, 3, 2))
    add("insert", s(4, 3, 2))
    add("insert", s(4, 3, -2))
    add("encode", s(5, 3, -1))
    add("can-add", s(6, 3, False))
    add("decode", s(7, 3, [b]))
    add("decode", s(7, 2, 2))
    add("len", s(8, 2, 1))
    add("is-empty", s(8, 3, True))
    add("iter", s(9, 2, [[a, 0], [b, 0]]))
    add("save-and-restore", s(11, 3, -1))
    add("insert-many", s(12, 3, [2, 2]))
    add("len", s(14, 2, 3))
    add("len", s(15, 2, 3))
    add("restore-from-no-state", lambda ev: ev.append(["rest", [0, 1], [], 0]))
    add("read-with-shared-keys", lambda ev: ev.append(["rd", 1, [112, 1, 0, 0, 0, 5, 128, 3], ["dict", [[b, INT(5)]]]]))
    return out

def lines(base, cases):
    out = []
    for why, f in cases:
        ev = copy.deepcopy(base)
        f(ev)
        out.append({"why": why, "n": "canary", "ev": ev})
    return out


def scopes():
    base = [["new", 10, 20, True, True], ["new", 20, 20, False, False], ["new", 20, 30, False, False],
            ["find", [[9, 0], [10, 1], [19, 1], [20, 3], [30, 0]]], ["fsk", [[12, 1], [22, 0]]], ["obs", 1, 10, 20, True, True],
            ["eq", 1, 1, True], ["eq", 1, 3, False], ["clone", 1], ["drop", 1], ["get", [[11, 1]]], ["drop", 1], ["drop", 1],
            ["find", [[12, 0]]], ["rm", 3], ["find", [[22, 0]]], ["new", 8, 14, False, True], ["find", [[12, 4], [16, 0]]], ["newpanic"]]
    s = lambda i, j, v: (lambda ev: ev[i].__setitem__(j, v))
    look = lambda i, k, v: (lambda ev: ev[i][1][k].__setitem__(1, v))
    return lines(base, [
        ("lookup", look(3, 0, 1)), ("lookup", look(3, 2, 0)), ("lookup", look(3, 3, 2)), ("lookup", look(3, 1, -1)), ("lookup", look(3, 4, -2)),
        ("lookup-of-shared-keys", look(4, 0, 0)), ("lookup-of-shared-keys", look(4, 1, 3)),
        ("range", s(5, 3, 21)), ("data", s(5, 4, False)), ("root", s(5, 5, False)), ("equality", s(6, 3, False)), ("equality", s(7, 3, True)),
        ("lookup", look(10, 0, 0)), ("event-of-a-dead-scope", lambda ev: ev.insert(13, ["drop", 1])), ("lookup", look(13, 0, 1)),
        ("lookup", look(15, 0, 3)), ("memory-in-use-was-reused", s(16, 2, 25)), ("lookup", look(17, 0, 1)), ("lookup", look(17, 1, 1)),
        ("must-not-happen", lambda ev: ev.append(["bad", "x"])),
    ])


def lives():
    base = [["doc", list(D), []], ["mk", "S", 1, 7], ["mk", "A", 1, 8], ["mk", "D", 1, -1], ["root", 1, 7], ["walk", 3, copy.deepcopy(T)],
            ["data", 1, 7], ["bytes", 4, True], ["find", 4, 7], ["clone", 2, 8], ["drop", [1, 5]], ["find", 3, -1],
            ["live", [[7, True], [8, True]]], ["to", 3, "A", 7], ["walk", 7, copy.deepcopy(T)], ["drop", [2]], ["drop", [6, 4, 7]],
            ["live", [[7, False], [8, False]]], ["frees", 0]]
    # handles: 1 S, 2 A, 3 V, 4 B, 5 S (found), 6 A (clone), 7 A (converted)
    s = lambda i, j, v: (lambda ev: ev[i].__setitem__(j, v))
    return lines(base, [
        ("creation-gave-nothing", s(1, 3, -1)), ("creation-panicked", s(2, 3, -2)), ("creation-gave-something", s(3, 3, 9)),
        ("root-gave-nothing", s(4, 2, -1)), ("content-changed", lambda ev: ev[5][2][1].__setitem__(0, INT(2))), ("bytes-changed", s(7, 2, False)),
        ("lookup-gave-nothing", s(8, 2, -1)), ("lookup-gave-another-scope", s(8, 2, 8)), ("lookup-gave-something", s(11, 2, 7)),
        ("released-too-early", lambda ev: ev[12][1][0].__setitem__(1, False)), ("conversion-gave-nothing", s(13, 3, -1)),
        ("unknown-handle", s(15, 1, [1])), ("not-released", lambda ev: ev[17][1][1].__setitem__(1, True)), ("wrong-release", s(18, 1, 1)),
    ]) + lines(base[:15] + [
        ["cmp", "A", [2, 6, 7], [[1, 1, 0], [1, 1, 0], [0, 0, 1]], [[0, 0, 1], [0, 0, 1], [-1, -1, 0]], [2, 2], True],
        ["mk", "A", 1, 9],
        ["cmp", "A", [2, 7, 8], [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, -1], [-1, 0, -1], [1, 1, 0]], [3, 3], True],
        ["mk", "S", 1, 10], ["cmp", "S", [9], [[1]], [], [], True],
        ["empties", [["arr", []], ["arr", []], ["dict", []], ["dict", []]], True],
    ], [
        ("equality", lambda ev: ev[15][3][0].__setitem__(1, 0)), ("equality", lambda ev: ev[15][3][0].__setitem__(2, 1)),
        ("equality", lambda ev: ev[19][3][0].__setitem__(0, 0)),
        ("order-and-equality-differ", lambda ev: ev[15][4][0].__setitem__(1, 1)), ("order-not-antisymmetric", lambda ev: ev[15][4][2].__setitem__(1, 1)),
        ("order-not-antisymmetric", lambda ev: ev[15][4][2].__setitem__(1, 9)),
        ("order-not-transitive", lambda ev: (ev[17][4][1].__setitem__(2, 1), ev[17][4][2].__setitem__(1, -1))),
        ("order-changed", s(17, 4, [[0, -1, -1], [1, 0, -1], [1, 1, 0]])), ("number-of-different-handles", s(15, 5, [3, 2])),
        ("number-of-different-handles", s(15, 5, [2, 3])), ("not-found-in-a-set", s(17, 6, False)), ("unknown-handle", s(15, 2, [2, 3, 7])),
        ("empty-is-not-empty", lambda ev: ev[20][1].__setitem__(3, ["arr", []])), ("empty-is-not-empty", s(20, 2, False)),
    ])


def conc():
    good = [[["new", 1, 10, 20, True, 1, 4], ["find", 11, 1, 5, 6], ["rm", 1, 22, 23], ["drop", 1, 26, 27]],
            [["find", 12, 1, 2, 9], ["fsk", 12, 1, 10, 11], ["drop", 1, 24, 25]],
            [["find", 25, 0, 11, 12], ["fail", 0, 13, 14], ["drop", 1, 40, 41]]]
    out = []

    def add(f):
        ev = copy.deepcopy(good)
        f(ev)
        out.append({"why": "order", "n": "canary", "max": 2, "ev": ev})

    add(lambda ev: ev[0][1].__setitem__(2, 0))
    add(lambda ev: ev[1][1].__setitem__(2, 0))
    add(lambda ev: ev[2][0].__setitem__(2, 1))
    add(lambda ev: ev[1].append(["find", 12, 1, 28, 29]))     # after it was removed
    add(lambda ev: ev[2].append(["drop", 1, 42, 43]))          # a handle too many
    add(lambda ev: ev[1][0].__setitem__(slice(3, 5), [0, 0]))  # before it was created
    add(lambda ev: ev[2].append(["bad", 0, 42, 43]))
    add(lambda ev: ev[2][0].__setitem__(slice(0, 3), ["find", 15, 0]))
    return out

def mutable():
    hint = lambda n: [[max(n - k, 0), max(n - k, 0)] for k in range(n + 3)]
    S1 = ["str", [97]]
    inner = lambda v: ["md", 1, False, [[[107], 1, 0, 0, v]], hint(1), [[[107], 1, 0, 0, 1, 1], [[98], 0, 0, 0, 0, 0]]]
    outer = lambda v, n: ["ma", 3, False, [[1, 0, 0, INT(1)], [0, 0, 1, n], [1, 0, 0, v]], hint(3),
                          [[1, 0, 0, 1], [0, 0, 1, 0], [1, 0, 0, 1], [0, 0, 0, 0], [0, 0, 0, 0]]]
    D1 = [66, 107, 107, 0, 66, 97, 98, 0, 112, 2, 65, 107, 0, 2, 128, 7, 128, 6, 96, 2, 0, 1, 128, 7, 128, 3]
    T1 = copy.deepcopy(T)
    # [1, {"k": 2, "kk": "ab"}] copied, the entry kk removed, then a string appended; its clone stays
    base = [["doc", D1, []], ["copy", "a", 1, [], True], ["copy", "d", 1, [], False], ["clone", 1, [], True],
            ["op", 1, [["i", 1, "d"]], ["rmk", [107, 107]], "ok"], ["op", 1, [], ["push", S1], "ok"],
            ["dump", 1, outer(S1, inner(INT(2)))], ["op", 1, [], ["set", 9, S1], "panic"], ["op", 1, [], ["rm", 9], "ok"],
            ["op", 1, [["i", 0, "a"]], ["push", S1], "none"], ["walk", 1, T1],
            ["new", "d"], ["op", 3, [], ["ins", [107], INT(3)], "ok"], ["op", 1, [], ["setc", 1, "d", ["h", 3]], "ok"],
            ["dump", 1, outer(S1, inner(INT(3)))], ["op", 1, [], ["rm", 0], "ok"],
            ["clone", 1, [["i", 0, "d"]], True], ["dump", 4, inner(INT(3))], ["drop", 1], ["dump", 4, inner(INT(3))]]
    s = lambda i, j, v: (lambda ev: ev[i].__setitem__(j, v))
    d = lambda ev: ev[6][2]
    sub = lambda ev: ev[6][2][3][1][3]
    return lines(base, [
        ("copy-of-kind", s(1, 4, False)), ("copy-of-kind", s(2, 4, True)), ("reaching-a-nested-collection", s(3, 3, False)),
        ("panicked", s(4, 4, "panic")), ("result", s(4, 4, "none")), ("result", s(7, 4, "ok")), ("panicked", s(8, 4, "panic")), ("result", s(9, 4, "ok")),
        ("length", lambda ev: d(ev).__setitem__(1, 2)), ("is-empty", lambda ev: d(ev).__setitem__(2, True)),
        ("size-hint", lambda ev: d(ev)[4][1].__setitem__(1, 3)), ("iteration", lambda ev: d(ev)[3].pop()),
        ("kind", lambda ev: d(ev)[3][1].__setitem__(1, 1)), ("value", lambda ev: d(ev)[3][0].__setitem__(3, INT(2))),
        ("read-by-index", lambda ev: d(ev)[5][1].__setitem__(2, 0)), ("read-by-index", lambda ev: d(ev)[5][3].__setitem__(0, -1)),
        ("read-by-index", lambda ev: d(ev)[5][0].__setitem__(3, 0)),
        ("length", lambda ev: sub(ev).__setitem__(1, 2)), ("iteration", lambda ev: sub(ev)[3][0].__setitem__(0, [98])),
        ("value", lambda ev: sub(ev)[3][0].__setitem__(4, INT(3))), ("read-by-key", lambda ev: sub(ev)[5][0].__setitem__(4, 0)),
        ("read-by-key", lambda ev: sub(ev)[5][1].__setitem__(4, 1)), ("size-hint", lambda ev: sub(ev)[4][0].__setitem__(0, 2)),
        ("source-changed", lambda ev: ev[10][2][1].__setitem__(0, INT(2))), ("value", lambda ev: ev[14].__setitem__(2, outer(S1, inner(INT(2))))),
        ("value", lambda ev: ev[17].__setitem__(2, inner(INT(2)))), ("unknown-handle", lambda ev: ev.append(["drop", 1])),
        ("must-not-happen", lambda ev: ev.append(["bad", "x"])),
        # the clone did not follow the change of the first
        ("length", lambda ev: ev.insert(7, ["dump", 2, outer(S1, inner(INT(2)))])),
    ])


def serde():
    # (1, {"k": 2, "kk": "ab"})
    k, kk = [107], [107, 107]
    T2 = ["tuple", [["u", 2], ["struct", [[k, ["i", 1]], [kk, ["string"]]]]]]
    V2 = ["arr", [INT(1), ["arr", [INT(2), ["str", [97, 98]]]]]]
    base = [["ser", T2, V2, "ok", list(D), [], ["ok", copy.deepcopy(V2)]],
            ["ser", ["opt", ["u", 2]], ["some", INT(2)], "not-collection", [], [], ["err"]],
            ["ser", ["map", ["bool"], ["unit"]], ["map", [[["bool", True], ["unit"]]]], "key:Bool", [], [], ["err"]],
            ["ser", ["seq", ["i", 16]], ["arr", [["int", 0, [7]]]], "other", [], [], ["err"]],
            ["de", list(D), [], ["seq", ["any"]], ["ok", copy.deepcopy(T)]],
            ["de", list(D), [], T2, ["ok", copy.deepcopy(V2)]],
            ["de", list(D), [], ["seq", ["u", 2]], ["err"]],
            ["de", [128, 5], [], ["seq", ["u", 2]], ["err"]],
            ["de", [96, 1, 48, 0, 128, 2], [], ["seq", ["opt", ["unit"]]], ["ok", ["arr", [["none"]]]]],
            ["rt", "Vec<u8>", "ok", [96, 1, 0, 5, 128, 2], [], True]]
    base[4][4][1] = ["arr", base[4][4][1][1]]
    s = lambda i, j, v: (lambda ev: ev[i].__setitem__(j, v))
    return lines(base, [
        ("panicked", s(0, 3, "panic")), ("panicked", s(0, 6, ["panic"])), ("panicked", s(6, 4, ["panic"])),
        ("refused", s(0, 3, "other")), ("not-refused", s(1, 3, "ok")), ("not-refused", s(2, 3, "ok")),
        ("wrong-error", s(1, 3, "key:Bool")), ("wrong-error", s(2, 3, "key:Int")), ("wrong-error", s(3, 3, "not-collection")),
        ("not-well-formed", lambda ev: ev[0][4].__setitem__(25, 33)), ("wrong-document", lambda ev: ev[0][4].__setitem__(13, 3)),
        ("wrong-document", lambda ev: ev[0][4].__setitem__(1, 108)), ("not-read-back", s(0, 6, ["err"])),
        ("read-back-differs", lambda ev: ev[0][6][1][1].__setitem__(0, INT(2))),
        ("does-not-agree", lambda ev: ev[4][4][1][1].pop()), ("does-not-agree", lambda ev: ev[5][4][1][1].__setitem__(0, INT(2))),
        ("must-be-read", s(4, 4, ["err"])), ("must-be-read", s(5, 4, ["err"])), ("invalid-accepted", s(7, 4, ["ok", ["arr", []]])),
        ("does-not-agree", s(8, 4, ["ok", ["arr", [["some", ["unit"]]]]])),
        ("does-not-agree", s(6, 4, ["ok", ["arr", [INT(1), INT(0)]]])),
        ("refused", s(9, 2, "err")), ("read-back-differs", s(9, 5, False)), ("not-well-formed", lambda ev: ev[9][3].__setitem__(1, 2)),
        ("must-not-happen", lambda ev: ev.append(["bad", "x"])),
    ])


def twice():
    # [1, {"k": 2, "kk": "ab"}], after a call which was refused; then the same again, after other bytes
    calls = [c for c in good() if c[0] not in ("new", "fin", "finv")]
    for c in calls:
        if c[0] == "ba":
            del c[1]
    pre = [7, 7, 7]
    base = [["enc", [], []], ["wv", INT(5), ["err", "CollectionNotOpen"]]] + copy.deepcopy(calls) + [["end", list(D), []]] \
        + [["enc", pre, []]] + copy.deepcopy(calls) + [["end", pre + [0] + D, []]] \
        + [["enc", [], [[]]], ["bd", ["ok"]], ["wk", [107, 107], ["ok"]], ["wv", INT(5), ["ok"]], ["end", [112, 1, 0, 0, 0, 5, 128, 3], [[[107, 107]]]]] * 2 \
        + [["val", ["u", 2], INT(5), 0, []], ["val", ["seq", ["u", 2]], ["arr", [INT(5)]], 0, [[[96, 1, 0, 5, 128, 2], []]]]] * 2
    base = [copy.deepcopy(e) for e in base]
    e1 = next(i for i, e in enumerate(base) if e[0] == "end")
    e2 = next(i for i, e in enumerate(base) if e[0] == "end" and i > e1)
    e4 = max(i for i, e in enumerate(base) if e[0] == "end")
    n = len(base)
    s = lambda i, j, v: (lambda ev: ev[i].__setitem__(j, v))
    return lines(base, [
        ("another-document", lambda ev: ev[e2][1].__setitem__(9, 1)), ("another-document", lambda ev: ev[e2][1].extend([0, 0])),
        ("another-document", lambda ev: ev[e1][1].__setitem__(3, 1)), ("another-document", s(e4, 2, [[[107, 107], [107]]])),
        ("not-appended", lambda ev: ev[e2][1].__setitem__(0, 8)), ("not-appended", lambda ev: ev[e2][1].__setitem__(3, 1)),
        ("no-document", lambda ev: ev.__setitem__(e2, ["panic"])), ("another-document", lambda ev: ev.__setitem__(e1, ["panic"])),
        ("refused-now", s(e1 + 3, 2, ["err", "CollectionNotOpen"])), ("refused-now", s(e1 + 2, 1, ["panic"])),
        ("another-serialization", s(n - 1, 4, [])), ("another-serialization", s(n - 2, 4, [[[96, 1, 0, 5, 128, 2], []]])),
        ("another-serialization", lambda ev: ev[n - 1][4][0][0].__setitem__(3, 6)),
    ])


def giant():
    # {"g..": 1, "<a large key>": [data]}, with refusals: of illegal calls, and of one which would make it too large
    a, k, d, huge = [0, 20, 103], [500, 3, 0], [523, 1047000, 0], [4096, 7, 0]
    base = [["new"], ["bd", ["ok"]], ["wk", a, ["ok"]], ["wk", a, ["err", "DictWaitingForValue"]], ["wv", ["int", 1], ["ok"]],
            ["wk", k, ["ok"]], ["ba", ["ok"]], ["wv", ["data", d], ["ok"]], ["wv", ["str", huge], ["err", "PointerTooLarge"]],
            ["wv", ["str", a], ["err", "PointerTooLarge"]], ["ea", ["ok"]],
            ["fin", [["dict", [[k, ["arr", [["data", d]]]], [a, ["int", 1]]]]]]]
    base.insert(1, ["ramp", 65537, "arr bytes", [65537, 65537, 65537, 0, 65537]])
    s = lambda i, j, v: (lambda ev: ev[i].__setitem__(j, v))
    n = len(base) - 1
    return lines(base, [
        ("elements", lambda ev: ev[1][3].__setitem__(2, 65536)), ("elements", lambda ev: ev[1][3].__setitem__(3, 1)),
        ("elements", s(1, 3, ["panic"])),
        ("another-document", s(n, 1, [])), ("another-document", s(n, 1, [["invalid"]])),
        ("another-document", lambda ev: ev[n][1][0][1].pop()), ("another-document", lambda ev: ev[n][1][0][1][0].__setitem__(0, [500, 2, 0])),
        ("another-document", lambda ev: ev[n][1][0][1][0][1][1].append(["str", a])),
        ("panic", s(11, 1, ["panic", "Pointer unexpectedly large"])), ("refused", s(11, 1, ["err", "PointerTooLarge"])),
        ("refused", s(8, 2, ["err", "PointerTooLarge"])), ("refused", s(9, 2, ["err", "CollectionNotOpen"])),
        ("refused", s(5, 2, ["err", "PointerTooLarge"])), ("accepted", s(4, 2, ["ok"])),
    ])


def write(name, lines):
    with open(os.path.join(OUT, name + ".ndjson"), "w") as f:
        for l in lines:
            f.write(json.dumps(l, separators=(",", ":")) + "\n")


if __name__ == "__main__":
    os.makedirs(OUT, exist_ok=True)
    write("TraceCodec", codec())
    write("TraceShared", shared())
    write("TraceScopes", scopes())
    write("TraceLives", lives())
    write("TraceConc", conc())
    write("TraceMutable", mutable())
    write("TraceSerde", serde())
    write("TraceTwice", twice())
    write("TraceGiant", giant())
