"""Which models, enumerated and random suites decide which property."""

CODE = '{{"L","R","Z"}}'
ALLPOL = '{{"L","R","Z"},{},{"Z"},{"L"},{"R"},{"L","Z"},{"R","Z"},{"L","R"}}'


def reader(mode, leaf, inner, fan, pols):
    return {"MODE": '"%s"' % mode, "MaxLeaf": leaf, "Inner": inner, "MaxFan": fan, "POLS": pols}


def walker(mode, conts, links, deep="FALSE"):
    return {"MODE": '"%s"' % mode, "Conts": conts, "MaxLinks": links, "Deep": deep}


def resolve(mode, conts, links):
    return {"MODE": '"%s"' % mode, "Conts": conts, "MaxLinks": links}


def builder(ops, paths, wraps="{TRUE, FALSE}"):
    return {"MaxOps": ops, "PATHS": '"%s"' % paths, "WRAPS": wraps}


def adder(cs, bf, length, push):
    return {"CSS": cs, "BFS": bf, "MaxLen": length, "MaxPush": push}


def cache(runs, same, modes, steps):
    return {"RUNS": runs, "SAME": same, "MODES": modes, "CLEARED": "TRUE", "MaxSteps": steps}


def tree(ents, length):
    return {"MaxEnts": ents, "MaxFile": length, "CS": 1, "BF": 2}


def decode(mode, n):
    return {"MODE": '"%s"' % mode, "MaxBytes": n}


def jobs(pid, tier):
    q = tier != "thorough"
    models, suites = [], []

    def m(module, name, constants, invariants, **kw):
        models.append(dict(module=module, name=name, constants=constants, invariants=invariants, **kw))

    def e(name, module, constants, limit=None, **kw):
        suites.append(dict(name=name, module=module, constants=constants, limit=limit, **kw))

    def r(gen, nq, nt, **kw):
        # every property explores different seeds
        suites.append(dict(name="rnd-" + gen, gen=gen, count=nq if q else nt, salt=int(pid[1:]), **kw))

    RI = ["Usable", "GoodInv", "BadInv"]
    if pid in ("C05", "C11", "C17"):
        m("MC_Reader", "good", reader("good", 2, 2, 2, ALLPOL) if q else reader("good", 2, 3, 2, ALLPOL), RI)
        e("enum-file-good", "MC_Reader", reader("good", 2, 2, 2, CODE) if q else reader("good", 2, 2, 3, CODE),
          6000 if q else 150000)
        r("file-good", 6000, 200000)
    if pid in ("C06", "C11", "C17"):
        m("MC_Reader", "bad", reader("bad", 2, 2, 2, CODE) if q else reader("bad", 2, 3, 2, CODE), RI)
        e("enum-file-bad", "MC_Reader", reader("bad", 2, 2, 2, CODE) if q else reader("bad", 2, 3, 2, CODE),
          8000 if q else 150000)
        r("file-bad", 8000, 200000)
    WI = ["WalkInv", "UsableInv"]
    if pid in ("C10", "C11", "C18"):
        m("MC_Walker", "good", walker("good", 2, 2), WI)
        e("enum-walk-good", "MC_Walker", walker("good", 2, 2), 6000 if q else None)
        r("walk-good", 2400 if pid == "C18" else 4000, 100000)
    if pid in ("C10", "C11", "C17", "C19"):
        m("MC_Walker", "bad", walker("bad", 2, 2) if q else walker("bad", 2, 2, "TRUE"), WI)
        e("enum-walk-bad", "MC_Walker", walker("bad", 2, 2) if q else walker("bad", 2, 2, "TRUE"), 4000 if q else 100000)
    if pid in ("C06", "C10", "C11", "C17", "C19"):
        r("walk-bad", 3000, 100000)
    if pid == "C18":
        r("file-good", 3000, 100000)
        r("file-bad", 3000, 50000)
    if pid == "C19":
        e("enum-file-bad", "MC_Reader", reader("bad", 2, 2, 2, CODE), 3000 if q else 50000)
        r("file-bad", 4000, 100000)
    LI = ["PlainInv", "ShardInv", "UsableInv"]
    if pid in ("C12",):
        m("MC_Resolve", "plain", resolve("plain", 1, 3), LI)
        e("enum-plain", "MC_Resolve", resolve("plain", 1, 2) if q else resolve("plain", 1, 3), None)
        r("res-plain", 8000, 200000)
    if pid in ("C13",):
        m("MC_Resolve", "shards", resolve("shards", 2, 2) if q else resolve("shards", 3, 2), LI)
        e("enum-shards", "MC_Resolve", resolve("shards", 2, 2) if q else resolve("shards", 3, 2), None)
    if pid in ("C13", "C17", "C19"):
        m("MC_Resolve", "bad", resolve("bad", 1, 1) if q else resolve("bad", 2, 1), LI)
        e("enum-shards-bad", "MC_Resolve", resolve("bad", 1, 1) if q else resolve("bad", 2, 1), None if q else 100000)
        r("res-shards", 6000, 200000)
    if pid in ("C17", "C19"):
        r("res-plain", 4000, 100000)
    BI = ["EntsInv", "IdsInv", "IterInv"]
    if pid in ("C07", "C08", "C09"):
        if pid != "C08":
            m("MC_Builder", "deep", builder(3, "deep") if q else builder(4, "deep"), BI)
        if pid != "C09":
            m("MC_Builder", "tiny", builder(3, "tiny") if q else builder(4, "tiny"), BI)
        if pid == "C08":
            m("MC_Builder", "bad", builder(3, "bad"), BI)
            e("enum-build-bad", "MC_Builder", builder(2, "bad") if q else builder(3, "bad"), None)
        e("enum-build-tiny", "MC_Builder", builder(3, "tiny"), 4000 if q else None)
        e("enum-build-deep", "MC_Builder", builder(3, "deep"), 3000 if q else None)
    if pid in ("C07", "C08", "C09", "C18"):
        r("builder", 3000 if pid != "C18" else 1500, 60000)
    AI = ["PushInv", "LayoutInv", "DoneInv", "SplitInv", "ReadInv", "LenInv"]
    if pid in ("C01", "C02", "C03", "C04"):
        m("MC_Adder", "all", adder("{1, 2, 3, 5}", "{2, 3, 4, 5}", 30, 6) if q else adder("{1, 2, 3, 5}", "{2, 3, 4, 5}", 60, 8), AI)
        e("enum-add", "MC_Adder", adder("{1, 2, 3}", "{2, 3}", 6, 2) if q else adder("{1, 2, 3}", "{2, 3}", 7, 3), 4000 if q else 60000)
        r("add", 3000, 60000)
    PI = ["RoundInv", "BytesInv", "WriteInv"]
    if pid == "C21":
        m("MC_Decode", "values", decode("values", 0), PI)
        e("enum-values", "MC_Decode", decode("values", 0), None)
        e("enum-nodes", "MC_Decode", decode("nodes", 0), None)
        m("MC_Decode", "bytes", decode("bytes", 4) if q else decode("bytes", 5), PI)
        e("enum-bytes", "MC_Decode", decode("bytes", 4) if q else decode("bytes", 5), 2500 if q else None)
        r("val", 6000, 100000)
        r("pb", 6000, 100000)
    if pid in ("C16", "C17", "C21"):
        m("MC_Decode", "unknown", decode("unknown", 0), PI)
        e("enum-unknown", "MC_Decode", decode("unknown", 0), None)
    if pid in ("C15", "C16"):
        m("MC_Decode", "nodes", decode("nodes", 0), PI)
        e("enum-nodes", "MC_Decode", decode("nodes", 0), None)
    if pid == "C16":
        m("MC_Decode", "bytes", decode("bytes", 4) if q else decode("bytes", 5), PI)
    if pid in ("C16", "C17"):
        e("enum-bytes", "MC_Decode", decode("bytes", 4) if q else decode("bytes", 5), None)
    if pid == "C15":
        m("MC_Adder", "lens", adder("{1, 2, 3}", "{2, 3}", 16, 3), AI)
        e("enum-add", "MC_Adder", adder("{1, 2, 3}", "{2, 3}", 6, 2), 1500 if q else None)
        e("enum-build-tiny", "MC_Builder", builder(3, "tiny"), 2000 if q else None)
        r("add", 1500, 30000)
        r("builder", 2000, 40000)
        r("symlink", 6000, 100000)
        r("pb", 3000, 100000)
    if pid in ("C16", "C17"):
        r("pb", 12000 if pid == "C16" else 6000, 200000)
    RAW = {"C17": 6000, "C06": 3000, "C19": 4000, "C12": 2000, "C13": 2000, "C10": 2000, "C11": 2000, "C14": 2000}
    if pid in RAW:
        r("raw", RAW[pid], 100000)
    if pid == "C14":
        CI = ["SameInv", "EmptyInv"]
        m("MC_Cache", "two", cache(2, "FALSE", "{0, 1, 2, 3}", 0), CI)
        if not q:
            m("MC_Cache", "three", cache(3, "FALSE", "{0, 1, 3}", 0), CI)
        e("enum-hist", "MC_Cache", cache(2, "TRUE", "{0}", 8) if q else cache(2, "FALSE", "{0, 1}", 6), 4000 if q else 60000)
        r("hist", 4000, 100000)
    if pid == "C20":
        m("MC_Tree", "whole", tree(2, 4) if q else tree(3, 3), ["WalkedInv", "ResolvedInv"])
        e("enum-tree", "MC_Tree", tree(2, 3) if q else tree(3, 2), 3000 if q else 60000)
    if pid in ("C20", "C18"):
        r("tree", 4000 if pid == "C20" else 800, 60000)
    if pid == "C22":
        GI = ["LookInv", "ReadInv", "NodeInv", "HitsInv"]
        m("MC_Agree", "good", walker("good", 2, 2), GI)
        m("MC_Agree", "bad", walker("bad", 2, 2) if q else walker("bad", 2, 2, "TRUE"), GI)
        e("enum-agree-good", "MC_Agree", walker("good", 2, 2), 3000 if q else None)
        e("enum-agree-bad", "MC_Agree", walker("bad", 2, 2) if q else walker("bad", 2, 2, "TRUE"), 3000 if q else 60000)
        r("agree", 9000, 150000)
    BIG = {"file-big": {"C05": 300, "C11": 75, "C17": 60, "C18": 40, "C06": 40},
           "walk-big": {"C10": 60, "C11": 40, "C17": 40, "C18": 40},
           "res-big": {"C12": 200, "C13": 160},
           "bld-big": {"C07": 36, "C08": 24, "C09": 40},
           "sym-big": {"C15": 16},
           "add-big": {"C01": 40, "C02": 40, "C03": 40, "C04": 40, "C15": 20},
           "pb-big": {"C16": 16, "C21": 16}, "val-big": {"C21": 16}, "agree-big": {"C22": 40}}
    for gen, counts in BIG.items():
        if pid in counts:
            r(gen, counts[pid], 40 * counts[pid], shards=8)
    return {"models": models, "suites": suites}


def assumptions(pid):
    return ["TLC, its CommunityModules and the JSON bridge are trusted",
            "the independent dag-pb/UnixFS encoder of the harness is trusted"]
