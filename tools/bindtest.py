#!/usr/bin/env python3
"""Shows that the traces bind: corrupts one recorded observation per trace and lets every property judge it.

usage: tools/bindtest.py [SCENARIOS PER SUITE]      (after bin/setup; needs a few minutes)
Prints for every kind of scenario, event and field how many corruptions were noticed by which properties, and those
noticed by none. Development tool, no check runs it."""
import sys, os, json, random, subprocess, re, collections, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.environ.get("SPECDIR", ROOT + "/spec")
BIN = ROOT + "/harness/target/debug/uxf-harness"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GENS = ["file-good", "file-bad", "walk-good", "walk-bad", "res-plain", "res-shards", "builder", "add", "symlink", "pb", "val", "tree", "agree", "hist"]
N = int(sys.argv[1]) if len(sys.argv) > 1 else 150
VIEWS = ["C%02d" % i for i in range(1, 23)]
rnd = random.Random(5)


def leaves(x, path=()):
    """paths to everything which can be changed"""
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        yield path
        for i, v in enumerate(x):
            if isinstance(v, (dict, list)) or i < 3:
                yield from leaves(v, path + (i,))
    elif path[-1:] not in (("k",), ("new",)) and not isinstance(x, str) or path[-1:] == ("e",):
        yield path


def corrupt(o, path):
    x = o
    for k in path[:-1]:
        x = x[k]
    k = path[-1]
    v = x[k]
    if isinstance(v, bool):
        x[k] = not v
    elif isinstance(v, int):
        x[k] = v + rnd.choice([1, -1]) if v > 0 else 1
    elif isinstance(v, str):
        x[k] = v + "X"
    elif isinstance(v, list):
        if not v:
            return False        # of unknown element type
        x[k] = v[:-1] if len(v) > 1 and rnd.random() < 0.5 else v + [v[-1]]
    return True


def name(path):
    return ".".join(str(p) for p in path if not isinstance(p, int))


def main():
    tmp = tempfile.mkdtemp(prefix="bindtest")
    lines, info = {}, {}
    n = 0
    for g in GENS:
        subprocess.run([BIN, "drive", g, "77", str(N), "1", tmp + "/t"], check=True, stdout=subprocess.DEVNULL)
        cur, scns = [], []
        for l in open(tmp + "/t.0.ndjson"):
            cur.append(json.loads(l))
            if cur[-1]["ev"] == "end":
                scns.append(cur)
                cur = []
        for t in scns:
            evs = [i for i, e in enumerate(t) if "o" in e]
            if not evs:
                continue
            # prefer rare fields: pick by field name first
            by = collections.defaultdict(list)
            for i in evs:
                for p in leaves(t[i]["o"]):
                    if p:
                        by[(t[i]["ev"], name(p))].append((i, p))
            for _ in range(3 if by else 0):
                key = rnd.choice(sorted(by))
                i, p = rnd.choice(by[key])
                c = json.loads(json.dumps(t))
                if not corrupt(c[i]["o"], p):
                    continue
                n += 1
                c[0]["id"] = n
                info[n] = (g, key[0], key[1], t[i]["o"].get("k"))
                lines[n] = "".join(json.dumps(e) + "\n" for e in c)
    for k in range(8):
        with open("%s/c%d.ndjson" % (tmp, k), "w") as f:
            for i in sorted(lines):
                if i % 8 == k:
                    f.write(lines[i])

    def judge(x):
        v, k = x
        env = dict(os.environ, VIEW=v, TRACE="%s/c%d.ndjson" % (tmp, k))
        p = subprocess.run(["java", "-Xmx2g", "-Xss32m", "-XX:+UseSerialGC", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-lncheck", "final",
                            "-metadir", "%s/m-%s-%d" % (tmp, v, k), "-config", "Trace.cfg", "Trace.tla"], cwd=SPEC, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if "SUMMARY" not in p.stdout:
            print("JUDGE FAILED", v, k, p.stdout[-1500:])
        return v, [int(a) for a in re.findall(r'<<\s*"VIOL", (\d+),', p.stdout)], [int(a) for a in re.findall(r'<<\s*"OFF", (\d+),', p.stdout)]

    caught, off = collections.defaultdict(set), collections.defaultdict(int)
    with ThreadPoolExecutor(7) as ex:
        for v, ids, offs in ex.map(judge, [(v, k) for v in VIEWS for k in range(8)]):
            for i in ids:
                caught[i].add(v)
            for i in offs:
                off[i] += 1
    table = collections.defaultdict(lambda: [0, 0, collections.Counter()])
    for i, key in info.items():
        row = table[key]
        row[0] += 1
        row[1] += bool(caught[i])
        row[2].update(caught[i])
    total = sum(r[0] for r in table.values())
    print("%d corruptions, %d noticed" % (total, sum(r[1] for r in table.values())))
    for key, (a, b, c) in sorted(table.items()):
        print("%-12s %-8s %-28s %-8s %3d/%3d  %s" % (*key, b, a, " ".join("%s:%d" % x for x in sorted(c.items()))))
    for i, key in info.items():
        if not caught[i] and "-v" in sys.argv:
            print("UNNOTICED", key, lines[i][:3000])
    shutil.rmtree(tmp)


main()
