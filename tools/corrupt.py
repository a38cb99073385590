#!/usr/bin/env python3
"""Development tool: is every recorded field bound by the specification?  corrupt.py CONFORM OUT [SAMPLES] [SUITE-REGEX]

Records every suite with the driver CONFORM (built from /repo), changes one value in one record at a time (a number by
one, a flag to its opposite, a letter, an element left out or repeated) and validates the session with it, for the
property the suite belongs to and for all of them together. What the specification accepts all the same is written to
OUT for inspection: it is either an input chosen freely (an argument), or a hole."""
import concurrent.futures, json, os, random, re, subprocess, sys, glob, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks"))
CONFORM, OUT = sys.argv[1:3]
K = int(sys.argv[3]) if len(sys.argv) > 3 else 2
PAT = sys.argv[4] if len(sys.argv) > 4 else "."
import importlib.util
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks", "run.py")).read()
TRACES = eval(re.search(r"^TRACES = (\{.*?^\})", src, re.S | re.M).group(1))
SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
CP = ":".join(glob.glob("/opt/veriftools/tla/*.jar"))
W = "/tmp/corrupt"
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
rng = random.Random(5)


def leaves(v, path=()):
    if isinstance(v, dict):
        for k, x in v.items():
            yield from leaves(x, path + (k,))
    elif isinstance(v, list):
        yield path + ("[]",), None
        for i, x in enumerate(v):
            yield from leaves(x, path + (i,))
    else:
        yield path, v


def general(path, e):
    return e + "." + ".".join("#" if isinstance(p, int) else p for p in path)


def changed(rec, path):
    r = json.loads(json.dumps(rec))
    at = r
    if path[-1] == "[]":
        for p in path[:-1]:
            at = at[p]
        if not at:
            return None
        if rng.random() < .5:
            del at[rng.randrange(len(at))]
        else:
            at.append(at[0])
        return r
    for p in path[:-1]:
        at = at[p]
    v = at[path[-1]]
    if isinstance(v, bool) or v is None:
        return None
    if isinstance(v, int):
        at[path[-1]] = 1 - v if v in (0, 1) and rng.random() < .7 else v + rng.choice([1, -1])
    else:
        i = rng.randrange(len(v) + 1)
        at[path[-1]] = v[:i] + rng.choice("Pp1/ 9k+*") + v[i + (rng.random() < .5):]
        if at[path[-1]] == v:
            at[path[-1]] = v + "x"
    return r


def tlc(module, trace, prop, tag):
    env = dict(os.environ, TRACE=trace, PROP=prop)
    r = subprocess.run(["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-cp", CP, "tlc2.TLC", "-workers", "1",
                        "-metadir", f"{W}/m{tag}", "-config", f"{module}.cfg", f"{module}.tla"], cwd=SPEC, env=env,
                       capture_output=True, text=True)
    shutil.rmtree(f"{W}/m{tag}", ignore_errors=True)
    if r.returncode == 0:
        return "accepted"
    return "rejected" if "NONCONFORM" in r.stdout else "outside"


jobs = []
for prop, suites in TRACES.items():
    for suite, module in suites:
        if suite == "longgames" or not re.search(PAT, f"{prop}:{suite}"):
            continue
        d = f"{W}/{suite}"
        if not os.path.isdir(d):
            subprocess.run([CONFORM, suite, "--out", d, "--seed", "1", "--tier", "quick", "--shards", "8"], check=True,
                           stdout=subprocess.DEVNULL)
        groups = {}
        for f in sorted(glob.glob(f"{d}/trace*.ndjson")):
            lines = open(f).read().splitlines()
            at, depth = 0, []
            for i, x in enumerate(lines):
                at = i if '"e":"new"' in x else at
                depth.append(i - at)
            near = [i for i in range(len(lines)) if depth[i] < 40 or module == "TraceOrd"] or range(len(lines))
            for i in rng.sample(near, min(len(near), 1500)):
                rec = json.loads(lines[i])
                seen = {}
                for p, _ in leaves(rec):
                    seen.setdefault(general(p, str(rec.get("e", rec.get("ty", rec.get("f", "?"))))), []).append(p)
                for g, ps in seen.items():
                    groups.setdefault(g, []).append((f, i, rng.choice(ps)))
        for g, places in groups.items():
            for n, (f, i, p) in enumerate(rng.sample(places, min(K, len(places)))):
                jobs.append((prop, suite, module, g, f, i, p))
print(len(jobs), "changes", flush=True)
cache = {}


def one(a):
    n, (prop, suite, module, g, f, i, p) = a
    lines = open(f).read().splitlines()
    j = i
    if any('"e":"new"' in x for x in lines[:i + 1]):
        while '"e":"new"' not in lines[j]:
            j -= 1
        k = i + 1
        while k < len(lines) and k < i + 10 and '"e":"new"' not in lines[k]:
            k += 1
    else:
        j, k = (0, len(lines)) if module in ("TraceOrd",) else (i, i + 1)
    c = changed(json.loads(lines[i]), p)
    if c is None:
        return None
    t = f"{W}/c{n}.ndjson"
    open(t, "w").write("\n".join(lines[j:i] + [json.dumps(c, separators=(",", ":"))] + lines[i + 1:k]) + "\n")
    own = tlc(module, t, prop, n)
    al = own if own != "accepted" else tlc(module, t, "ALL", n)
    os.remove(t)
    return dict(prop=prop, suite=suite, group=g, own=own, all=al, path=p, before=lines[i][:600], after=json.dumps(c)[:600])


tally = {}
with open(OUT, "w") as o, concurrent.futures.ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, enumerate(jobs)):
        if r is None:
            continue
        t = tally.setdefault((r["prop"], r["suite"], r["group"]), [0, 0, 0])
        t[0 if r["own"] != "accepted" else 1 if r["all"] != "accepted" else 2] += 1
        o.write(json.dumps(r) + "\n")
        o.flush()
for (p, s, g), (a, b, c) in sorted(tally.items()):
    if c and ".[]" not in g:
        print(f"{p} {s} {g}: rejected {a}, only by another property {b}, accepted {c}")
shutil.rmtree(W, ignore_errors=True)
