#!/usr/bin/env python3
"""Development tool: mutation testing of the checks.  mutate.py WORKERS BUDGET_SECONDS OUT [FILE-REGEX] [SEED]

FILE-REGEX may be @LIST, a JSON list of [file, old, new, properties].
Works on copies under /tmp/mutw only. A mutant that compiles and passes the existing tests is given to the checks that
concern its file; what no check reports is written to OUT for inspection (many are equivalent)."""
import json, os, random, re, shutil, subprocess, sys, threading, time
WORK = "/tmp/mutw"
FILES = {
    "shogi_core/src/bitboard.rs": "C08 C09 C10 C20", "shogi_core/src/color.rs": "C12 C15 C16 C17",
    "shogi_core/src/common.rs": "C14 C16 C21", "shogi_core/src/game_resolution.rs": "C18 C12 C17 C20",
    "shogi_core/src/hand.rs": "C07 C14 C16 C17 C20", "shogi_core/src/illegal_move_kind.rs": "C12 C17 C19 C20",
    "shogi_core/src/legality.rs": "C19", "shogi_core/src/mv.rs": "C13 C15 C16 C17 C20",
    "shogi_core/src/piece.rs": "C12 C15 C16 C17 C20", "shogi_core/src/piece_kind.rs": "C12 C15 C16 C17 C20",
    "shogi_core/src/position.rs": "C05 C01 C03 C06 C02 C04 C14 C16 C17 C18 C20 C21",
    "shogi_core/src/square.rs": "C11 C15 C16 C17 C20", "shogi_core/src/to_usi.rs": "C15 C16",
    "shogi_core_c/src/no_std.rs": "C22",
}
SUBS = [(r"<=", ["<", "=="]), (r">=", [">", "=="]), (r"(?<![<=\-])>(?![>=])(?= )", [">=", "=="]), (r"(?<= )<(?![<=])(?= )", ["<=", "=="]),
        (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|(?= )", ["&&"]),
        (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["+"]), (r"\+=", ["-="]), (r"-=", ["+="]),
        (r"(?<= )<<(?= )", [">>"]), (r"(?<= )>>(?= )", ["<<"]), (r"(?<= )&(?= )", ["|", "^"]), (r"(?<= )\|(?= )", ["&", "^"]),
        (r"(?<= )\^(?= )", ["|", "&"]), (r"(?<= )%(?= )", ["/"]), (r"(?<= )/(?= )", ["%"]),
        (r"&=", ["|="]), (r"\|=", ["&=", "^="]), (r"\^=", ["|="]), (r"<<=", [">>="]), (r">>=", ["<<="]),
        (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<=[(\s&|])!(?=[\w(])", [""]),
        (r"\b\d[\d_]*\b(?!\.)", ["+1", "-1", "x2"]), (r"0x[0-9a-fA-F_]+", ["+1", "-1", "^hi"]), (r"0b[01_]+", ["+1", "-1"]),
        (r"\bif (?!let)(.+) \{$", ["if true {", "if false {"]), (r"\bwhile (?!let)(.+) \{$", ["while false {"]),
        (r"return Err\((.*)\);", [""]), (r"\bSome\(([^()]*)\)(?=[,;]?$)", ["None"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.is_some\(\)", [".is_none()"]),
        (r"\bBlack\b", ["White"]), (r"\bWhite\b", ["Black"]), (r"\bfrom\b", ["to"]), (r"\bto\b(?! )", ["from"]),
        (r"wrapping_add", ["saturating_add"]), (r"wrapping_sub", ["saturating_sub"]), (r"\?;$", [".ok();"]), (r"\.unpromote\(\)", [""]), (r"\.flip\(\)", [""]),
        (r"^\s+[a-z_][\w.\[\]() ]*(=|\().*;$", ["//del"])]


def code_lines(path):
    out = []
    for i, line in enumerate(open(path).read().split("\n")):
        if re.match(r"\s*#\[cfg\(test\)\]", line) or "mod tests" in line:
            break
        t = line.strip()
        if t.startswith(("//", "#[", "#![", "use ", "pub use", "assert")) or not t:
            continue
        out.append((i, line))
    return out


def mutants(repo, pat):
    ms = []
    for f in FILES:
        if not re.search(pat, f):
            continue
        for i, line in code_lines(os.path.join(repo, f)):
            code = line.split(" //")[0]
            for rx, reps in SUBS:
                for m in re.finditer(rx, code):
                    for r in reps:
                        if rx.startswith((r"\b\d", "0x", "0b")):
                            if code[max(0, m.start() - 1):m.start()].isalpha() or re.match(r"[iu]\d|usize", code[m.start() - 1:m.end()]):
                                continue
                            try:
                                v = int(m.group(0), 0)
                            except ValueError:
                                try: v = int(m.group(0).replace("_", ""), 0)
                                except ValueError: continue
                            v2 = {"+1": v + 1, "-1": v - 1, "x2": v * 2, "^hi": v ^ (1 << max(0, v.bit_length() - 1))}[r]
                            if v2 < 0 or v2 == v:
                                continue
                            new = code[:m.start()] + str(v2) + code[m.end():]
                        elif r == "//del":
                            new = ""
                        else:
                            new = code[:m.start()] + r + code[m.end():]
                        if new != code:
                            ms.append((f, i, line, new))
    seen, out = set(), []
    for m in ms:
        if m not in seen:
            seen.add(m)
            out.append(m)
    return out


def run(cmd, cwd, env, tmo):
    import signal
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=tmo)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 124, ""


def worker(k, queue, lock, out, end, stats):
    d = f"{WORK}/{k}"
    repo, ver = d + "/repo", d + "/verif"
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=d + "/t", VERIF_SEED="1", VERIF_TIER="quick")
    cenv = dict(env)
    cenv.pop("CARGO_TARGET_DIR")
    while time.time() < end:
        with lock:
            if not queue:
                return
            f, i, old, new, *props = queue.pop()
        p = os.path.join(repo, f)
        src = subprocess.run(["git", "-C", repo, "show", "HEAD:" + f], capture_output=True, text=True, check=True).stdout
        if i < 0:
            open(p, "w").write(src.replace(old, new))
        else:
            ls = src.split("\n")
            assert ls[i] == old
            ls[i] = new
            open(p, "w").write("\n".join(ls))
        try:
            if f.startswith("shogi_core_c"):
                rc, o = run(["cargo", "+nightly", "build", "--release", "--no-default-features", "--features", "alloc", "--offline", "-q"], repo + "/shogi_core_c", dict(env, CARGO_TARGET_DIR=d + "/tn"), 120)
            else:
                rc, o = run(["cargo", "build", "--offline", "--all-features", "-q", "-p", "shogi_core"], repo, env, 120)
            if rc:
                stats["nocompile"] += 1
                if i < 0:
                    print("does not compile:", old[:80], "=>", new[:160], o[-1500:], flush=True)
                continue
            if not f.startswith("shogi_core_c"):
                rc, o = run(["cargo", "test", "--offline", "--workspace", "--all-features", "-q"], repo, env, 120)
                if rc:
                    stats["tests"] += 1
                    if i < 0:
                        print("fails the tests:", old[:80], "=>", new[:160], o[-300:], flush=True)
                    continue
            res, hit = [], None
            for c in (props[0] if props else FILES[f]).split():
                rc, o = run(["python3", "checks/run.py", c], ver, cenv, 900)
                if rc == 1 and "VIOLATION" in o:
                    hit = c
                    what = [x for x in o.split("\n") if x.startswith("property")][:1]
                    break
                if rc != 0:
                    res.append((c, rc, o[-600:]))
            rec = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "by": hit, "what": (what[0][:200] if hit else ""), "errors": res}
            with lock:
                stats["caught" if hit else "survived"] += 1
                with open(out, "a") as fh:
                    fh.write(json.dumps(rec) + "\n")
        finally:
            open(p, "w").write(src)
            with lock:
                with open(out + ".stats", "w") as fh:
                    json.dump(dict(stats, left=len(queue)), fh)


def main():
    n, budget, out = int(sys.argv[1]), float(sys.argv[2]), sys.argv[3]
    pat = sys.argv[4] if len(sys.argv) > 4 else "."
    random.seed(int(sys.argv[5]) if len(sys.argv) > 5 else 1)
    if pat.startswith("@"):  # a list of chosen changes: file, old text, new text, properties
        q = []
        for f, old, new, props in json.load(open(pat[1:])):
            n_old = open(os.path.join("/repo", f)).read().count(old)
            if n_old != 1:
                print("occurs", n_old, "times:", f, old[:100])
            else:
                q.append((f, -1, old, new, props))
    else:
        q = mutants("/repo", pat)
    if os.path.exists(out):  # what an earlier run has decided
        known = {(d["file"], d["line"], d["new"]) for d in map(json.loads, open(out)) if d["by"]}
        q = [m for m in q if (m[0], m[1] + 1, m[3].strip()) not in known]
    random.shuffle(q)
    print(len(q), "mutants")
    if n == 0:
        return
    for k in range(n):
        d = f"{WORK}/{k}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        shutil.rmtree(d + "/repo/target", ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/verif", d + "/verif"], check=True)
        for root, dirs, files in os.walk(d + "/verif"):
            dirs[:] = [x for x in dirs if x not in (".git", "target", "seeded")]
            for f in files:
                if f.endswith((".py", ".toml", ".rs", ".c")):
                    p = os.path.join(root, f)
                    s = open(p).read()
                    t = s.replace('"/repo', f'"{d}/repo')
                    if t != s:
                        open(p, "w").write(t)
    stats = {"nocompile": 0, "tests": 0, "caught": 0, "survived": 0}
    lock, end = threading.Lock(), time.time() + budget
    ts = [threading.Thread(target=worker, args=(k, q, lock, out, end, stats)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(stats, len(q), "left")
    shutil.rmtree(WORK, ignore_errors=True)


main()
