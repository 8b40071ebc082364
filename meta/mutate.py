#!/usr/bin/env python3
"""Mutation of the code under a check, to see what the check misses (development tool; no check uses it).

usage: mutate.py OUT.jsonl N SEED FILE:CHECK[,CHECK] ...
Works on copies of /repo and of dst under /tmp/mut, never on /repo itself."""
import json, os, random, re, subprocess, sys, shutil, threading, queue

OUT, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
PAIRS = [a.split(":") for a in sys.argv[4:]]
WORKERS = int(os.environ.get("WORKERS", "5"))
BASE = "/tmp/mut"
SRC = "/repo/crates/multicalc/src/"

OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "), (r" > ", " < "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" && ", " || "), (r" \|\| ", " && "),
       (r"\+= ", "-= "), (r"-= ", "+= "), (r" == ", " != "), (r" != ", " == "),
       (r"T::ONE", "T::ZERO"), (r"T::ZERO", "T::ONE"), (r"T::HALF", "T::ONE"), (r"T::TWO", "T::ONE"),
       (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.sin\(\)", ".cos()"), (r"\.cos\(\)", ".sin()"),
       (r"\.abs\(\)", ""), (r"\.sqrt\(\)", ""), (r"\.transpose\(\)", ""), (r"\.inverse\(\)", ""),
       (r"if !", "if "), (r"\.\.=", ".."), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"(?<=[( ,])-(?=[a-z(])", ""), (r"\bcontinue;", "{}"), (r"\bbreak;", "{}"), (r"\?;", ".ok();"),
       (r"\.is_finite\(\)", ".is_infinite()"), (r"DELETE", ""), (r"IFTRUE", ""), (r"IFFALSE", "")]


def code_lines(path):
    lines = open(path).read().split("\n")
    out = []
    for i, l in enumerate(lines):
        if re.match(r"\s*#\[cfg\(test\)\]", l):
            break
        s = l.strip()
        if not s or s.startswith(("//", "#[", "use ", "pub use", "mod ", "pub mod", "pub fn", "fn ", "impl", "where", "pub struct", "}", "const fn", "pub const fn")):
            continue
        out.append(i)
    return lines, out


def mutants(path):
    lines, idx = code_lines(path)
    out = []
    for i in idx:
        l = lines[i]
        code = l.split("//")[0]
        s = code.strip()
        for pat, rep in OPS:
            if pat == "DELETE":
                if s.endswith(";") and not s.startswith(("let ", "return", "type ", "const ")) and code.count("(") == code.count(")") and code.count("{") == code.count("}") and re.match(r"[a-z*]", s):
                    out.append((i, l, l[: len(l) - len(l.lstrip())] + "{}"))
            elif pat in ("IFTRUE", "IFFALSE"):
                m = re.match(r"(\s*(?:\} else )?if )(?!let)(.*)( \{)$", code)
                if m:
                    out.append((i, l, m.group(1) + ("true || (" if pat == "IFTRUE" else "false && (") + m.group(2) + ")" + m.group(3)))
            else:
                for m in re.finditer(pat, code):
                    out.append((i, l, code[: m.start()] + rep + code[m.end():]))
    return out


todo = queue.Queue()
rng = random.Random(SEED)
jobs = []
for f, checks in PAIRS:
    p = SRC + f if not f.startswith("/") else f
    ms = mutants(p)
    rng.shuffle(ms)
    for m in ms[:N]:
        jobs.append((p, checks.split(","), m))
rng.shuffle(jobs)
for j in jobs:
    todo.put(j)
print(len(jobs), "mutants")
lock = threading.Lock()
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_BUILD_JOBS="3", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", PROPTEST_RNG_SEED="20240607", PROPTEST_DISABLE_FAILURE_PERSISTENCE="1", VERIF_SEED="1", VERIF_TIER="quick")


def sh(cmd, cwd, t):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=dict(ENV, DST_ROOT=cwd), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 124, ""


def registry(checks):
    """The registry with only these checks, so that only their worlds are compiled."""
    s = open("/verif/dst/src/registry.rs").read()
    i = s.index("        Check {")
    head, body = s[:i], s[i:]
    j = body.rindex("        },\n    ]") + len("        },\n")
    blocks = re.findall(r"        Check \{.*?\n        \},\n", body[:j], re.S)
    return head + "".join(b for b in blocks if re.search(r'id: "(\w+)"', b).group(1) in checks) + body[j:]


def worker(w):
    d = f"{BASE}/w{w}"
    os.makedirs(d, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", d + "/repo/"], check=True) if shutil.which("rsync") else subprocess.run(
        f"mkdir -p {d}/repo && cd /repo && tar cf - --exclude=./target --exclude=./.git . | (cd {d}/repo && tar xf -)", shell=True, check=True)
    subprocess.run(f"mkdir -p {d}/dst && cp -r /verif/dst/src /verif/dst/Cargo.toml /verif/dst/Cargo.lock {d}/dst/ && cp /verif/KNOWN_FINDINGS.txt {d}/dst/ && sed -i 's#\"/repo/#\"{d}/repo/#' {d}/dst/Cargo.toml", shell=True, check=True)
    while True:
        try:
            p, checks, (i, old, new) = todo.get_nowait()
        except queue.Empty:
            return
        q = d + "/repo/" + p[len("/repo/"):]
        orig = open(q).read()
        ls = orig.split("\n")
        assert ls[i] == old
        ls[i] = new
        open(q, "w").write("\n".join(ls))
        res = {"file": p, "line": i + 1, "old": old.strip(), "new": new.strip(), "checks": checks}
        open(d + "/dst/src/registry.rs", "w").write(registry(checks))
        rc, o = sh("cargo build --release --offline --quiet", d + "/dst", 300)
        if rc:
            res["state"] = "nobuild"
        else:
            res["state"] = "alive"
            for c in checks:
                rc, o = sh(f"./target/release/dst check {c}", d + "/dst", 200)
                if rc == 1 or "VIOLATION" in o:
                    res["state"] = "caught"
                    res["by"] = c
                    break
                if rc:
                    res["state"] = "caught" if rc != 124 else "timeout"
                    res["by"] = f"{c} rc {rc}"
                    break
            if res["state"] == "alive":
                pk = "multicalc" if "/crates/multicalc/" in p else ("multicalc-robot-model" if "robot-model" in p else "multicalc-demos")
                rc, o = sh(f"cargo test -p {pk} --all-features --offline --lib --tests --quiet -- --test-threads 4", d + "/repo", 900)
                res["state"] = "SURVIVED" if rc == 0 else "tests"
        open(q, "w").write(orig)
        with lock:
            open(OUT, "a").write(json.dumps(res) + "\n")


ts = [threading.Thread(target=worker, args=(w,)) for w in range(WORKERS)]
[t.start() for t in ts]
[t.join() for t in ts]
