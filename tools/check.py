#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Symbolically executes the harnesses of one property over the IR of /repo's current tree, lets Z3
decide every branch and assertion, replays what it finds natively and writes the evidence file.
Exit 0: held. 1: VIOLATION (reproduced natively). 2: no answer (build error, unsupported
construct, solver gave up, bound exceeded, a replay that disagrees).
"""
import argparse, glob, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pipeline as P

MAXK = {"maxsteps", "maxvars", "maxforks", "max_us"}
BOUNDS = json.load(open(os.path.join(P.VERIF, "tools/bounds.json")))
ASSUMPTIONS = [
    "path: 64-bit little-endian x86, rustc stable IR at -O1 with overflow checks, panic=abort (panics are path ends); the native replays use unwinding dev and release builds",
    "BuildHasher::hash_one returns 0 (every key collides, lookups compare keys), HashMap seeds are constants: iteration order of maps is one fixed order",
    "f32::from_str on text with symbolic bytes is replaced by a summary of its documented grammar; the value is the correctly rounded decimal (exact IEEE operation where it fits, otherwise an uninterpreted function refined with concrete values)",
    "allocation never fails; formatting of symbolic data in log/error messages is skipped",
]


def demangle(n):
    m = re.match(r"_ZN(.*)E(\..*)?$", n)
    if not m:
        return n
    s, out = m.group(1), []
    while s and s[0].isdigit():
        k = re.match(r"\d+", s).group(0)
        out.append(s[len(k):len(k) + int(k)])
        s = s[len(k) + int(k):]
    if out and re.fullmatch(r"h[0-9a-f]{16}", out[-1]):
        out.pop()
    r = "::".join(out)
    for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$u7b$", "{"), ("$u7d$", "}"), ("$C$", ","), ("$LP$", "("), ("$RP$", ")"), ("$BP$", "*"), ("$u5b$", "["), ("$u5d$", "]"), ("$u27$", "'"), ("..", "::")):
        r = r.replace(a, b)
    return r


def harness_sources():
    """name -> set of cover ids that its body names"""
    res = {}
    for f in sorted(glob.glob(os.path.join(P.VERIF, "harness/src/*.rs"))):
        txt = open(f).read()
        ms = list(re.finditer(r"(?m)^pub fn (h_c\d\d[a-z]?_[a-z0-9_]+)\(", txt))
        for i, m in enumerate(ms):
            end = txt.find("\n}\n", m.end())
            res[m.group(1)] = set(int(x) for x in re.findall(r"\bcover\((\d+)\)", txt[m.end():end])) | {0}
    return res


def findings():
    out = []
    p = os.path.join(P.VERIF, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) harness=(\S+) fail=(\d+) (.*)", l.strip())
        if m:
            out.append(m.groups())
    return out


def merge(prefix, h):
    r = {"n": {}, "samples": [], "viol": [], "problems": [], "fns": set(), "stubs": set(), "files": 0}
    for f in glob.glob("%s.%s.w*" % (prefix, h)):
        lines = open(f, errors="replace").read().split("\n")
        if "end" not in lines[-2:]:
            r["problems"].append("worker report cut short")
        r["files"] += 1
        for l in lines:
            t = l.split("\t")
            if t[0] in ("n", "s"):
                v = float(t[2])
                if t[1] == "covers":
                    r["n"][t[1]] = r["n"].get(t[1], 0) | int(t[2])
                elif t[1] in MAXK:
                    r["n"][t[1]] = max(r["n"].get(t[1], 0), v)
                else:
                    r["n"][t[1]] = r["n"].get(t[1], 0) + v
            elif t[0] == "sample":
                r["samples"].append((t[1], t[2], int(t[3])))
            elif t[0] == "violation":
                r["viol"].append((t[1], t[2], t[3] if len(t) > 3 else ""))
            elif t[0] in ("unsupported", "unknown"):
                r["problems"].append("%s: %s" % (t[0], (t[2] if len(t) > 2 else "")[:400]))
            elif t[0] == "missing":
                r["problems"].append("external function " + t[1])
            elif t[0] == "fn":
                r["fns"].add(t[1])
            elif t[0] == "stub":
                r["stubs"].add(t[1])
    n = r["n"]
    for k in ("incomplete", "unsupported", "unknown"):
        if n.get(k):
            r["problems"].append("%d paths %s" % (n[k], k))
    if not r["files"]:
        r["problems"].append("no report")
    return r


def native(binary, h, choices, timeout=20):
    try:
        p = subprocess.run([binary, h] + choices.split(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", "", {}
    out = p.stdout.decode(errors="replace")
    d = {}
    for l in out.split("\n"):
        for k in ("OBS", "COVERS", "FAIL", "UNUSED"):
            if l == k or l.startswith(k + " "):
                d[k] = l[len(k) + 1:]
    if p.returncode == 0 and "HELD" in out:
        return "held", out, d
    if p.returncode == 3:
        return "fail", out, d
    if p.returncode in (4, 5, 6):
        return "mismatch", out, d
    return "panic", out, d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    src = harness_sources()
    lo = prop.lower()
    hs = [h for h in src if h.startswith(lo.join(["h_", "_"])) or h.startswith("h_%sk_" % lo) or (tier == "thorough" and h.startswith("h_%st_" % lo))]
    if a.only:
        hs = [h for h in hs if re.search(a.only, h)]
    if not hs:
        print("no harness for", prop)
        return 2
    try:
        with P.Lock():
            nat = {}

            def build_native():
                try:
                    nat["bins"] = P.native()
                except Exception as e:
                    nat["err"] = e
            th = threading.Thread(target=build_native)
            th.start()
            eng = P.engine()
            ll, irsecs = P.harness_ir()
            keep = tempfile.mkdtemp(prefix="run-", dir=P.BUILD)
            mod = os.path.join(keep, "m.ll")
            os.link(ll, mod)
            th.join()
            if "err" in nat:
                raise nat["err"]
            dirs = []
            for b in nat["bins"]:
                d = os.path.join(keep, "debug" if "debug" in b else "release")
                shutil.copy2(b, d)
                dirs.append(d)
    except (P.BuildError, subprocess.TimeoutExpired, OSError) as e:
        print("ERROR: build: %s" % e)
        return 2
    try:
        return decide(prop, tier, seed, t0, hs, src, eng, mod, dirs, keep, time.time() - t0)
    finally:
        shutil.rmtree(keep, ignore_errors=True)


def decide(prop, tier, seed, t0, hs, src, eng, mod, bins, keep, bsecs):
    prefix = os.path.join(keep, "o")
    limit = 700 if tier == "quick" else 3000
    steps = 60_000_000 if tier == "quick" else 600_000_000
    kf = [f for f in findings() if f[0] == prop]
    pool = ThreadPoolExecutor(8)
    confirmed, known, problems = [], [], []

    def replay(h, kind, ch):
        # the order of iteration of hash maps is random: a replay may need several runs to meet it
        tries = 80 if "hash" in h else 1

        def again(b):
            for _ in range(tries):
                x = native(b, h, ch, 60 if kind == "hang" else 20)
                if x[0] != "held":
                    break
            return x
        res = list(pool.map(again, bins))
        bad = any(x[0] in ("fail", "panic", "hang") for x in res)
        code = next((x[2].get("FAIL") for x in res if x[0] == "fail"), None)
        f = next((f for f in kf if f[1] == h and code == f[2]), None) if bad else None
        return res, bad, f

    with open(prefix + ".log", "wb") as elf:
        p = subprocess.Popen([eng, mod, "--out", prefix, "--workers", "8", "--time", str(limit), "--steps", str(steps)] + hs, stdout=elf, stderr=subprocess.STDOUT, start_new_session=True)
        # a counterexample that fails natively decides the property: the rest is not waited for
        seen, stopped = 0, False
        try:
            while p.poll() is None:
                time.sleep(0.3)
                try:
                    ls = open(prefix + ".early", errors="replace").read().split("\n")[:-1]
                except OSError:
                    continue
                for l in ls[seen:seen + 20]:
                    seen += 1
                    t = l.split("\t")
                    if len(t) == 4 and not re.match(r"h_c\d\dk_", t[0]):
                        res, bad, f = replay(t[0], t[1], t[2])
                        if bad and not f:
                            confirmed.append((t[0], t[1], t[2], t[3], res))
                            stopped = True
                            break
                if stopped:
                    break
        finally:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    elog = open(prefix + ".log", errors="replace").read()
    if p.returncode != 0 and not stopped:
        problems.append("engine ended with status %d: %s" % (p.returncode, elog[-600:]))
    rng = random.Random(seed)
    tot, fns, stubs, per, samples = {}, set(), set(), {}, []
    validated = 0
    for h in hs:
        if stopped and not glob.glob("%s.%s.w*" % (prefix, h)):
            continue
        r = merge(prefix, h)
        if stopped:
            r["viol"], r["samples"], r["problems"] = [], [], []
        for k, v in r["n"].items():
            if k == "covers":
                continue
            tot[k] = max(tot.get(k, 0), v) if k in MAXK else tot.get(k, 0) + v
        fns |= r["fns"]
        stubs |= r["stubs"]
        # counterexamples: replay on both native builds
        real = False
        for kind, ch, msg in r["viol"]:
            res, bad, f = replay(h, kind, ch)
            if bad:
                real = True
                if f:
                    if f not in known:
                        known.append(f)
                else:
                    confirmed.append((h, kind, ch, msg, res))
            else:
                problems.append("%s: %s not reproduced natively (%s): %s choices=%s" % (h, kind, "/".join(x[0] for x in res), msg[:200], ch[:300]))
        probs = r["problems"]
        if r["viol"] and real:
            # exploration stops early after a violation
            probs = [x for x in probs if "incomplete" not in x]
        problems += ["%s: %s" % (h, x) for x in probs]
        want = src[h]
        got = int(r["n"].get("covers", 0))
        if not real and not r["problems"]:
            for c in sorted(want):
                if not got >> c & 1:
                    problems.append("%s: vacuous, cover %d not reached" % (h, c))
        # sampled paths: same observations natively
        ss = sorted(r["samples"])
        rng.shuffle(ss)
        ss = ss[:24]
        jobs = [(b, s) for s in ss for b in bins]
        for (b, s), x in zip(jobs, pool.map(lambda j: native(j[0], h, j[1][0]), jobs)):
            st, out, d = x
            if st == "held" and d.get("OBS", "").split() == s[1].split() and int(d.get("COVERS", "-1")) == s[2] and d.get("UNUSED") == "0":
                validated += 1
            elif not real:
                problems.append("%s: native run of a path differs (%s, %s): choices=%s engine obs=%s native=%s" % (h, st, os.path.basename(b), s[0][:200], s[1][:200], out[-400:]))
        if ss:
            st, out, d = native(bins[0], h, ss[0][0])
            m = re.search(r"DOC (.*)", out)
            samples.append({"harness": h, "inputs": ss[0][0][:400], "text": (m.group(1)[:400] if m else None)})
        n = r["n"]
        per[h] = {"paths": int(n.get("ok", 0)), "discarded_by_assumption": int(n.get("infeasible", 0)), "forks": int(n.get("forks", 0)), "queries": int(n.get("queries", 0)), "solver_s": round(n.get("solver_us", 0) / 1e6, 2), "max_symbolic_bytes": int(n.get("maxvars", 0)), "max_steps": int(n.get("maxsteps", 0))}
    pool.shutdown()
    b = BOUNDS.get(prop, {})
    ours = sorted(set(demangle(f) for f in fns if "nobject_rs" in f))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(tot.get("ok", 0) + tot.get("fail", 0) + tot.get("panic", 0) + tot.get("hang", 0)),
            "transitions": int(tot.get("forks", 0)),
            "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "rule": "states: completed symbolic paths, each standing for every input that follows it; transitions: two-way forks the solver found feasible; branch points decided: branches",
            "branches": int(tot.get("branches", 0)), "instructions": int(tot.get("instrs", 0)),
            "functions_encoded": ours, "functions_encoded_total": len(fns),
            "queries": {k: int(tot.get(k, 0)) for k in ("queries", "sat", "unsat", "unknown", "linear", "refinements", "cache_hits", "confirmed", "unconfirmed")},
            "solver_s": round(tot.get("solver_us", 0) / 1e6, 3), "longest_query_s": round(tot.get("max_us", 0) / 1e6, 3),
            "harnesses": per, "bounds": b.get(tier) or b.get("quick") or "see DESIGN.md", "outside": b.get("outside", ""),
            "stubs": sorted(stubs), "build_s": round(bsecs, 1),
        },
        "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(P.VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(P.VERIF, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(P.VERIF, "evidence", prop + ".json"))
    for f in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, f[3]))
    if confirmed:
        rd = os.path.join(P.VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for i, (h, kind, ch, msg, res) in enumerate(confirmed[:5]):
            path = os.path.join(rd, "%s-%d.json" % (prop, i))
            docs = re.findall(r"DOC (.*)", res[0][1])
            with open(path, "w") as f:
                json.dump({"property": prop, "harness": h, "kind": kind, "message": msg, "choices": ch, "texts": docs, "dev": [res[0][0], res[0][1][-3000:]], "release": [res[1][0], res[1][1][-3000:]],
                           "how": "build/native/{debug,release}/replay %s %s  (built by tools/pipeline.py)" % (h, ch)}, f, indent=1)
            if i == 0:
                print("%s: %s %s text=%s dev=%s release=%s" % (h, kind, msg[:300], docs[:1], res[0][0], res[1][0]))
                print("VIOLATION property=%s replay=%s" % (prop, path))
        for x in problems[:5]:
            print("note:", x[:500])
        return 1
    if problems:
        print("ERROR: no answer for %s" % prop)
        for x in problems[:20]:
            print("  ", x[:1200])
        return 2
    print("held: %s tier=%s harnesses=%d paths=%d queries=%d solver=%.1fs replayed=%d wall=%.1fs" % (prop, tier, len(hs), ev["coverage"]["states"], tot.get("queries", 0), ev["coverage"]["solver_s"], validated, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
