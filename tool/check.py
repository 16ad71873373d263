#!/usr/bin/env python3
"""Runs one check: builds the analyser and the current /repo tree, analyses the
clients of one property, writes evidence/<id>.json and gives the verdict.

usage: check.py C06 [quick|thorough]       a registered check
       check.py --dev c06[::client] [n]    print results only
"""
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CACHE = os.path.join(VERIF, ".cache")
MIRFLAGS = "-Zalways-encode-mir -Coverflow-checks=on -Cdebug-assertions=on -Zmir-opt-level=0 -Awarnings"


class Broken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def base_env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def sysroot():
    r = sh(["rustc", "+nightly", "--print", "sysroot"], env=base_env())
    if r.returncode:
        raise Broken("no nightly toolchain: " + r.stderr)
    return r.stdout.strip()


def build_engine():
    e = base_env()
    e["CARGO_TARGET_DIR"] = os.path.join(CACHE, "engine")
    r = sh(["cargo", "+nightly", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "engine"), env=e)
    if r.returncode:
        raise Broken("the analyser does not build:\n" + r.stderr[-4000:])
    return os.path.join(CACHE, "engine", "release", "ur20-absint")


def build_lib():
    """compile the working tree of /repo (and its dependencies) to MIR"""
    e = base_env()
    e["CARGO_TARGET_DIR"] = os.path.join(CACHE, "lib")
    e["RUSTFLAGS"] = MIRFLAGS
    for d in ("build/ur20", "build/ur20_clients"):
        shutil.rmtree(os.path.join(CACHE, "lib", "debug", d), ignore_errors=True)
    entry = os.path.join(VERIF, "entry")
    # without client features only the library is compiled
    r = sh(["cargo", "+nightly", "check", "--offline", "--message-format=json"], cwd=entry, env=e)
    dirs, lib, errors, more = [], None, [], []
    for l in r.stdout.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("reason") == "compiler-message" and d["message"]["level"] == "error":
            errors.append(d["message"]["rendered"])
        if d.get("reason") != "compiler-artifact":
            continue
        fs = [f for f in d["filenames"] if f.endswith((".rmeta", ".so"))]
        if not fs:
            continue
        a = "-Ldependency=" + os.path.dirname(fs[0])
        if a not in dirs:
            dirs.append(a)
        if d["target"]["name"] == "ur20":
            lib = fs[0]
            fresh = d.get("fresh")
        if d["target"]["name"] in ("num_traits", "num-traits"):
            more = ["--extern", "num_traits=" + fs[0]]
    if r.returncode or lib is None:
        raise Broken("/repo does not build:\n" + "\n".join(errors) + r.stderr[-3000:])
    if fresh:
        raise Broken("stale build of /repo")
    return dirs + ["--extern", "ur20=" + lib] + more


def analyse(prop, engine, lib, tier, select="", limit=780, quiet=False):
    feature = prop.lower()
    out = os.path.join(CACHE, "out", feature)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    e = base_env()
    sr = sysroot()
    e["LD_LIBRARY_PATH"] = os.path.join(sr, "lib")
    e["RUST_MIN_STACK"] = str(1 << 30)
    e["UR20_OUT"] = os.path.join(out, "result.json")
    e["UR20_TIER"] = tier
    e["UR20_CLIENT"] = select or feature + "::"
    e["UR20_LIMIT"] = str(limit)
    if not quiet and not known(prop):
        e["UR20_GRACE"] = "90"
    e.setdefault("UR20_JOBS", str(min(8, os.cpu_count() or 8)))
    cmd = [engine, "--crate-name", "ur20_clients", "--edition", "2021", "--crate-type", "lib", "src/lib.rs",
           "--emit=metadata", "--out-dir", out, "--cfg", 'feature="%s"' % feature] + lib + MIRFLAGS.split()
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, "entry"), env=e, text=True,
                       stdout=subprocess.PIPE, stderr=None if quiet else subprocess.PIPE)
    f = e["UR20_OUT"]
    if r.returncode or not os.path.exists(f):
        raise Broken("the clients of %s do not analyse:\n%s" % (prop, (r.stderr or "")[-6000:]))
    with open(f) as h:
        d = json.load(h)
    shutil.rmtree(out, ignore_errors=True)
    return d, " ".join(c for c in cmd if not c.startswith("-Ldep"))


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def source_files():
    r = {}
    for dp, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith(".rs"):
                p = os.path.join(dp, f)
                with open(p, "rb") as h:
                    r[os.path.relpath(p, REPO)] = hashlib.sha256(h.read()).hexdigest()[:16]
    return r


def known(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    r.append(d)
    return r


TRUSTED = [
    "the MIR produced by rustc nightly for the current /repo tree and for the standard library",
    "the transfer functions of /verif/engine (integers as vectors of binary decision diagrams, floats as "
    "functions of one bounded integer, containers as guarded element lists)",
    "the reference models of standard containers and iterators in /verif/entry/src/models.rs",
    "the specification clients in /verif/entry/src/clients (the oracle)",
]


def verdict(prop, tier, t0, d, cmd, meta, extra=None):
    viol, und, obl, disc = {}, {}, 0, 0
    fns, models, rules = set(), set(), {}
    stats = dict(blocks=0, statements=0, calls=0, call_sites=0, joins=0)
    lib_obl = {}
    for r in d["results"]:
        for v in r.get("violations", []):
            viol.setdefault("%s | %s" % (r["client"], v["key"]), v["text"] + "\n    client: %s part %s" % (r["client"], r["part"]))
        for v in r.get("undecided", []):
            und.setdefault("%s | %s" % (r["client"], v["key"]), v["text"])
        for o in r.get("obligations", []):
            obl += 1
            disc += bool(o["ok"])
            k = o["rule"]
            x = rules.setdefault(k, [0, 0, True])
            x[0] += 1
            x[1] += o["checks"]
            x[2] &= o["ok"]
        fns.update(f for f in r.get("functions", []) if "ur20::" in f)
        models.update(r.get("models", []))
        for k in stats:
            stats[k] += int(r.get(k, 0))
    names = {r["client"] for r in d["results"]}
    problems = []
    if d["lost"]:
        text = "%d analyses ended without a result" % d["lost"]
        if d["lost"] == len(d["results"]):
            problems.append(text)
        else:
            und["lost | " + text] = text
    if not names:
        problems.append("no client was analysed")
    dead = sorted({r["client"] for r in d["results"] if r.get("status") == "no state reaches the end"
                   and not r.get("undecided") and not r.get("violations")})
    for c in dead:
        # a client whose assumptions exclude every input would be vacuous
        if not any(r["client"] == c and r.get("status") == "returns" for r in d["results"]):
            problems.append("client %s is vacuous: no analysed state reaches its end" % c)
    explanation = meta["method"] + " Domain: " + meta["domain"]
    cov = dict(
        explanation=explanation,
        obligations=obl,
        discharged=disc,
        checker_cmd=cmd,
        trusted_base=TRUSTED,
        clients=len(names),
        analyses=len(d["results"]),
        functions_of_ur20_analysed=sorted(fns),
        functions_count=len(fns),
        library_models_used=sorted(models),
        basic_blocks_interpreted=stats["blocks"],
        statements_interpreted=stats["statements"],
        calls_interpreted=stats["calls"],
        distinct_call_sites=stats["call_sites"],
        joins_at_merge_points=stats["joins"],
        rules={k: dict(contexts=v[0], evaluations=v[1], discharged=v[2]) for k, v in sorted(rules.items())},
        undecided=sorted(und),
        sources=source_files(),
    )
    if extra:
        cov.update(extra)
    return viol, und, problems, cov


def write_evidence(prop, tier, level, cov, t0, nviol, assumptions):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed(), level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=nviol)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as h:
        json.dump(ev, h, indent=1)
        h.write("\n")
    os.replace(p + ".tmp", p)


def finish(prop, tier, t0, viol, und, problems, cov, meta):
    kn = known(prop)
    fresh = {}
    for k, text in sorted(viol.items()):
        hit = [x for x in kn if re.fullmatch(x["match"], k)]
        if hit:
            print("KNOWN-FINDING: property=%s %s [%s]" % (prop, hit[0]["what"], k))
        else:
            fresh[k] = text
    for k in sorted(und)[:20]:
        print("UNDECIDED property=%s %s" % (prop, k))
    write_evidence(prop, tier, meta["level"], cov, t0, len(fresh), meta.get("assumptions", []))
    if fresh:
        rp = os.path.join(VERIF, "evidence", prop + ".violations.txt")
        with open(rp, "w") as h:
            for k, t in fresh.items():
                h.write(k + "\n  " + t + "\n\n")
        for k, t in list(fresh.items())[:10]:
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rp, VERIF)))
            print("  " + t[:2500])
        return 1
    if problems:
        for p in problems:
            print("ERROR property=%s %s" % (prop, p))
        return 2
    print("%s: %d of %d obligations discharged in %d functions, %d analyses, %.1f s"
          % (prop, cov["discharged"], cov["obligations"], cov.get("functions_count", 0), cov.get("analyses", 0), time.time() - t0))
    return 0


def dev(select, n, tier):
    prop = select.split("::")[0]
    lib = build_lib()
    d, _ = analyse(prop, build_engine(), lib, tier, select if "::" in select else "", quiet=True)
    seen = set()
    print("clients", d["clients"], "lost", d["lost"], "%.1fs" % d["seconds"])
    for r in sorted(d["results"], key=lambda r: (r["client"], r["part"])):
        o = r.get("obligations", [])
        print(r["client"], r["part"], "/", r.get("parts"), r["status"], r.get("seconds"), "obl", len(o), "ok", sum(x["ok"] for x in o), "nodes", r.get("nodes"))
        for kind in ("violations", "undecided"):
            for v in r.get(kind, [])[:n]:
                if v["key"] in seen:
                    print("  %s (seen) %s" % (kind, v["key"]))
                else:
                    seen.add(v["key"])
                    print("  %s %s" % (kind, v["text"]))


REJECTIONS = {"E0596", "E0499", "E0502", "E0505", "E0506", "E0594", "E0277", "E0373"}


def witnesses(prop, tier, t0, meta):
    """C22: obligations on the type checker, discharged by compiling witness
    programs against the current library"""
    engine = build_engine()
    lib = build_lib()
    d, cmd = analyse(prop, engine, lib, tier)
    viol, und, problems, cov = verdict(prop, tier, t0, d, cmd, meta)
    wd = os.path.join(VERIF, "witness")
    out = os.path.join(CACHE, "out", prop.lower())
    os.makedirs(out, exist_ok=True)

    def compile(f):
        c = ["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--crate-name", "witness", f,
             "--emit=metadata", "--out-dir", out, "--error-format=json", "-Awarnings"] + lib
        r = sh(c, cwd=wd, env=base_env())
        errs = []
        for l in r.stderr.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("level") == "error" and m.get("spans"):
                sp = [x for x in m["spans"] if x["is_primary"]] or m["spans"]
                errs.append(((m.get("code") or {}).get("code"), sp[0]["line_start"], m["rendered"]))
        if r.returncode and not errs:
            raise Broken("witness %s: %s" % (f, r.stderr[-2000:]))
        return errs, " ".join(x for x in c if not x.startswith("-Ldep"))

    rules = cov["rules"]

    def obligation(rule, n, ok):
        cov["obligations"] += n
        cov["discharged"] += ok
        rules[rule] = dict(contexts=n, evaluations=n, discharged=n == ok)

    lines = open(os.path.join(wd, "types.rs")).read().split("\n")
    total = sum(("send::<" in l or "sync::<" in l or "spawn(" in l) and not l.startswith("fn send") for l in lines)
    errs, c = compile("types.rs")
    bad = {}
    for code, line, text in errs:
        if code != "E0277":
            raise Broken("witness types.rs does not compile:\n" + text)
        bad.setdefault(line, text)
    for line, text in sorted(bad.items()):
        key = lines[line - 1].strip()
        viol["types | " + key] = "the type checker rejects `%s`\n%s" % (key, text)
    obligation("the type can be sent to (shared with) another thread", total, total - len(bad))
    names = sorted(os.listdir(os.path.join(wd, "rejected")))
    ok = 0
    for f in names:
        errs, _ = compile("rejected/" + f)
        what = open(os.path.join(wd, "rejected", f)).readline().split(": ", 1)[1].strip()
        if not errs:
            viol["rejected/%s | accepted" % f] = (
                "%s: the type checker accepts\n%s" % (what, open(os.path.join(wd, "rejected", f)).read()))
        elif all(e[0] in REJECTIONS for e in errs):
            ok += 1
        else:
            raise Broken("witness %s is rejected for another reason:\n%s" % (f, errs[0][2]))
    errs, _ = compile("allowed.rs")
    if errs and not viol:
        raise Broken("witness allowed.rs does not compile:\n" + errs[0][2])
    obligation("a program without exclusive access is rejected", len(names), ok)
    cov["witness_cmd"] = c
    cov["witness_programs"] = ["types.rs", "allowed.rs"] + ["rejected/" + f for f in names]
    cov["clients"] = cov["analyses"] = 3 + len(names)
    shutil.rmtree(out, ignore_errors=True)
    return finish(prop, tier, t0, viol, und, problems, cov, meta)


def main():
    t0 = time.time()
    if sys.argv[1] == "--dev":
        dev(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 2, os.environ.get("VERIF_TIER", "quick"))
        return 0
    if sys.argv[1] == "--setup":
        build_engine()
        build_lib()
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.path.insert(0, os.path.join(VERIF, "tool"))
    import props
    meta = props.PROPS[prop]
    try:
        if meta.get("witnesses"):
            return witnesses(prop, tier, t0, meta)
        engine = build_engine()
        lib = build_lib()
        d, cmd = analyse(prop, engine, lib, tier)
        viol, und, problems, cov = verdict(prop, tier, t0, d, cmd, meta)
        if d["clients"] < meta["min_clients"]:
            problems.append("only %d clients found, expected %d" % (d["clients"], meta["min_clients"]))
        return finish(prop, tier, t0, viol, und, problems, cov, meta)
    except Broken as e:
        print("ERROR property=%s %s" % (prop, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
