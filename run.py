#!/usr/bin/env python3
"""Build and run one property check against /repo's current working tree.

  run.py C05                      quick tier (or VERIF_TIER)
  run.py C05 --tier thorough
  run.py C05 --replay FILE        re-run a saved counterexample
  run.py --all | --list

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=.. replay=..":
broken.  Anything else is an error of the check itself.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "_build")
EVID = os.path.join(HERE, "evidence")
FINDINGS = os.path.join(HERE, "known_findings.txt")

sys.path.insert(0, HERE)
from registry import CHECKS          # noqa: E402

BASE = ["-std=c++17", "-DNDEBUG", "-include", "array", "-include", "limits", "-include", "cstdint",
        "-DHAVE_PNG", "-DHAVE_JPEG", "-fopenmp", "-w"]
VARIANTS = {
    "plain": dict(cxx="g++", flags=["-O2", "-g1"], link=[]),
    "asan": dict(cxx="g++", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"],
                 link=["-fsanitize=address"]),
    "tsan": dict(cxx="g++", flags=["-O1", "-g1", "-fsanitize=thread", "-DEIGEN_DONT_PARALLELIZE"],
                 link=["-fsanitize=thread"], no_gomp=True),
}
ENV = {
    "plain": {"MALLOC_PERTURB_": "85"},
    "asan": {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
             "max_allocation_size_mb=4096:max_malloc_fill_size=268435456:malloc_fill_byte=255:"
             "detect_stack_use_after_return=1:quarantine_size_mb=32:handle_segv=1"},
    "tsan": {"TSAN_OPTIONS": "exitcode=66:halt_on_error=1:report_signal_unsafe=0:history_size=4"},
}


def log(*a):
    print("[run]", *a, file=sys.stderr, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(dirs, exts):
    parts = []
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    parts += [os.path.relpath(p, d), read(p)]
    return sha(*parts)


class Builder:
    def __init__(self, variant, shim):
        self.variant, self.shim = variant, shim
        v = VARIANTS[variant]
        self.cxx = v["cxx"]
        inc = (["-I", os.path.join(HERE, "shim")] if shim else []) + [
            "-I", REPO + "/include", "-I", REPO + "/src", "-I", "/usr/include/eigen3"]
        self.flags = BASE + v["flags"] + inc
        self.link_flags = v["link"] + ([] if v.get("no_gomp") else ["-fopenmp"])
        self.dir = os.path.join(BUILD, variant + ("-shim" if shim else ""))
        os.makedirs(self.dir, exist_ok=True)
        self.hdr = tree_hash([REPO + "/include", REPO + "/src"] + ([HERE + "/shim"] if shim else []),
                             (".hpp", ".h", ".inl", ".ipp"))

    def obj(self, src, extra=(), extra_hash=""):
        key = sha(read(src), self.hdr, extra_hash, " ".join(self.flags + list(extra)), src)
        out = os.path.join(self.dir, os.path.basename(src) + "." + key + ".o")
        if os.path.exists(out):
            return out, ""
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run([self.cxx] + self.flags + list(extra) + ["-c", src, "-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return None, r.stdout
        os.replace(tmp, out)
        return out, ""


def sources(hints):
    allsrc = sorted(p for p in glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    if hints is None:
        return allsrc
    pats = [re.compile(h) for h in hints]
    sel = [p for p in allsrc if any(r.search(os.path.relpath(p, REPO)) for r in pats)]
    return sel or allsrc


def build(chk, variant):
    """Compile the harness and the repository sources it needs; return the binary."""
    b = Builder(variant, chk.get("shim", False))
    harness = os.path.join(HERE, "checks", chk["harness"])
    eng = tree_hash([HERE + "/engine", HERE + "/checks"], (".hpp",))
    extra = ["-I", os.path.join(HERE, "engine"), "-I", os.path.join(HERE, "checks")]
    hl = chk.get("helpers", {})
    helpers = [os.path.join(HERE, "checks", h) for h in hl.get("all", []) + hl.get(variant, [])]
    if chk.get("samples"):
        eng = sha(eng, tree_hash([REPO + "/samples"], (".hpp", ".cpp")))
        extra += ["-I", REPO]

    def attempt(hints):
        srcs = sources(hints)
        errs = {}
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            hf = [ex.submit(b.obj, h, extra, eng) for h in [harness] + helpers]
            fs = {s: ex.submit(b.obj, s) for s in srcs}
            hobjs = [f.result() for f in hf]
            objs = []
            for s, f in fs.items():
                o, e = f.result()
                if o:
                    objs.append(o)
                else:
                    errs[s] = e
        for o, e in hobjs:
            if not o:
                return None, "harness does not compile:\n" + e[:8000]
        hobjs = [o for o, _ in hobjs]
        key = sha(*(hobjs + objs))
        out = os.path.join(b.dir, chk["id"] + "." + key)
        if os.path.exists(out):
            return out, ""
        ar = out + ".a"
        if os.path.exists(ar):
            os.remove(ar)
        if objs:
            subprocess.run(["ar", "rcs", ar] + objs, check=True)
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run([b.cxx] + hobjs + ([ar] if objs else []) + ["-o", tmp] + b.link_flags +
                           ["-lpng", "-ljpeg", "-lz", "-lpthread"] + chk.get("libs", []),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if os.path.exists(ar):
            os.remove(ar)
        if r.returncode:
            msg = r.stdout[-4000:]
            for s, e in errs.items():
                msg += "\n--- %s did not compile:\n%s" % (s, e[:3000])
            return None, msg
        os.replace(tmp, out)
        return out, ""

    out, err = attempt(chk.get("sources"))
    if out is None and chk.get("sources") is not None:
        log("selective build failed, building everything")
        out, err2 = attempt(None)
        err = err2 or err
    return out, err


def known_findings(pid):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def run_check(pid, tier, seed, scale=1.0, facet=None, keep_env=None):
    chk = CHECKS[pid]
    chk["id"] = pid
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    variants = chk.get("variants", ["asan", "plain"])
    bins = {}
    with cf.ThreadPoolExecutor(max_workers=3) as ex:
        fs = {v: ex.submit(build, chk, v) for v in variants}
        for v, f in fs.items():
            bins[v], err = f.result()
            if bins[v] is None and v in chk.get("optional", []):
                log("%s: variant %s does not build here and is left out:\n%s" % (pid, v, err[-1500:]))
                chk.setdefault("assumptions", []).append("the %s variant could not be built and was left out" % v)
                continue
            if bins[v] is None:
                print("CHECK-ERROR property=%s cannot build (%s):\n%s" % (pid, v, err))
                return 2
    tb = time.time() - t0
    log("%s built in %.1fs" % (pid, tb))
    stats = {}
    violated = None
    variants = [v for v in variants if bins[v]]
    for v in variants:
        sp = os.path.join(EVID, "%s.%s.stats.json" % (pid, v))
        rp = os.path.join(EVID, "replays", "%s-%s.replay" % (pid, v))
        for p in (sp, rp):
            if os.path.exists(p):
                os.remove(p)
        scratch = os.path.join(BUILD, "scratch-%s-%d" % (pid, os.getpid()))
        os.makedirs(scratch, exist_ok=True)
        env = dict(os.environ, VERIF_SEED=str(seed), OMP_WAIT_POLICY="passive", GOMP_SPINCOUNT="0",
                   OMP_NUM_THREADS="1", OMP_DYNAMIC="false", PBT_SCRATCH=scratch, PBT_REPO=REPO, **ENV[v])
        vscale = scale * chk.get("scale", {}).get(v, 1.0)
        deadline = (260 if tier == "quick" else 1500)
        cmd = [bins[v], "--seed", str(seed), "--tier", tier, "--scale", str(vscale), "--stats", sp,
               "--replay-out", rp, "--variant", v, "--deadline", str(deadline)]
        if facet:
            cmd += ["--facet", facet]
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, text=True, cwd=scratch)
        shutil.rmtree(scratch, ignore_errors=True)
        if os.path.exists(sp):
            stats[v] = json.load(open(sp))
            os.remove(sp)
        if r.returncode == 1 and "PBT-VIOLATION" in r.stdout:
            violated = (v, rp)
            break
        if r.returncode != 0:
            print("CHECK-ERROR property=%s runner (%s) exited with %d\n%s" % (pid, v, r.returncode, r.stdout[-2000:]))
            return 2
    # ---- known findings -------------------------------------------------------
    listed = dict(known_findings(pid))
    seen = {}
    for st in stats.values():
        for f in st["facets"].values():
            for l, n in f["labels"].items():
                if l.startswith("KNOWN:"):
                    seen[l[6:]] = seen.get(l[6:], 0) + n
    rc = 0
    if violated:
        rc = 1
    for k, n in seen.items():
        if k in listed:
            print("KNOWN-FINDING: property=%s %s (%d cases)" % (pid, listed[k], n))
        elif rc == 0:
            rp = os.path.join(EVID, "replays", "%s-unlisted-%s.txt" % (pid, k))
            with open(rp, "w") as f:
                f.write("finding '%s' occurred in %d cases and is not listed in known_findings.txt\n" % (k, n))
            violated = (variants[0], rp)
            rc = 1
    write_evidence(pid, chk, tier, seed, stats, time.time() - t0, tb, rc)
    if violated:
        v, rp = violated
        st = stats.get(v, {})
        print("property %s violated (facet %s, variant %s)\ncase: %s\nfailure: %s" % (
            pid, st.get("fail_facet"), v, st.get("fail_desc", "")[:1500], st.get("fail_msg", "")[:2500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    else:
        ev = sum(f["evaluations"] for s in stats.values() for f in s["facets"].values())
        print("OK property=%s cases=%d wall=%.1fs (build %.1fs)" % (pid, ev, time.time() - t0, tb))
    return rc


def write_evidence(pid, chk, tier, seed, stats, wall, tb, rc):
    ev = nt = 0
    samples, facets, unconf = [], {}, 0
    rule, assumptions, dl = "", [], False
    for v, st in stats.items():
        rule = st["rule"]
        assumptions = st["assumptions"]
        unconf += st["unconfirmed"]
        dl |= st["deadline_hit"]
        for n, f in st["facets"].items():
            ev += f["evaluations"]
            nt += f["distinct_nontrivial"]
            facets["%s@%s" % (n, v)] = {k: f[k] for k in ("evaluations", "distinct_nontrivial", "slowest_case_ms", "labels")}
            samples += ["%s@%s: %s" % (n, v, s) for s in f["samples"][:2]]
    doc = dict(property=pid, tier=tier, seed=int(seed), level="exploration",
               coverage=dict(evaluations=ev, distinct_nontrivial=nt, rule=rule, samples=samples[:40],
                             facets=facets, unconfirmed_failures=unconf, stopped_by_deadline=dl),
               assumptions=assumptions + chk.get("assumptions", []),
               wall_s=round(wall, 2), violations=1 if rc else 0)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)


def replay(pid, path):
    chk = CHECKS[pid]
    chk["id"] = pid
    txt = open(path).read()
    m = re.search(r"^variant (\S+)", txt, re.M)
    v = m.group(1) if m else chk.get("variants", ["asan"])[0]
    b, err = build(chk, v)
    if not b:
        print(err)
        return 2
    seed = re.search(r"^seed (\d+)", txt, re.M)
    scratch = os.path.join(BUILD, "scratch-%s-%d" % (pid, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, VERIF_SEED=seed.group(1) if seed else "1", OMP_WAIT_POLICY="passive",
               OMP_NUM_THREADS="1", PBT_SCRATCH=scratch, PBT_REPO=REPO, **ENV[v])
    r = subprocess.run([b, "--replay", os.path.abspath(path), "--variant", v], env=env, cwd=scratch)
    shutil.rmtree(scratch, ignore_errors=True)
    if r.returncode == 1:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return r.returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--facet")
    ap.add_argument("--replay")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    if a.list:
        for k in CHECKS:
            print(k, CHECKS[k]["harness"])
        return 0
    ids = list(CHECKS) if a.all else a.ids
    if a.replay:
        return replay(ids[0], a.replay)
    try:
        seed = int(a.seed)
    except ValueError:
        seed = int(sha(a.seed)[:8], 16)
    worst = 0
    for i in ids:
        rc = run_check(i, a.tier, seed, a.scale, a.facet)
        worst = max(worst, rc)
    return worst


if __name__ == "__main__":
    sys.exit(main())
