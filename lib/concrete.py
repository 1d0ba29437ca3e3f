"""The concrete layer: the contracts evaluated as oracles on the real code (bounded)."""
import glob, json, os, random, shutil, threading, time
from concurrent.futures import ThreadPoolExecutor

from common import HERE, REPO, WORK, env, sh, sysroot

HARNESS = os.path.join(HERE, "harness")
BIN = os.path.join(HARNESS, "target", "debug", "flowcheck")
PLAIN = ["default", "ignoremut", "conservative", "ignoremut-conservative"]
REC = ["recurse", "recurse-ignoremut", "recurse-conservative"]
# property -> (modes, generated files quick, generated files thorough)
PLAN = {
    "C01": (["default", "conservative", "ignoremut"], 1600, 12000),
    "C02": (["default", "ignoremut"], 1600, 12000),
    "C03": (["default", "conservative", "ignoremut"], 1600, 12000),
    "C04": (["default", "ignoremut", "conservative"], 1600, 12000),
    "C05": (["default", "conservative", "ignoremut"], 1600, 12000),
    "C06": (["default"], 1600, 12000),
    "C07": (PLAIN, 1600, 12000),
    "C08": (["default", "conservative", "ignoremut"], 1600, 12000),
    "C09": (["default", "conservative"], 1600, 12000),
    "C10": (["default", "recurse", "ignoremut"], 1600, 12000),
    "C11": (["default", "recurse", "ignoremut"], 1600, 12000),
    "C12": (PLAIN + ["recurse"], 1200, 8000),
    "C13": (REC, 1600, 12000),
    "C17": (["default", "recurse", "ignoremut"], 1200, 8000),
    "C18": (["default", "recurse"], 1600, 12000),
    "C14": (["default"], 800, 6000),
    "C15": (["default", "recurse", "ignoremut"], 240, 2400),
    "C16": (["default"], 0, 40),
}


class BuildFailed(Exception):
    pass


def build():
    """Builds the harness against /repo's working tree."""
    os.makedirs(WORK, exist_ok=True)
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target")
    rc, o, err = sh(["cargo", "build", "--offline"], timeout=600, env_=e, cwd=HARNESS)
    if rc != 0:
        raise BuildFailed(err[-6000:])


def run_env():
    e = env()
    root = sysroot()
    e["LD_LIBRARY_PATH"] = root + "/lib"
    e["FLOWCHECK_SYSROOT"] = root
    e["RUST_BACKTRACE"] = "0"
    e["RUSTC_ICE"] = "0"
    return e


def files_for(prop, tier, seed, tmp, e):
    def corpus(d):
        return sorted(glob.glob(os.path.join(HERE, "corpus", d, "*.rs")))
    n = PLAN[prop][2 if tier == "thorough" else 1]
    gen = os.path.join(tmp, "gen")
    out = []
    if n:
        cmd = [BIN, "gen", "--n", str(n), "--seed", str(seed), "--out", gen]
        if prop == "C14":
            cmd += ["--ifc", "1"]
        sh(cmd, env_=e, timeout=120)
        out = sorted(glob.glob(os.path.join(gen, "*.rs")))
    if prop == "C14":
        return corpus("ifc") + out
    if prop == "C16":
        return corpus("modes") + [os.path.join(HERE, "corpus", "modes", "names")] + out
    return corpus("upstream") + corpus("hand") + out


def chunks(xs, k):
    return [xs[i:i + k] for i in range(0, len(xs), k)]


def call(cmd, e, tmp, timeout):
    rc, o, err = sh(cmd, env_=e, timeout=timeout, cwd=tmp)
    findings, summary = [], None
    for line in o.splitlines():
        if line.startswith("FINDING "):
            findings.append(json.loads(line[8:]))
        elif line.startswith("SUMMARY "):
            summary = json.loads(line[8:])
    return rc, findings, summary, err


def run(prop, tier, seed, ded=None):
    """Returns dict(status ok|nobuild, findings, evals, ...)"""
    t0 = time.time()
    res = dict(findings=[], known=[], evaluations=0, nontrivial=0, programs=0, skipped=0,
               crashed=[], samples=[], modes=PLAN[prop][0], status="ok")
    try:
        build()
    except BuildFailed as ex:
        res.update(status="nobuild", log=str(ex))
        return res
    res["build_s"] = round(time.time() - t0, 1)
    e = run_env()
    tmp = os.path.join(WORK, f"run-{prop}-{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)
    try:
        files = files_for(prop, tier, seed, tmp, e)
        modes = PLAN[prop][0]
        budget = 3000 if tier == "thorough" else 330
        deadline = time.time() + budget
        effort = "4" if tier == "thorough" else "1"
        jobs = []
        per = 1 if prop in ("C16",) else 8
        # upstream and hand-written programs first; modes in one process
        if prop in ("C15",):
            for i, ch in enumerate(chunks(files, 6)):
                jobs.append((ch, [modes[i % len(modes)]]))
        else:
            for ch in chunks(files, per):
                jobs.append((ch, modes))

        def one(job):
            ch, ms = job
            left = deadline - time.time()
            if left < 5:
                return ch, None, [], None, "budget"
            cmd = [BIN, "run", "--props", prop, "--modes", ",".join(ms), "--seed",
                   str(seed), "--effort", effort, "--"] + ch
            rc, f, s, err = call(cmd, e, tmp, min(left, 300))
            return ch, rc, f, s, err

        with ThreadPoolExecutor(8) as ex:
            for ch, rc, f, s, err in ex.map(one, jobs):
                if s is None and err == "budget":
                    res["skipped"] += len(ch)
                    continue
                if s is None:
                    # the process died: find out which file, one at a time
                    for x in ch:
                        rc1, f1, s1, err1 = call(
                            [BIN, "run", "--props", prop, "--modes", ",".join(modes),
                             "--seed", str(seed), "--effort", effort, "--", x], e, tmp,
                            300)
                        if s1 is None:
                            res["crashed"].append(dict(file=x, rc=rc1, err=err1[-800:]))
                        else:
                            add(res, prop, [x], f1, s1)
                    continue
                add(res, prop, ch, f, s)
        # end-to-end programs and the listed known findings
        if prop in ("C01", "C02", "C03"):
            ends = sorted(glob.glob(os.path.join(HERE, "corpus", "e2e", "*.rs")))
            rc, f, s, err = call([BIN, "e2e", "--"] + ends, e, tmp, 120)
            add(res, prop, ends, f, s)
        for k in known(prop):
            path = os.path.join(HERE, k["file"])
            rc, f, s, err = call([BIN, "e2e", "--", path], e, tmp, 120)
            rest = []
            for x in f:
                if x["body"] == k["body"] and x["kind"] == k["kind"]:
                    if k["id"] not in [i["id"] for i in res["known"]]:
                        res["known"].append(k)
                else:
                    rest.append(x)
            add(res, prop, [path], rest, s)
        keep_sources(res)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    res["wall_s"] = round(time.time() - t0, 1)
    return res


def keep_sources(res):
    for f in res["findings"][:20]:
        try:
            f["source"] = open(f["file"]).read()
        except OSError:
            pass
    for f in res["crashed"][:5]:
        try:
            f["source"] = open(f["file"]).read()
        except OSError:
            pass


def add(res, prop, files, findings, summary):
    res["findings"] += [f for f in findings if prop in f["props"]]
    if summary:
        ev = summary["evals"].get(prop, [0, 0])
        res["evaluations"] += ev[0]
        res["nontrivial"] += ev[1]
        res["programs"] += len(files) - len(summary["skipped"])
        if ev[1] and len(res["samples"]) < 3:
            res["samples"].append(dict(
                programs=[os.path.basename(f) for f in files][:4],
                evaluations=ev[0], nontrivial=ev[1]))


def known(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["known"] if k["property"] == prop]
