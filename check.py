#!/usr/bin/env python3
"""check.py <property>: verify the contracts of one property on /repo's current
tree; on a failed obligation look for a failing input on the real code."""
import json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NOBODY = 65534


def env(**kw):
    e = dict(os.environ)
    e.update(GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=mod -buildvcs=false", **kw)
    return e


def load(name, default):
    p = os.path.join(V, name)
    if not os.path.exists(p):
        return default
    with open(p) as f:
        return json.load(f)


def build_gover():
    g = os.path.join(V, "bin", "gover")
    src = [os.path.join(V, "gover", f) for f in os.listdir(os.path.join(V, "gover"))]
    if not os.path.exists(g) or any(os.path.getmtime(s) > os.path.getmtime(g) for s in src):
        subprocess.run([os.path.join(V, "build.sh")], check=True, stdout=sys.stderr)
    return g


def run_gover(prop, work):
    out = os.path.join(work, "gover.json")
    cmd = [build_gover(), "-prop", prop, "-tier", TIER, "-repo", REPO,
           "-contracts", os.path.join(V, "contracts"), "-json", out, "-keep", os.path.join(work, "smt")]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=env(VERIF_WORK=work))
    sys.stdout.write(r.stdout)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        print("ERROR: the verifier could not process the tree (exit %d)" % r.returncode)
        return None, r.returncode, " ".join(cmd)
    with open(out) as f:
        return json.load(f), r.returncode, " ".join(cmd)


class Replay:
    """Runs the executable form of a property's contract on the real code."""

    def __init__(self, prop, conf, work, g):
        self.prop, self.conf, self.work = prop, conf, work
        self.dict = {"str": (g or {}).get("DictStr") or [], "int": (g or {}).get("DictInt") or []}
        self.fail = None
        self.log = []

    def compile(self, c, i):
        pkgdir = os.path.join(REPO, c["pkg"])
        pkgname = c.get("package") or os.path.basename(c["pkg"].rstrip("/"))
        d = os.path.join(self.work, "ov%d" % i)
        os.makedirs(d)
        repl = {}
        for f in ["common.go"] + c["files"]:
            s = open(os.path.join(V, "replay", f)).read()
            s = re.sub(r"(?m)^package \w+", "package " + pkgname, s, count=1)
            dst = os.path.join(d, f.replace("/", "_"))
            open(dst, "w").write(s)
            repl[os.path.join(pkgdir, "zz_verif_" + f.replace("/", "_").replace(".go", "") + "_test.go")] = dst
        if c.get("only_own"):
            # leave the package's own tests out of the binary
            empty = os.path.join(d, "empty.go")
            open(empty, "w").write("package %s\n" % pkgname)
            for f in os.listdir(pkgdir):
                if f.endswith("_test.go"):
                    repl[os.path.join(pkgdir, f)] = empty
        ov = os.path.join(d, "overlay.json")
        json.dump({"Replace": repl}, open(ov, "w"))
        bin = os.path.join(d, "t.test")
        cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", bin]
        if c.get("race"):
            cmd.append("-race")
        cmd.append("./" + c["pkg"])
        # -mod=mod may want to touch go.mod/go.sum: give it copies
        mf = os.path.join(d, "go.mod")
        shutil.copy(os.path.join(REPO, "go.mod"), mf)
        if os.path.exists(os.path.join(REPO, "go.sum")):
            shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(d, "go.sum"))
        cmd[2:2] = ["-modfile", mf]
        r = subprocess.run(cmd, cwd=REPO, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            self.log.append("replay harness does not compile against this tree:\n" + r.stdout[-3000:])
            return None
        return bin

    def run(self, budget, only=None):
        todo = [c for c in self.conf if (c.get("known") or None) == only]
        for i, c in enumerate(todo):
            bin = self.compile(c, i if only is None else 100 + i)
            if bin is None:
                continue
            scratch = tempfile.mkdtemp(prefix="vreplay.", dir="/tmp")
            try:
                d = os.path.join(scratch, "a", "b", "c", "d")
                os.makedirs(d)
                dic = os.path.join(d, "dict.json")
                json.dump(self.dict, open(dic, "w"))
                tb = os.path.join(scratch, "t.test")
                shutil.copy(bin, tb)
                os.chmod(tb, 0o755)
                for root, ds, fs in os.walk(scratch):
                    for n in [root] + [os.path.join(root, f) for f in fs]:
                        try:
                            os.chown(n, NOBODY, NOBODY)
                        except OSError:
                            pass
                cur = os.path.join(d, "cur")
                e = env(VERIF_DICT=dic, VERIF_SEED=str(SEED), VERIF_CUR=cur, VERIF_BUDGET=str(budget),
                        TMPDIR=d, HOME=d, GOMAXPROCS=str(c.get("procs", 8)), GORACE="halt_on_error=1")
                t0 = time.time()
                kw = dict(cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                cmd = [tb, "-test.run", "^" + c["run"] + "$", "-test.v", "-test.count=1", "-test.timeout", "%ds" % (budget + 60)]
                try:
                    if os.geteuid() == 0:
                        kw.update(user=NOBODY, group=NOBODY, extra_groups=[])
                    r = subprocess.run(cmd, timeout=budget + 90, **kw)
                    out, rc = r.stdout, r.returncode
                except subprocess.TimeoutExpired as x:
                    out, rc = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), -9
                except (PermissionError, subprocess.SubprocessError) as x:
                    self.log.append("the replay could not drop its privileges: %s" % x)
                    continue
                self.log.append("replay %s in %s: exit %s after %.1f s\n%s" % (c["run"], c["pkg"], rc, time.time() - t0, out[-6000:]))
                m = re.search(r"(?m)^\s*FAILING-INPUT (.*)$", out)
                if m:
                    self.fail = {"test": c["run"], "input": m.group(1), "output": out[-6000:]}
                    return True
                if rc != 0 and os.path.exists(cur):
                    case = open(cur, errors="replace").read()
                    if case:
                        self.fail = {"test": c["run"], "input": "the process ended (exit %s) while running: %s" % (rc, case), "output": out[-6000:]}
                        return True
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
        return False


def main():
    prop = sys.argv[1]
    t0 = time.time()
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="vcheck.%s." % prop, dir="/tmp")
    try:
        return check(prop, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, work, t0):
    conf = load("replay/config.json", {}).get(prop, [])
    known = [k for k in load("known-findings.json", {"findings": []})["findings"] if k["property"] == prop and k["status"] == "known"]
    g, rc, cmd = run_gover(prop, work)
    if g is None:
        return 2
    failed, total = [], 0
    by = {}
    secs = 0.0
    for u in g["Units"] or []:
        for o in u["Goals"] or []:
            total += 1
            secs += o["Ms"] / 1000.0
            if o["Status"] != "proved":
                failed.append(o)
            else:
                by[o["Solver"] or "evaluation"] = by.get(o["Solver"] or "evaluation", 0) + 1
    if total == 0:
        print("ERROR: no obligations for", prop)
        return 2
    funcs = sorted({u["Func"] for u in g["Units"] if not u["Func"].startswith("lemma ")})
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "proof",
        "coverage": {
            "obligations": total, "discharged": total - len(failed),
            "checker_cmd": "bin/gover -prop %s -tier %s" % (prop, TIER),
            "trusted_base": ["gover (translation of go/ssa of /repo to SMT)", "golang.org/x/tools go/ssa", "z3 4.8.12 / z3-new, cvc5"] + (g["Trusted"] or []),
            "functions_under_contract": funcs,
            "lemmas": sorted({u["Func"][6:] for u in g["Units"] if u["Func"].startswith("lemma ")}),
            "functions_inlined": sorted({f for u in g["Units"] for f in (u["Inlined"] or [])}),
            "library_functions_modelled": g["Natives"] or [],
            "loop_invariants_inferred": sum(len(u["Invariants"] or []) for u in g["Units"]),
            "invariant_obligations": g["InvObl"],
            "discharged_by": by,
            "solver_s": round(secs + 0.0, 2),
            "samples": [o["ID"] for u in g["Units"] for o in (u["Goals"] or [])][:12],
        },
        "assumptions": sorted(set((g["Trusted"] or []) + [
            "integers of width 64 are mathematical; float64 arithmetic is real arithmetic",
            "no allocation fails and no stack overflows"])),
        "wall_s": 0, "violations": 0,
    }
    rp = Replay(prop, conf, work, g)
    for k in known:
        r = Replay(prop, conf, work, g)
        if r.run(int(k.get("budget", 20)), only=k["id"]):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        else:
            print("note: the known finding %s no longer shows\n%s" % (k["id"], "\n".join(r.log)[-1500:]))
    status = 0
    if failed:
        status = 1
        budget = int(os.environ.get("VERIF_REPLAY_S", "60" if TIER == "quick" else "180"))
        hit = rp.run(budget)
        d = os.path.join(V, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + ".txt")
        with open(path, "w") as f:
            f.write("property %s\nfailed obligations (%d of %d):\n" % (prop, len(failed), total))
            for o in failed:
                f.write("  %s  at %s\n      verifier: %s\n" % (o["ID"], o["Pos"], o["Output"]))
            if hit:
                f.write("\nfailing input on the real code (%s):\n%s\n\n%s\n" % (rp.fail["test"], rp.fail["input"], rp.fail["output"]))
            else:
                f.write("\nno failing input was found on the real code\n")
            for l in rp.log:
                f.write("\n--- " + l + "\n")
            for o in failed[:3]:
                p = os.path.join(work, "smt")
                f.write("\nrepeat: %s -func '%s'\n" % (cmd, o["Func"]))
        print("failed obligation: " + "; ".join(o["ID"] for o in failed[:5]))
        if hit:
            print("failing input: " + rp.fail["input"][:600])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        ev["violations"] = len(failed)
    if TIER == "thorough" and not failed and conf:
        # not the deciding step: the executable form of the contract on the real code
        r = Replay(prop, conf, work, g)
        hit = r.run(60)
        ev["coverage"]["replay_harness_found_failure"] = bool(hit)
        if hit:
            print("ERROR: the replay harness disagrees with the proof:\n" + "\n".join(r.log)[-3000:])
            status = 2
    ev["wall_s"] = round(time.time() - t0, 2)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d/%d obligations discharged, %.1f s" % (prop, total - len(failed), total, time.time() - t0))
    return status


sys.exit(main())
