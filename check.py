#!/usr/bin/env python3
"""Decides one property: runs the Kani contract harnesses of that property against
/repo's current working tree and reports.

  check.py <PROPERTY> [quick|thorough]

exit 0: every obligation that the back end decided was discharged (nothing violated)
exit 1: a named obligation failed (VIOLATION line, replay file under build/replay)
exit 2: the machinery could not be run at all
"""
import itertools, json, os, re, resource, shutil, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
KANI = os.path.join(VERIF, "kani")
REPLAY = os.path.join(VERIF, "replay")
REPO = "/repo"
FS = {}            # per-harness override of --max-field-sensitivity-array-size
DEFAULT_FS = 400
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)
T0 = time.time()
BUDGET = 860       # seconds, quick tier (the outer limit is 900)
log_lock = threading.Lock()
COUNTER = itertools.count()


def log(*a):
    with log_lock:
        print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def load(path, default):
    try:
        with open(path) as f:
            return json.load(f)
    except FileNotFoundError:
        return default


TIERS = ["quick", "thorough", "native"]  # native: only sampled, never given to the verifier


def harnesses_of(prop, tier):
    """Names are found in the harness sources: `    cNN_name [unwind] {`; an optional
    trailing comment `//@ k=v ...` carries options (tier=thorough, fs=N, kind=...)."""
    p = prop.lower()
    out = []
    for fn in sorted(os.listdir(os.path.join(KANI, "src"))):
        if not re.match(r"c\d\d.*\.rs$", fn):
            continue
        mod = fn[:-3]
        opts_next = {}
        for line in open(os.path.join(KANI, "src", fn)):
            m = re.match(r"\s*//@\s*(.*)$", line)
            if m:
                opts_next = dict(kv.split("=", 1) for kv in m.group(1).split() if "=" in kv)
                continue
            m = re.match(r"^    (c\d\d\w*) \[(\d+)\]", line)
            if m:
                name, unwind = m.group(1), int(m.group(2))
                o, opts_next = opts_next, {}
                if name.split("_")[0] == p:
                    if TIERS.index(o.get("tier", "quick")) > TIERS.index(tier):
                        continue
                    out.append({"mod": mod, "name": name, "id": f"{mod}::{name}", "unwind": unwind, **o})
            elif not line.strip().startswith("//") and not line.strip().startswith("#["):
                if line.strip():
                    opts_next = {} if not re.match(r"^    \w+ \[", line) else opts_next
    return out


def kani_cmd(target, hs, features, extra=(), fs=DEFAULT_FS, post=True):
    cmd = ["cargo", "kani", "--target-dir", target, "--no-default-features"]
    if features:
        cmd += ["--features", ",".join(features)]
    cmd += ["-Z", "unstable-options", "-Z", "function-contracts", "-Z", "stubbing",
            "-Z", "loop-contracts",
            "--no-memory-safety-checks", "--no-assertion-reach-checks", "--exact"]
    for h in hs:
        cmd += ["--harness", h]
    cmd += list(extra)
    if post:
        cmd += ["--cbmc-args", "--max-field-sensitivity-array-size", str(fs)]
    return cmd


MEM = 9 << 30      # address space of any one process of a check


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))


def run(cmd, cwd, timeout, out):
    """Runs in its own process group; kills the group on timeout. Returns rc or None."""
    with open(out, "wb") as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=f, stderr=subprocess.STDOUT,
                             start_new_session=True, preexec_fn=limit)
        try:
            return p.wait(timeout=max(1, timeout))
        except subprocess.TimeoutExpired:
            import signal
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            return None


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.deadline = T0 + (BUDGET if tier == "quick" else 3 * 3600)
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        self.keep = os.environ.get("WZ_BUILD_DIR")
        self.dir = self.keep or tempfile.mkdtemp(prefix=f"{prop}-", dir=os.path.join(VERIF, "build"))
        os.makedirs(self.dir, exist_ok=True)
        self.replay_dir = os.path.join(VERIF, "build", "replay")
        os.makedirs(self.replay_dir, exist_ok=True)
        self.results = {}      # harness id -> dict
        self.native_state = None
        self.native_lock = threading.Lock()
        self.sampled = {}      # harness name -> (rc, output)
        self.runs = 0
        self.violations = []
        self.notes = []

    def left(self):
        return self.deadline - time.time()

    # ---------------------------------------------------------------- Kani
    def build_base(self, features):
        base = os.path.join(self.dir, "base")
        out = os.path.join(self.dir, "base.log")
        rc = run(kani_cmd(base, ["noop::noop"], features, ["--only-codegen"], post=False),
                 KANI, min(self.left(), 400), out)
        if rc != 0:
            self.notes.append("kani build failed: " + tail_errors(out))
            return None
        return base

    def run_shard(self, i, base, hs, features, fs, jobs):
        t = os.path.join(self.dir, f"shard{i}")
        if not os.path.isdir(t):
            subprocess.run(["cp", "-a", base, t], check=True)
        js = os.path.join(self.dir, f"shard{i}.json")
        if os.path.exists(js):
            os.remove(js)
        out = os.path.join(self.dir, f"shard{i}.log")
        ht = int(min(300 if self.tier == "quick" else 3000, max(30, self.left() - 60)))
        rc = run(kani_cmd(t, [h["id"] for h in hs], features,
                          ["-j", str(jobs), "--harness-timeout", str(ht), "--output-format", "terse",
                           "--export-json", js], fs), KANI, self.left() - 40, out)
        d = load(js, None)
        if d is None:
            why = "timeout" if rc is None else tail_errors(out)
            for h in hs:
                self.results[h["id"]] = {"status": "undetermined", "why": why, "h": h, "fs": fs}
            return
        stats = {c["harness_id"]: (c.get("cbmc_stats") or {}) for c in d.get("cbmc", [])}
        seen = {r["harness_id"]: r for r in d["verification_results"]["results"]}
        for h in hs:
            r = seen.get(h["id"])
            self.results[h["id"]] = self.classify(h, r, stats.get(h["id"], {}), t, fs)

    def classify(self, h, r, st, target, fs):
        res = {"h": h, "target": target, "fs": fs, "obligations": 0, "discharged": 0,
               "covers": 0, "covered": 0, "fails": [],
               "symex_s": st.get("runtime_symex_s") or 0,
               "solver_s": st.get("runtime_decision_procedure_s") or 0}
        if r is None or not r.get("checks"):
            res.update(status="undetermined", why="no result (timeout or back-end failure)")
            return res
        res["ms"] = r["duration_ms"]
        unsup = []
        for c in r["checks"]:
            cat, s, desc = c["category"], c["status"], c["description"]
            if cat == "cover":
                res["covers"] += 1
                if s == "Satisfied":
                    res["covered"] += 1
                continue
            res["obligations"] += 1
            if s in ("Success", "Unreachable"):
                res["discharged"] += 1
            elif s == "Failure":
                if cat in ("unwind", "unsupported_construct", "recursion") or "unwinding assertion" in desc \
                        or "is not currently supported by Kani" in desc:
                    unsup.append(f"{cat}: {desc[:120]} ({c['function'][:80]})")
                else:
                    loc = c.get("location") or {}
                    res["fails"].append({"description": desc, "category": cat, "function": c["function"],
                                         "at": f"{loc.get('file')}:{loc.get('line')}"})
        if res["fails"]:
            res["status"] = "failed"
        elif unsup:
            res.update(status="undetermined", why="; ".join(unsup[:3]))
        elif r["status"] != "Success":
            res.update(status="undetermined", why="back end reported " + r["status"])
        elif res["covered"] < res["covers"]:
            res.update(status="undetermined", why="vacuous: a witness of the precondition is unreachable")
        elif res["obligations"] == 0 or res["covers"] == 0:
            res.update(status="undetermined", why="vacuous: no obligation or no witness generated")
        else:
            res["status"] = "discharged"
        return res

    # ------------------------------------------------------------ native replay
    def native(self):
        """Builds the same harnesses natively against the real dependencies (once)."""
        with self.native_lock:
            return self.native_build()

    def native_build(self):
        if self.native_state is None:
            out = os.path.join(self.dir, "native.log")
            t = os.path.join(self.dir, "native")
            rc = run(["cargo", "build", "--offline", "--target-dir", t, "--no-default-features",
                      "--features", self.prop.lower() + ",hooks"] , REPLAY, min(300, self.left() - 20), out)
            if rc != 0:
                rc = run(["cargo", "build", "--offline", "--target-dir", t, "--no-default-features",
                          "--features", self.prop.lower()], REPLAY, min(300, self.left() - 20), out)
            self.native_state = os.path.join(t, "debug", "wz_replay") if rc == 0 else False
            if rc != 0:
                self.notes.append("native build failed: " + tail_errors(out))
        return self.native_state

    def native_run(self, args, timeout):
        exe = self.native()
        if not exe:
            return None, ""
        out = os.path.join(self.dir, f"nr{next(COUNTER)}.log")
        with tempfile.TemporaryDirectory(dir=self.dir) as scratch:
            rc = run([exe] + args, scratch, timeout, out)
        return rc, open(out, errors="replace").read()[-6000:]

    def sample_all(self, hs):
        """Every contract (the thorough ones too) executed natively on seeded inputs with
        the real dependencies; runs beside the verifier."""
        if not self.native():
            return
        secs = "1" if self.tier == "quick" else "20"

        def one(h):
            if self.left() > 120:
                self.sampled[h["name"]] = self.native_run(["search", h["name"], str(self.seed), secs], 60)
        with ThreadPoolExecutor(2) as ex:
            list(ex.map(one, hs))

    def playback(self, res):
        """Counterexample bytes of a failed harness, from Kani's concrete playback."""
        h = res["h"]
        out = os.path.join(self.dir, h["name"] + ".playback.log")
        cmd = kani_cmd(res["target"], [h["id"]], self.features,
                       ["-Z", "concrete-playback", "--concrete-playback=print",
                        "--harness-timeout", str(int(max(30, min(400, self.left() - 60))))],
                       res["fs"])
        run(cmd, KANI, min(420, self.left() - 45), out)
        txt = open(out, errors="replace").read()
        cases = []
        for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", txt, re.S):
            body = re.sub(r"//[^\n]*", "", m.group(1))
            b = []
            for v in re.finditer(r"vec!\[([^\]]*)\]", body):
                b += [int(x) for x in v.group(1).replace(" ", "").split(",") if x]
            if b not in cases:
                cases.append(b)
        return cases, txt[-4000:]

    def report_failure(self, res):
        h = res["h"]
        name = h["name"]
        rp = os.path.join(self.replay_dir, f"{self.prop}-{name}.json")
        info = {"property": self.prop, "harness": h["id"], "failed_obligations": res["fails"],
                "replay_cmd": f"cd {REPLAY} && cargo run --offline --features {self.prop.lower()},hooks -- replay {name} <bytes-hex>"}
        cases, ptxt = ([], "")
        native = self.native()
        rc, txt = self.sampled.get(name, (None, ""))
        if rc == 1:
            m = re.search(r"FAILING-INPUT (\S+)", txt)
            info.update(confirmed=True, input_hex=m.group(1) if m else "?", native_output=txt)
        elif native and self.left() > 90:
            cases, ptxt = self.playback(res)
            for b in cases:
                hexs = bytes(b).hex() or "-"
                rc, txt = self.native_run(["replay", name, hexs], 60)
                if rc == 1:
                    info.update(confirmed=True, input_hex=hexs, native_output=txt)
                    break
        if native and not info.get("confirmed") and self.left() > 40:
            rc, txt = self.native_run(["search", name, str(self.seed), "20"], 40)
            if rc == 1:
                m = re.search(r"FAILING-INPUT (\S+)", txt)
                info.update(confirmed=True, input_hex=m.group(1) if m else "?", native_output=txt)
        if not info.get("confirmed"):
            info["verifier_output"] = ptxt
            info["counterexamples_tried"] = [bytes(b).hex() for b in cases]
        with open(rp, "w") as f:
            json.dump(info, f, indent=1)
        for x in res["fails"][:5]:
            log(f"FAILED OBLIGATION {h['id']}: {x['description'][:160]} in {x['function'][:100]} at {x['at']}")
        self.violations.append((rp, bool(info.get("confirmed")), h["id"], res["fails"][0]["description"][:200]))

    def report_native(self, res, txt):
        h = res["h"]
        rp = os.path.join(self.replay_dir, f"{self.prop}-{h['name']}.json")
        m = re.search(r"FAILING-INPUT (\S+)", txt)
        with open(rp, "w") as f:
            json.dump({"property": self.prop, "harness": h["id"], "why_not_kani": res.get("why"),
                       "input_hex": m.group(1) if m else "?", "native_output": txt, "confirmed": True}, f, indent=1)
        self.violations.append((rp, True, h["id"], "contract fails natively"))

    # ----------------------------------------------------------------- main
    def main(self):
        hs = harnesses_of(self.prop, self.tier)
        if not hs:
            log("no harness for", self.prop)
            return 2
        costs = load(os.path.join(VERIF, "costs.json"), {})
        p = self.prop.lower()
        every = harnesses_of(self.prop, "native")
        self.features = [p] + (["hooks"] if any(h.get("needs") == "hooks" for h in hs) else [])
        sampler = threading.Thread(target=self.sample_all, args=(every,))
        sampler.start()
        hook = [h for h in hs if h.get("needs") == "hooks"]
        groups = []           # (features, harnesses)
        groups.append(([p], [h for h in hs if h.get("needs") != "hooks"]))
        if hook:
            groups.append(([p, "hooks"], hook))
        self.features = [p] + (["hooks"] if hook else [])
        shards = []
        total_cost = sum(costs.get(h["id"], 15) for h in hs)
        ok_any = False
        base = self.build_base(self.features)
        if base is None and hook:
            self.features = [p]
            base = self.build_base([p])
            if base is not None:
                for h in hook:
                    self.results[h["id"]] = {"status": "undetermined", "h": h,
                                             "why": "hooked item is gone: its contract cannot be generated"}
                hs = [h for h in hs if h.get("needs") != "hooks"]
        if base is not None:
            log("dependencies and crate built")
            n = max(1, min(4, (len(hs) + 1) // 2))
            byfs = {}
            for h in hs:
                byfs.setdefault(int(h.get("fs", DEFAULT_FS)), []).append(h)
            for fs, lst in byfs.items():
                k = max(1, min(n, round(n * len(lst) / len(hs)) or 1))
                bins = [[0.0, []] for _ in range(k)]
                for h in sorted(lst, key=lambda h: -costs.get(h["id"], 15)):
                    b = min(bins, key=lambda b: b[0])
                    b[0] += costs.get(h["id"], 15) + 2
                    b[1].append(h)
                shards += [(b[1], fs) for b in bins if b[1]]
            jobs = max(2, min(8, -(-10 // len(shards))))
            with ThreadPoolExecutor(len(shards)) as ex:
                list(ex.map(lambda a: self.run_shard(a[0], base, a[1][0], self.features, a[1][1], jobs),
                            enumerate(shards)))
        else:
            for h in hs:
                self.results[h["id"]] = {"status": "undetermined", "why": "kani build failed", "h": h}
        sampler.join()
        for hid, r in self.results.items():
            if r["status"] == "failed":
                self.report_failure(r)
        for h in every:
            r = self.results.get(h["id"])
            rc, txt = self.sampled.get(h["name"], (None, ""))
            m = re.search(r"searched (\d+) inputs, (\d+) outside", txt)
            if m:
                self.runs += int(m.group(1)) - int(m.group(2))
            if rc == 1 and not (r and r["status"] == "failed"):
                self.report_native(r or {"h": h, "why": "sampled only in this tier"}, txt)
        und = [r for r in self.results.values() if r["status"] == "undetermined"]
        for r in und:
            log(f"UNDETERMINED {r['h']['id']}: {r.get('why')}")
        sampled = 0
        if und and not self.violations and self.left() > 60:
            if self.native():
                per = max(2, min(15, int((self.left() - 45) / len(und)) - 1))
                for r in und:
                    if self.left() < 30:
                        break
                    rc, txt = self.native_run(["search", r["h"]["name"], str(self.seed), str(per)], per + 20)
                    r["native"] = rc
                    if rc == 1:
                        self.report_native(r, txt)
                    elif rc == 0:
                        sampled += 1
        costs_out = os.environ.get("WZ_COSTS")
        if costs_out:
            c = load(costs_out, {})
            c.update({k: round(r["ms"] / 1000, 1) for k, r in self.results.items() if r.get("ms")})
            json.dump(c, open(costs_out, "w"), indent=0, sort_keys=True)
        self.evidence(und, sampled)
        done = [r for r in self.results.values() if r["status"] == "discharged"]
        for k in load(os.path.join(VERIF, "known_findings.json"), {"findings": []})["findings"]:
            if k.get("status") == "known" and k["property"] == self.prop:
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        log(f"{self.prop}: {len(done)}/{len(self.results)} contracts discharged, "
            f"{sum(r.get('discharged', 0) for r in self.results.values())} obligations, {len(und)} undetermined")
        for rp, conf, hid, what in self.violations:
            log(f"violated contract {hid}: {what}")
        if self.violations:
            rp, conf, _, _ = sorted(self.violations, key=lambda v: not v[1])[0]
            print(f"VIOLATION property={self.prop} replay={rp}" + ("" if conf else " no-failing-input-found"), flush=True)
            return 1
        if not done and not sampled:
            log("nothing could be decided:", "; ".join(self.notes)[:1500])
            return 2
        return 0

    def evidence(self, und, sampled):
        meta = load(os.path.join(VERIF, "meta.json"), {})
        m = meta.get(self.prop, {})
        rs = list(self.results.values())
        ob = sum(r.get("obligations", 0) for r in rs)
        dis = sum(r.get("discharged", 0) for r in rs)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": m.get("level", "other"),
            "coverage": {
                "obligations": ob, "discharged": dis,
                "checker_cmd": f"python3 check.py {self.prop} {self.tier}  (cargo kani 0.68.0, CBMC 6.11.0, CaDiCaL)",
                "trusted_base": meta.get("_trusted", []) + m.get("trusted", []),
                "functions_under_contract": m.get("functions", []),
                "contracts": {r["h"]["id"]: {
                    "status": r["status"], "unwind": r["h"]["unwind"],
                    "obligations": r.get("obligations", 0), "discharged": r.get("discharged", 0),
                    "witnesses": f"{r.get('covered', 0)}/{r.get('covers', 0)}",
                    "symex_s": round(r.get("symex_s", 0), 2), "solver_s": round(r.get("solver_s", 0), 2),
                    **({"why": r.get("why")} if r.get("why") else {}),
                    **({"native_sampled": True} if r.get("native") == 0 else {}),
                } for r in rs},
                "contracts_discharged": sum(r["status"] == "discharged" for r in rs),
                "contracts_total": len(rs),
                "undetermined_contracts": len(und),
                "native_executions_of_the_same_contracts": self.runs,
                "undetermined_sampled_natively": sampled,
                "back_end": "CBMC 6.11.0 bit-precise symbolic execution + CaDiCaL",
                "symex_s": round(sum(r.get("symex_s", 0) for r in rs), 1),
                "solver_s": round(sum(r.get("solver_s", 0) for r in rs), 1),
                "bounds": m.get("bounds", ""),
                "explanation": "contract-based verification: each contract is a precondition on symbolic inputs, a call of the real /repo code and a postcondition; "
                    f"{dis} of {ob} generated obligations (assertions, panics, arithmetic overflow, unwinding bounds) were discharged on this run. "
                    + m.get("note", "") + (" BOUNDED: " + m["bounds"] if m.get("bounds", "none")[:4] != "none" else ""),
            },
            "assumptions": m.get("assumptions", []) + self.notes[:3],
            "wall_s": round(time.time() - T0, 1),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{self.prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{self.prop}.json"))

    def close(self):
        if not self.keep:
            shutil.rmtree(self.dir, ignore_errors=True)


def tail_errors(path):
    try:
        t = open(path, errors="replace").read()
    except FileNotFoundError:
        return "?"
    m = re.search(r"^error.*", t, re.M)
    return (t[m.start():m.start() + 900] if m else t[-600:]).replace("\n", " | ")


if __name__ == "__main__":
    c = Check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick")
    try:
        rc = c.main()
    finally:
        c.close()
    sys.exit(rc)
