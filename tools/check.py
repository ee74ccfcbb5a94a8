#!/usr/bin/env python3
"""Decide one property: weave the contracts into /repo's current source, let
Verus discharge every obligation, and run the bounded replay harness.

    tools/check.py P05            (VERIF_TIER=quick|thorough, VERIF_SEED=n)

Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2: no answer.
"""
import array, fcntl, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, HERE)
from props import PROPS, UNITS  # noqa: E402

T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
ENV["PATH"] = "/root/.cargo/bin:/usr/local/bin:/opt/veriftools/bin:" + os.environ.get("PATH", "/usr/bin:/bin")
OLD = dict(ENV, RUSTUP_TOOLCHAIN="1.77.2", RUSTC_WRAPPER="")


def say(*a):
    print(*a, flush=True)


def elapsed():
    return time.time() - T0


# Proving stops here, so that the bounded part always has its time.
DEADLINE = 560


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def build_weaver():
    with Lock("weaver"):
        r = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(VERIF, "weaver"),
                           env=dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "weaver")), capture_output=True, text=True)
    return os.path.join(BUILD, "weaver/release/weaver") if r.returncode == 0 else (say(r.stderr[-3000:]), None)[1]


def build_replay():
    with Lock("replay"):
        r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "replay"),
                           env=dict(OLD, CARGO_TARGET_DIR=os.path.join(BUILD, "replay")), capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stderr[-3000:]
    return os.path.join(BUILD, "replay/debug/replay"), ""


def build_twiggy():
    with Lock("twiggy"):
        r = subprocess.run(["cargo", "build", "--offline", "-q", "-p", "twiggy", "--manifest-path", REPO + "/Cargo.toml",
                            "--target-dir", os.path.join(BUILD, "twiggy")], cwd=REPO, env=OLD, capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stderr[-3000:]
    return os.path.join(BUILD, "twiggy/debug/twiggy"), ""


# ---------------------------------------------------------------- the proof

VERDICT = re.compile(r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
                     r"possible arithmetic (under|over)flow|possible division by zero|decreases not satisfied|assertion not satisfied|"
                     r"constraint not satisfied|possible bit shift|unable to prove|recommendation not met|"
                     r"cannot show|failed this postcondition|loop invariant|termination|may not terminate|index out of bounds|"
                     r"arithmetic overflow|could not prove|possible overflow")
LIMIT = re.compile(r"[Rr]esource limit|rlimit|timed? ?out|while loop: not all errors")


CFG = sum([["--cfg", 'feature="%s"' % x] for x in ("emit_text", "emit_json", "emit_csv", "dwarf", "cli")], [])


class Unit:
    """One woven file and what Verus said about it."""

    def __init__(self, name, tmp):
        self.name, self.tmp = name, tmp
        self.failed = {}       # key -> [messages]  (a verdict)
        self.open = {}         # key -> why there is no verdict
        self.notes = []
        self.lemmas_failed = []
        self.times = {}
        self.nofile = False

    def weave(self, weaver, extra=()):
        self.rs = os.path.join(self.tmp, "u_%s.rs" % self.name)
        rep = os.path.join(self.tmp, "u_%s.json" % self.name)
        r = subprocess.run([weaver, os.path.join(VERIF, "specs", self.name + ".spec"), REPO, self.rs, rep, *extra],
                           capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(rep):
            self.notes.append("weaving failed: " + r.stderr[-500:])
            return False
        self.report = json.load(open(rep))
        self.text = open(self.rs).read()
        self.spans = []
        stack = []
        for m in re.finditer(r"/\*@([FE]) (.*?)\*/", self.text):
            line = self.text.count("\n", 0, m.start()) + 1
            if m.group(1) == "F":
                stack.append((m.group(2), line))
            else:
                for i in range(len(stack) - 1, -1, -1):
                    if stack[i][0] == m.group(2):
                        k, lo = stack.pop(i)
                        self.spans.append((lo, line, k))
                        break
        # Theorems: their own keys, so that a failing one is a verdict.
        self.theorems = set()
        for m in re.finditer(r"\bfn ((?:vp_)?theorem_\w+)", self.text):
            end = re.search(r"\n(?=(?:///|pub |proof |impl|fn |spec |broadcast |/\*@|mod |}|\Z))", self.text[m.start():])
            hi = m.start() + end.start() if end else len(self.text)
            line = lambda o: self.text.count("\n", 0, o) + 1
            # a body opening on its own line at column 0 belongs to the theorem
            b = self.text.find("\n}", m.start())
            self.spans.append((line(m.start()), line(b if b >= 0 else hi) + 1, m.group(1)))
            self.theorems.add(m.group(1))
        return True

    def key_at(self, line):
        best = None
        for lo, hi, k in self.spans:
            if lo <= line <= hi and (best is None or hi - lo < best[0]):
                best = (hi - lo, k)
        return best[1] if best else None

    def shape(self):
        d = {}  # functions of the same name in several modules count together
        for f in self.report["functions"]:
            d.setdefault(f["key"], []).extend([f["loops"], f["closures"]])
        return d

    def verus(self, args=()):
        cmd = ["verus", self.rs, *CFG, "--triggers-mode", "silent", "--multiple-errors", "4", "--output-json", "--time-expanded", *args]
        self.cmd = " ".join(cmd)
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=self.tmp, env=ENV, capture_output=True, text=True, timeout=max(5, min(420, DEADLINE - elapsed())))
            out, err = r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            out, err = "", "error: timed out\n"
        self.wall = time.time() - t
        try:
            js = json.loads(out)
        except ValueError:
            js = {}
        return js, err

    def errors(self, err):
        """(key or None, line, message, text) of each error."""
        res = []
        for b in re.split(r"\n(?=error|warning|note: )", "\n" + err):
            b = b.strip("\n")
            m = re.match(r"error(\[E\d+\])?: (.*)", b)
            if not m or m.group(2).startswith("aborting due"):
                continue
            lines = [int(x) for x in re.findall(r"--> %s:(\d+)" % re.escape(self.rs), b)]
            # Verus shows the failing site and the clause; also further labelled lines
            key = None
            for l in lines:
                key = self.key_at(l)
                if key:
                    break
            if not key:
                for x in re.findall(r"^\s*(\d+) \|", b, re.M):
                    key = self.key_at(int(x))
                    if key:
                        break
            res.append((key, lines[0] if lines else 0, m.group(2), b))
        return res

    def decide(self, weaver):
        base_file = os.path.join(VERIF, "specs", self.name + ".shape.json")
        base = json.load(open(base_file)) if os.path.exists(base_file) else {}
        forced = []
        for attempt in range(6):
            if not self.weave(weaver, sum([["--external", k] for k in forced], [])):
                self.nofile = True
                return
            js, err = self.verus()
            errs = self.errors(err)
            hard = [e for e in errs if not VERDICT.search(e[2]) and not LIMIT.search(e[2])]
            if not hard or not js.get("verification-results"):
                if not hard and js.get("verification-results") and not js["verification-results"].get("encountered-vir-error"):
                    break
            more = [e[0] for e in hard if e[0] and e[0] not in forced]
            if hard and len(more) == len([e for e in hard]) and attempt < 5:
                for k in more:
                    if k not in forced:
                        forced.append(k)
                        self.open[k] = "outside the verifier's subset: " + next(e[2] for e in hard if e[0] == k)
                continue
            self.nofile = True
            self.notes.append("the woven file is not accepted: " + (hard[0][3] if hard else err[-800:])[:1200])
            return
        fails = [e for e in errs if VERDICT.search(e[2])]
        limits = [e for e in errs if LIMIT.search(e[2])]
        if fails or limits:
            # A proof that is merely slow gets more resources before it counts.
            js2, err2 = self.verus(["--rlimit", "60"])
            if js2.get("verification-results"):
                js, errs = js2, self.errors(err2)
                fails = [e for e in errs if VERDICT.search(e[2])]
                limits = [e for e in errs if LIMIT.search(e[2])]
        self.js = js
        shape = self.shape()
        changed = {k for k in set(shape) | set(base) if base.get(k) != shape.get(k) and k not in forced} if base else set()
        added = {k for k in changed if k not in base}
        lost_keys = {l.split(": ")[1] if ": " in l else l for l in self.report["lost"]}
        for k, line, msg, text in limits:
            self.open[k or "spec:%d" % line] = "solver limit: " + msg
        opened = {f["key"] for f in self.report["functions"] if not f["external"] and (f["open_loops"] or f["open_closures"])}
        for k, line, msg, text in fails:
            if k is None:
                self.lemmas_failed.append("line %d: %s" % (line, msg))
                continue
            why = None
            if k in changed:
                why = "its loops or closures differ from the annotated ones"
            elif k in opened:
                why = "a loop or closure without a contract"
            elif k in lost_keys or any(l.startswith(k) or (": " + k) in l for l in self.report["lost"]):
                why = "an anchor of its annotations is gone"
            elif added:
                why = "functions without a contract were added: " + ", ".join(sorted(added))
            elif any(e[0] == k for e in limits):
                why = "solver limit"
            if why:
                self.open[k] = why + " (" + msg + ")"
            else:
                self.failed.setdefault(k, []).append(text)
        for l in self.report["lost"]:
            m = re.match(r"(?:\S+: )?(.*)", l)
            self.notes.append("lost anchor: " + l)
        # A contracted function that no longer exists proves nothing.
        for k in base:
            if k not in shape:
                self.open[k] = "the function is gone"
        # times
        for mod in js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in mod.get("function-breakdown", []):
                self.times[f["function"]] = self.times.get(f["function"], 0) + f.get("time-micros", 0)

    def verified(self):
        v = getattr(self, "js", {}).get("verification-results", {})
        return v.get("verified", 0), v.get("errors", 0)

    def trusted(self):
        """Everything in the woven file that is assumed and not proved."""
        t = []
        lines = self.text.split("\n")
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith("//"):
                continue
            if "external_body" in s or "assume_specification" in s or re.search(r"\badmit\(|\bassume\(", s) or re.match(r"(pub )?(broadcast )?(axiom|proof) fn axiom", s):
                k = self.key_at(i + 1)
                if k in self.theorems:
                    k = None
                elif k and any(f["key"] == k and f.get("assumed") for f in self.report["functions"]):
                    k += " (contract relied on; proved in its own unit)"
                m = None
                for j in range(i, min(i + 4, len(lines))):
                    m = re.search(r"(?:fn|struct|enum|trait) (\w+)|assume_specification\S*\s*\[\s*([^\]]+)\]|(impl.* for \w+)", lines[j])
                    if m:
                        break
                name = k or (next((g for g in m.groups() if g), s[:60]) if m else s[:60])
                if name not in t:
                    t.append(name)
        return t


# ---------------------------------------------------------------- the harness

def harness(prop, budget, seed, tmp, bin_, extra=None, workers=6):
    """Run the replay harness. Returns a dict."""
    exe, why = build_replay()
    res = {"ran": False, "evaluations": 0, "distinct": 0, "known": [], "samples": [], "broken": None, "replay": None}
    if not exe:
        res["why"] = "the harness does not build against this tree:\n" + why
        return res
    procs = []
    for w in range(workers):
        d = os.path.join(tmp, "w%d" % w)
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, "replay.txt")
        cmd = [exe, prop, "--seed", str(seed * 1000 + w), "--budget", str(budget), "--scratch", d, "--out", out]
        if bin_:
            cmd += ["--bin", bin_]
        if extra:
            cmd += extra
        so = open(os.path.join(d, "stdout"), "w+")
        procs.append((w, d, out, cmd, so, subprocess.Popen(cmd, stdout=so, stderr=subprocess.STDOUT, cwd=d)))
    deadline = time.time() + budget + 150
    pending = list(procs)
    stop = False
    while pending and time.time() < deadline:
        for p in list(pending):
            if p[5].poll() is not None:
                pending.remove(p)
                if p[5].returncode != 0:
                    stop = True
        if stop:
            break
        time.sleep(0.05)
    for p in pending:
        p[5].kill()
        p[5].wait()
    res["ran"] = True
    sigs = set()
    for w, d, out, cmd, so, p in procs:
        so.seek(0)
        text = so.read()
        so.close()
        line = next((l for l in reversed(text.split("\n")) if l.startswith("{")), None)
        if line:
            try:
                j = json.loads(line)
            except ValueError:
                j = None
            if j:
                res["evaluations"] += j["evaluations"]
                if os.path.exists(out[:-4] + ".sigs"):
                    a = array.array("Q")
                    a.frombytes(open(out[:-4] + ".sigs", "rb").read())
                    sigs.update(a)
                res["known"] += j["known"]
                if len(res["samples"]) < 3:
                    res["samples"] += j["samples"][:1]
                if j["broken"] and not res["broken"]:
                    res["broken"] = j["broken"]
                    res["replay"] = open(out).read() if os.path.exists(out) else j["broken"]
                continue
        if p in [x[5] for x in pending]:
            continue
        if p.returncode not in (0,) and not res["broken"]:
            # The process died: find the case.
            at = out[:-4] + ".at"
            info = open(at).read() if os.path.exists(at) else ""
            case = None
            if info:
                i = int(info.split()[1])
                r = subprocess.run(cmd + ["--start", str(i), "--count", "64", "--each", "1"], capture_output=True, text=True, cwd=d)
                if r.returncode not in (0, 1):
                    case = open(at).read().split()[0]
            if case or info:
                case = case or info.split()[0]
                res["broken"] = "the process was ended by signal or abort (status %s)" % p.returncode
                res["replay"] = "property %s\nrerun with: replay %s --case %s\n%s\n%s\n" % (prop, prop, case, res["broken"], text[-2000:])
    res["distinct"] = len(sigs)
    return res


def known_findings(prop):
    path = os.path.join(VERIF, "known-findings.txt")
    r = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\w+) (.*)", l.strip())
            if m and m.group(1) == prop:
                r.append(m.group(2))
    return r


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = PROPS[prop]
    thorough = tier == "thorough"
    tmp = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    try:
        code = run(prop, p, tier, thorough, seed, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def run(prop, p, tier, thorough, seed, tmp):
    bin_ = None
    if p.get("needs_bin"):
        bin_, why = build_twiggy()
        if not bin_:
            say("twiggy does not build: " + why)
            return 2
    units = {}
    own, undecided, failed, deps_bad = [], {}, {}, {}
    weaver = build_weaver() if p["units"] else None
    if p["units"] and not weaver:
        return 2
    total = discharged = 0
    functions, trusted, solver = [], [], 0.0
    cmds = []
    for uname in p["units"]:
        units[uname] = Unit(uname, tmp)
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda u: u.decide(weaver), units.values()))
    for uname, sel in p["units"].items():
        u = units[uname]
        cmds.append("weaver specs/%s.spec /repo u_%s.rs && verus u_%s.rs" % (uname, uname, uname))
        mine = sel.get("own", [])
        deps = sel.get("deps", [])
        if u.nofile:
            for k in (["all"] if mine == "all" else mine) + (deps if deps != "all" else ["all"]):
                undecided["%s:%s" % (uname, k)] = "; ".join(u.notes) or "not verified"
            total += 1
            continue
        keys = {f["key"]: f for f in u.report["functions"]}
        allk = mine == "all"
        if allk:
            mine = [k for k in keys if keys[k]["contract"] and not keys[k]["external"]] + sorted(u.theorems)
        v, e = u.verified()
        total += v + e
        discharged += v
        solver += sum(u.times.values()) / 1e6
        for k in mine:
            functions.append("%s (%s)" % (k, keys[k]["file"] if k in keys else "?"))
            if k in u.failed:
                failed["%s:%s" % (uname, k)] = u.failed[k]
            elif k in u.open:
                undecided["%s:%s" % (uname, k)] = u.open[k]
            elif k == "(derives)":
                gone = [l for l in u.report["lost"] if "derived traits" in l]
                if gone:
                    undecided["%s:%s" % (uname, k)] = "; ".join(gone)
            elif k not in keys and k not in u.theorems:
                undecided["%s:%s" % (uname, k)] = "the function is gone"
        for k in (list(keys) if deps == "all" else deps):
            if k in mine:
                continue
            functions.append("%s (%s, relied on)" % (k, keys[k]["file"] if k in keys else "?"))
            if k in u.failed or k in u.open:
                deps_bad["%s:%s" % (uname, k)] = (u.failed.get(k) or [u.open.get(k)])[0]
        for l in u.lemmas_failed:
            undecided["%s:lemma" % uname] = l
        trusted += [t for t in u.trusted() if t not in trusted]
        own += mine
    state = "proved"
    if failed:
        state = "refuted"
    elif undecided or deps_bad:
        state = "undetermined"
    for k, w in undecided.items():
        say("no verdict for %s: %s" % (k, str(w)[:400]))
    for k, w in deps_bad.items():
        say("not established: %s: %s" % (k, str(w)[:400]))
    for k, w in failed.items():
        say("failed obligation in %s:\n%s" % (k, "\n".join(w)[:1500]))
    # The bounded part.
    h = {"ran": False, "evaluations": 0, "distinct": 0, "known": [], "samples": [], "broken": None}
    if p.get("harness"):
        if state == "proved":
            budget = p.get("budget", 12) if not thorough else 240
        elif state == "refuted":
            budget = 150 if not thorough else 400
        else:
            budget = 100 if not thorough else 400
        if p["level"] != "proof" and state == "proved":
            budget = max(budget, p.get("budget", 40))
        h = harness(p["harness"], budget, seed, tmp, bin_)
        if not h["ran"]:
            say(h.get("why", ""))
    vacuous = None
    if thorough and state == "proved":
        vacuous = []
        for uname in p["units"]:
            vacuous += probe(uname, tmp, weaver)
    rdir = os.path.join(BUILD, "replays")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop + ".txt")
    verdict = 0
    violations = 0
    if h["broken"]:
        with open(rpath, "w") as f:
            f.write(h["replay"] or h["broken"])
            for k, w in failed.items():
                f.write("\nfailed obligation in %s\n%s\n" % (k, "\n".join(w)))
        say(h["broken"][:1500])
        say("VIOLATION property=%s replay=%s" % (prop, rpath))
        verdict, violations = 1, 1
    elif failed:
        with open(rpath, "w") as f:
            f.write("property %s\nno failing input found; the verifier refutes these obligations\n" % prop)
            for k, w in failed.items():
                f.write("\nfailed obligation in %s\n%s\n" % (k, "\n".join(w)))
        say("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rpath))
        verdict, violations = 1, 1
    elif state == "undetermined" and not h["ran"]:
        say("no answer: neither the proof nor the bounded check could be run")
        verdict = 2
    known = known_findings(prop)
    if h["known"]:
        for k in known:
            say("KNOWN-FINDING: property=%s %s" % (prop, k))
    cov = {
        "obligations": total,
        "discharged": discharged,
        "checker_cmd": "; ".join(cmds) or "none",
        "trusted_base": trusted + p.get("trusted", []),
        "functions_under_contract": functions,
        "backend": "Verus 0.2026.09.13 with Z3",
        "solver_seconds": round(solver, 2),
        "proof_state": state,
        "undetermined": {k: str(v)[:300] for k, v in {**undecided, **deps_bad}.items()},
        "failed": {k: v[0][:600] for k, v in failed.items()},
        "evaluations": h["evaluations"],
        "distinct_nontrivial": h["distinct"],
        "rule": p.get("rule", "random item graphs or modules compared with a brute-force oracle; non-trivial: more than one item and at least one edge, or a module with content; distinct by content"),
        "samples": h["samples"] or ["none"],
        "bounded_part": p.get("bounded", "replay harness: random cases, no exhaustiveness"),
        "known_findings_reproduced": h["known"][:2],
    }
    if vacuous is not None:
        cov["vacuity_probe"] = "every contracted function was re-verified with assert(false) at entry and refuted" if not vacuous else "not refuted: " + ", ".join(vacuous)
    if p["level"] == "other":
        cov["explanation"] = p["explain"]
    rew = {}
    for u in units.values():
        if not u.nofile:
            for k, v in u.report["rewrites"].items():
                rew[k] = rew.get(k, 0) + v
    cov["mechanical_rewrites"] = rew
    ev = {"property": prop, "tier": tier, "seed": seed, "level": p["level"], "coverage": cov,
          "assumptions": p.get("assumptions", []), "wall_s": round(elapsed(), 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    say("%s: %s; %d/%d obligations, %d functions, %.1f s solver; %d cases, %.0f s" % (prop, state, discharged, total, len(functions), solver, h["evaluations"], elapsed()))
    return verdict


def probe(uname, tmp, weaver):
    """Re-verify with assert(false) at every function entry; whatever is still
    accepted has a contradictory precondition."""
    u = Unit(uname, tmp)
    if not u.weave(weaver, ["--probe"]):
        return []
    js, err = u.verus()
    bad = {e[0] for e in u.errors(err)}
    return [f["key"] for f in u.report["functions"] if f["contract"] and not f["external"] and f["key"] not in bad]


if __name__ == "__main__":
    main()
