#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property of /repo's working tree.

Builds the explorers from the tree into a scratch directory, runs them, confirms
every violation by replay, writes evidence/<property>.json and cleans up."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

import lib_build as lb

HERE = os.path.dirname(os.path.abspath(__file__))
PROCS = int(os.environ.get("VERIF_PROCS", "8"))

# engine: (binary, kind)
SEQ = ["var", "const"]
CONC = ["conc", "wide", "concc"]
PROPS = {
    "C01": ("model_checking", SEQ + CONC), "C02": ("model_checking", SEQ + CONC),
    "C03": ("model_checking", SEQ + CONC), "C04": ("model_checking", SEQ + CONC),
    "C05": ("model_checking", SEQ + CONC), "C06": ("model_checking", CONC),
    "C07": ("model_checking", CONC), "C08": ("model_checking", CONC),
    "C09": ("model_checking", CONC), "C10": ("model_checking", CONC),
    "C11": ("model_checking", CONC), "C12": ("model_checking", SEQ + ["conc"]),
    "C13": ("exploration", ["const"]), "C14": ("exploration", SEQ),
    "C15": ("model_checking", SEQ + CONC), "C16": ("model_checking", SEQ + CONC),
    "C17": ("model_checking", SEQ + CONC), "C18": ("model_checking", ["depth", "depthc"]),
    "C19": ("exploration", ["var", "cfg"]), "C20": ("exploration", ["386"]),
    "C21": ("model_checking", CONC), "C22": ("exploration", CONC),
}
RULE = {
    "C12": "every enumerated key array (all arrays over small alphabets, permutations, one-off perturbations, shape families at every length) of every supported slice type, checked against a reference predicate; non-trivial: the keys are not already ascending",
    "C13": "every (n, answer) pair up to a bound, boundary values around powers of two up to MaxInt, and lower bounds in every small sorted array; non-trivial: the answer is strictly inside the range",
    "C14": "every supported, unsupported, named and nested argument type crossed with every entry point, compared with the documented dispatch; non-trivial: the argument is not an empty supported slice",
    "C19": "every tuning of a grid over the legal relations between the four limits, crossed with input families around each limit; a process start for every tuning of a grid around the documented limits; non-trivial: the keys are not already ascending, or the tuning differs from the default",
    "C22": "every arrangement of the families of harness/conc/cost.go at every length of the grid, run under default schedules with an access counter; non-trivial: more than two accesses per element",
    "C20": "the enumerations of the other input properties run by a 32-bit build; non-trivial: the keys are not already ascending",
}
# properties for which a crash of the process is a violation
CRASH = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C11", "C12", "C13", "C14", "C17", "C18", "C19", "C20", "C21", "C22"}

CFG_SRC = """package sorty

import (
	"os"
	"strconv"
	"strings"
)

// set as a user's package-level initializers (or a patched source) would
var _ = func() bool {
	f := strings.Split(os.Getenv("SORTY_CFG"), ",")
	n := func(i int) int { v, _ := strconv.Atoi(f[i]); return v }
	if len(f) == 5 {
		MaxLenIns, MaxLenInsFC, MaxLenRec, MaxLenRecFC = n(1), n(2), n(3), n(4)
		MaxGor, _ = strconv.ParseUint(f[0], 10, 64)
	}
	return true
}()
"""


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.level, self.engines = PROPS[prop]
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.t0 = time.time()
        self.budget = 330 if tier == "quick" else 800
        self.stats = {"evals": 0, "nontrivial": 0, "states": 0, "trans": 0, "traces": 0, "cut": 0, "bounded": 0}
        self.per, self.outcomes, self.peaks, self.findings = {}, {}, {}, {}
        self.samples, self.incomplete, self.notes = [], [], []
        self.viols = []
        self.lock = threading.Lock()
        self.stop = False
        self.kids = set()

    def left(self):
        return self.budget - (time.time() - self.t0)

    # ---- building

    def build(self, eng):
        w, out = os.path.join(self.work, "src-" + eng), os.path.join(self.work, eng)
        if eng == "var":
            lb.build_native(w, "seq", out, tags="tuneparam")
        elif eng == "const":
            lb.build_native(w, "seq", out)
        elif eng == "386":
            lb.build_native(w, "seq", out, tags="tuneparam", goarch="386")
        elif eng == "cfg":
            lb.build_native(w, "cfg", out, tags="tuneparam", replace={"z_verif_cfg.go": CFG_SRC})
        elif eng in ("conc", "depth"):
            lb.build_instr(w, "conc", out, depth=eng == "depth", tags="tuneparam,vrtwide" if eng == "depth" else "tuneparam")
        elif eng == "wide":
            lb.build_instr(w, "conc", out, tags="tuneparam,vrtwide")
        elif eng in ("concc", "depthc"):
            lb.build_instr(w, "conc", out, tags="", depth=eng == "depthc")
        return eng

    def build_all(self):
        ok = []
        with ThreadPoolExecutor(4) as ex:
            fs = [(e, ex.submit(self.build, e)) for e in self.engines]
            for e, f in fs:
                try:
                    ok.append(f.result())
                except (lb.BuildError, subprocess.TimeoutExpired) as err:
                    self.notes.append("engine %s could not be built: %s" % (e, str(err)[-1500:]))
                    self.incomplete.append("engine " + e)
        return ok

    # ---- running

    def popen(self, args, env=None):
        with self.lock:
            if self.stop:
                return None
            p = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                                 start_new_session=True, cwd=self.work, env=env)
            self.kids.add(p)
        return p

    def reap(self, p, timeout=None):
        try:
            o, e = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            self.kill(p)
            o, e = p.communicate()
            p.timed_out = True
        with self.lock:
            self.kids.discard(p)
        return o, e

    def kill(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def halt(self):
        with self.lock:
            self.stop = True
            kids = list(self.kids)
        for p in kids:
            self.kill(p)

    def env(self):
        e = dict(os.environ)
        e.update(GOTRACEBACK="single", GOGC="100", GOMAXPROCS="2", GOMEMLIMIT="3GiB")
        e.pop("SORTY_CFG", None)
        return e

    def replay(self, eng, case, timeout=200):
        """Message of the violation, or ''."""
        f = os.path.join(self.work, "rep-%s-%d.json" % (eng, threading.get_ident()))
        with open(f, "w") as fh:
            json.dump({"case": case}, fh)
        p = subprocess.run(["timeout", str(timeout), os.path.join(self.work, eng), "-prop", self.prop, "-tier", self.tier, "-stall", "25", "-replay", f],
                           capture_output=True, text=True, errors="replace", cwd=self.work, env=self.env())
        for l in p.stdout.split("\n"):
            if l.startswith('{"'):
                return json.loads(l)["msg"]
        if p.returncode not in (0, 124) and self.prop in CRASH:
            return "crash: " + crash_text(p.stderr)
        return ""

    def report(self, eng, case, msg):
        """A violation seen by an explorer: confirm it."""
        for n in range(3):
            if self.stop:
                return
            m = self.replay(eng, case)
            if m:
                with self.lock:
                    self.viols.append({"engine": eng, "case": case, "msg": msg, "replayed": m})
                self.halt()
                return
        with self.lock:
            self.notes.append("not reproduced by replay, not counted: %s %s" % (msg[:300], json.dumps(case)[:300]))
            self.incomplete.append("unreproduced report")

    def worker(self, eng, i, claim):
        mark = os.path.join(self.work, "mark-%s-%d" % (eng, i))
        for life in range(40):
            left = self.left() - 5
            if left < 2 and life > 0:
                return
            p = self.popen([os.path.join(self.work, eng), "-prop", self.prop, "-tier", self.tier, "-claim", claim,
                            "-mark", mark, "-deadline", "%.1f" % max(left, 1)], self.env())
            if p is None:
                return
            o, e = self.reap(p, max(left, 1) + 120)
            if self.stop:
                return
            done = self.take(eng, o)
            if done:
                return
            if self.stop:
                return
            if getattr(p, "timed_out", False):
                with self.lock:
                    self.incomplete.append("engine %s stuck" % eng)
                return
            self.crashed(eng, mark, e)

    def take(self, eng, out):
        done = stalled = False
        vs = []
        for l in out.split("\n"):
            if not l.startswith("{"):
                continue
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d["t"] == "viol":
                vs.append(d)
                stalled |= d["msg"].startswith("term: no answer")
            elif d["t"] == "stats":
                done = True
                with self.lock:
                    for k in self.stats:
                        self.stats[k] += d[k]
                    pe = self.per.setdefault(eng, {"evaluations": 0, "states": 0, "transitions": 0, "schedules": 0})
                    pe["evaluations"] += d["evals"]
                    pe["states"] += d["states"]
                    pe["transitions"] += d["trans"]
                    pe["schedules"] += d["traces"]
                    pe["max_goroutines"] = max(pe.get("max_goroutines", 0), d["max_threads"])
                    self.incomplete += ["%s: %s" % (eng, x) for x in d["incomplete"] or []]
                    for k, v in d["outcomes"].items():
                        self.outcomes[k] = self.outcomes.get(k, 0) + v
                    for k, v in (d["peaks"] or {}).items():
                        self.peaks[k] = max(self.peaks.get(k, 0), v)
                    for k, v in d["findings"].items():
                        self.findings.setdefault(k, (eng, v))
                    self.samples += [dict(s, engine=eng) for s in d["samples"] or []]
        for d in vs:
            self.report(eng, d["case"], d["msg"])
            if self.stop:
                break
        return done or stalled

    def crashed(self, eng, mark, err):
        """The process died: find the case in the task it was running."""
        try:
            task = open(mark).read()
        except OSError:
            task = ""
        text = crash_text(err)
        if self.prop not in CRASH:
            with self.lock:
                self.notes.append("engine %s died in %s (not judged here): %s" % (eng, task, text))
                self.incomplete.append("%s: %s (died)" % (eng, task))
            return
        j = os.path.join(self.work, "journal-%s-%d.json" % (eng, threading.get_ident()))
        for n in range(3):
            p = self.popen([os.path.join(self.work, eng), "-prop", self.prop, "-tier", self.tier, "-only", task + "=",
                            "-journal", j, "-deadline", "200"], self.env())
            if p is None:
                return
            self.reap(p, 240)
            if p.returncode == 0:
                continue
            try:
                case = json.load(open(j))["case"]
            except (OSError, ValueError):
                continue
            self.report(eng, case, "crash: " + text)
            if self.stop:
                return
        with self.lock:
            self.notes.append("engine %s died in %s, not reproduced: %s" % (eng, task, text))
            self.incomplete.append("%s: %s (died)" % (eng, task))

    def explore(self, eng):
        claim = os.path.join(self.work, "claim-" + eng)
        ts = [threading.Thread(target=self.worker, args=(eng, i, claim)) for i in range(PROCS)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    # ---- C19: process starts

    def start_one(self, cfg):
        p = subprocess.run(["timeout", "60", os.path.join(self.work, "cfg")], capture_output=True, text=True, errors="replace",
                           cwd=self.work, env=dict(self.env(), SORTY_CFG=",".join(map(str, cfg))))
        return p.returncode, p.stdout.split(), p.stderr

    def start_case(self, cfg):
        """'' or what is wrong with starting under cfg."""
        g, ins, insfc, rec, recfc = cfg
        want = 0 < g < 4097 and rec > recfc > 2 * ins and ins > insfc > 8
        rc, out, err = self.start_one(cfg)
        if want and (rc != 0 or out != ["started", "sorted"]):
            return "feasible configuration refused or failing: exit %d %s" % (rc, crash_text(err))
        if not want and "started" in out:
            return "infeasible configuration was accepted"
        return ""

    def starts(self):
        gs = [0, 1, 2, 3, 4095, 4096, 4097, 1 << 32, (1 << 64) - 1]
        cfgs = {(g, 60, 30, 600, 300) for g in gs} | {(g, 10, 9, 22, 21) for g in gs}
        for ins in (9, 10, 11, 12, 60, 150):
            for insfc in (-1, 0, 1, 7, 8, 9, 10, ins - 1, ins, ins + 1):
                for recfc in (ins, 2 * ins - 1, 2 * ins, 2 * ins + 1, 2 * ins + 2):
                    for rec in (recfc - 1, recfc, recfc + 1, recfc + 2):
                        cfgs.add((3, ins, insfc, rec, recfc))
        for c in ((3, -60, -30, 600, 300), (3, 60, 30, -1, -2), (3, 0, 0, 0, 0), (3, 60, 30, 300, 600), (3, 30, 60, 600, 300),
                  (1, 60, 30, 600, 300), (3, 60, 30, 1 << 40, 1 << 39)):
            cfgs.add(c)
        m = (1 << 63) - 1
        for ins in (m // 4, m // 2 - 1, m // 2, m // 2 + 1, m // 2 + 2, m - 3):
            for recfc in (m - 1, m // 2 + 5, m // 2 - 5, 300):
                for rec in (m, recfc + 1, recfc):
                    cfgs |= {(3, ins, ins - 1, rec, recfc), (3, ins, 9, rec, recfc), (3, -ins, -ins - 1, rec, recfc)}
        for rec in (m, m // 2 - 1, m // 2, m // 2 + 1, 1 << 32, (1 << 31) - 1):
            for recfc in (300, rec - 1, -m - 1, -m):
                cfgs |= {(3, 60, 30, rec, recfc), (1, 60, 30, rec, recfc), (3, 60, -m - 1, rec, recfc)}
        cfgs = sorted(cfgs)
        n = nt = 0

        def one(c):
            return c, "" if self.left() < 10 else self.start_case(c)
        with ThreadPoolExecutor(PROCS) as ex:
            for c, m in ex.map(one, cfgs):
                n += 1
                nt += c != (3, 60, 30, 600, 300)
                if m and not self.viols and self.start_case(c):
                    self.viols.append({"engine": "cfg", "case": {"op": "start", "env": list(c)}, "msg": m, "replayed": m})
        if self.left() < 10:
            self.incomplete.append("process starts")
        self.stats["evals"] += n
        self.stats["nontrivial"] += nt
        self.per["cfg"] = {"process starts": n}
        self.samples.append({"engine": "cfg", "case": {"MaxGor,MaxLenIns,MaxLenInsFC,MaxLenRec,MaxLenRecFC": list(cfgs[-1])}, "result": "as documented"})

    # ---- result

    def finish(self):
        known = known_findings()
        listed = []
        for key, (eng, f) in sorted(self.findings.items()):
            if (self.prop, key) in known:
                listed.append("KNOWN-FINDING: property=%s %s: %s" % (self.prop, key, f["msg"]))
            else:
                self.viols.append({"engine": eng, "case": f["case"], "msg": "unlisted finding %s: %s" % (key, f["msg"]), "replayed": ""})
        cov = {
            "evaluations": self.stats["evals"],
            "distinct_nontrivial": self.stats["nontrivial"],
            "rule": RULE.get(self.prop, "inputs enumerated by the explorers (all key arrays over small alphabets, permutations, perturbations, shape families at every length), each run natively and, for concurrent engines, under every schedule up to partial-order equivalence; non-trivial: keys not already ascending (native), more than one inequivalent schedule (concurrent)"),
            "samples": pick(self.samples, 6),
            "engines": self.per,
            "exhaustive": not self.incomplete and not self.stats["cut"],
        }
        if self.level == "model_checking":
            cov["states"] = self.stats["states"]
            cov["transitions"] = self.stats["trans"]
            cov["traces_validated_against_impl"] = self.stats["traces"]
            cov["schedules_cut_by_fairness"] = self.stats["cut"]
            cov["deviation_bounded_explorations"] = self.stats["bounded"]
        if self.outcomes:
            cov["outcomes"] = self.outcomes
        if self.peaks:
            cov["peaks"] = self.peaks
        if self.incomplete:
            cov["incomplete"] = self.incomplete[:30]
            cov["incomplete_count"] = len(self.incomplete)
        if self.notes:
            cov["notes"] = self.notes[:10]
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": self.level,
              "coverage": cov, "assumptions": ASSUME, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viols)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for l in listed:
            print(l)
        for n in self.notes[:5]:
            print("note:", n[:600])
        print("%s %s: %d inputs, %d schedules, %d states, %d transitions, %d incomplete, %.1f s" % (
            self.prop, self.tier, self.stats["evals"], self.stats["traces"], self.stats["states"], self.stats["trans"],
            len(self.incomplete), time.time() - self.t0))
        if self.viols:
            v = self.viols[0]
            os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
            path = os.path.join(HERE, "evidence", "replay", self.prop + ".json")
            with open(path, "w") as fh:
                json.dump(dict(v, property=self.prop), fh, indent=1)
            print(v["msg"][:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        return 0

    def main(self):
        ok = self.build_all()
        for n in self.notes:
            print("note:", n)
        if not ok:
            print("nothing could be built: no answer")
            return 2
        for eng in self.engines:
            if eng not in ok or self.stop or self.viols:
                continue
            if eng == "cfg":
                self.starts()
            else:
                self.explore(eng)
        return self.finish()


ASSUME = [
    "Go compiler and runtime are correct; native runs see Go's own scheduling",
    "schedules: sequentially consistent interleavings of the code's channel, atomic, sync and go operations and shared variables, one per partial-order class; element accesses are checked for happens-before races instead of being interleaved",
    "the instrumented copy behaves as the original: every explored schedule is an execution of the real code with its synchronisation replaced by the explorer's",
    "limits are scaled down with -tags tuneparam for dense enumeration; the default constants are explored too, at fewer lengths",
]


def crash_text(err):
    ls = [l for l in err.split("\n") if l.strip()]
    for i, l in enumerate(ls):
        if re.match(r"(panic|fatal error|runtime:|SIG|unexpected fault)", l):
            return " | ".join(ls[i:i + 6])[:500]
    return " | ".join(ls[:4])[:500]


def pick(l, n):
    seen, o = set(), []
    for s in l:
        k = (s.get("engine"), s.get("case", {}).get("subject"), len(o) < n // 2)
        if k not in seen:
            seen.add(k)
            o.append(s)
        if len(o) == n:
            break
    return o


def known_findings():
    o = set()
    for l in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+)", l)
        if m:
            o.add((m.group(1), m.group(2)))
    return o


def replay_file(path):
    v = json.load(open(path))
    r = Run(v["property"], "quick")
    try:
        if v["case"].get("op") == "start":
            r.build("cfg")
            m = r.start_case(tuple(v["case"]["env"]))
        else:
            r.build(v["engine"])
            m = r.replay(v["engine"], v["case"])
        print(m or "not reproduced")
        return 1 if m else 0
    finally:
        shutil.rmtree(r.work, ignore_errors=True)


def main():
    if sys.argv[1] == "--replay":
        return replay_file(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    r = Run(prop, tier)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    try:
        return r.main()
    finally:
        r.halt()
        shutil.rmtree(r.work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
