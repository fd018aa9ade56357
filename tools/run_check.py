#!/usr/bin/env python3
"""run_check.py <property> [quick|thorough]   -- one check: build, explore exhaustively, replay, report.

Exit 0: the property held on everything explored.  Exit 1 + VIOLATION lines: it is broken."""
import json, mmap, os, re, shutil, signal, struct, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from vbuild import VERIF, REPO
import specs

OUT = os.path.join(VERIF, ".out")
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))

def unesc(s):
    out = bytearray(); i = 0; b = s.encode("utf-8")
    while i < len(b):
        if b[i:i+1] == b"\\":
            c = b[i+1:i+2]
            if c == b"\\": out += b"\\"; i += 2
            elif c == b"n": out += b"\n"; i += 2
            elif c == b"x": out.append(int(b[i+2:i+4], 16)); i += 4
            else: i += 1
        else:
            out += b[i:i+1]; i += 1
    return bytes(out)

def esc(b):
    r = ""
    for c in b:
        if c == 92: r += "\\\\"
        elif c == 10: r += "\\n"
        elif c < 32 or c >= 127: r += "\\x%02x" % c
        else: r += chr(c)
    return r

SHM_HDR = 7 * 8
def read_shm(p):
    try:
        d = open(p, "rb").read()
    except FileNotFoundError:
        return None
    index, ev, tr, traces, nontriv, done, idlen = struct.unpack_from("7Q", d, 0)
    return dict(index=index, evaluations=ev, transitions=tr, traces=traces, nontrivial=nontriv, done=done,
                id=d[SHM_HDR:SHM_HDR + idlen])

def env_for(h):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_abort=0:detect_stack_use_after_return=0:alloc_dealloc_mismatch=1:allocator_may_return_null=1:max_allocation_size_mb=2000"
    e["LC_ALL"] = "C.UTF-8"
    e["VERIF_REPO"] = REPO
    e.update(h.get("env", {}))
    return e

def describe_exit(rc):
    if rc < 0:
        try: return "killed by %s" % signal.Signals(-rc).name
        except ValueError: return "killed by signal %d" % -rc
    return "exit status %d" % rc

class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.spec = specs.SPECS[pid]
        self.viols = []          # dict(harness,key,case(bytes),detail)
        self.cov = dict(evaluations=0, transitions=0, traces=0, nontrivial=0)
        self.states, self.outcomes = set(), set()
        self.samples, self.tally, self.counts = [], {}, {}
        self.bounds, self.capped = [], []

    def replay(self, exe, h, case, timeout):
        d = os.path.join(OUT, self.pid); os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "replay-case.bin")
        open(f, "wb").write(case)
        try:
            r = subprocess.run([exe, "--replay-file", f, "--case-timeout", "0"] + (["--thorough"] if self.tier == "thorough" else []) + h.get("args", []),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env_for(h), timeout=timeout, cwd=self.scratch)
            return r.returncode, r.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as e:
            return None, "no answer after %d s, running alone" % timeout

    def run_harness(self, h):
        t0 = time.time()
        exe = vbuild.build(h["name"], h["src"], h.get("repo", []), **h.get("build", {}))
        self.build_s = getattr(self, "build_s", 0) + time.time() - t0
        d = os.path.join(OUT, self.pid, h["name"])
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        self.scratch = os.path.join(d, "scratch"); os.makedirs(self.scratch)
        n = h.get("shards", JOBS)
        tmo = h.get("case_timeout", 12)
        procs = {}
        def start(i, skip=0):
            sc = os.path.join(self.scratch, str(i)); os.makedirs(sc, exist_ok=True)
            cmd = [exe, "--shard", str(i), "--nshards", str(n), "--skip-until", str(skip), "--out", os.path.join(d, "s%d" % i),
                   "--case-timeout", str(tmo)] + (["--thorough"] if self.tier == "thorough" else []) + h.get("args", [])
            log = open(os.path.join(d, "s%d.log" % i), "ab")
            procs[i] = subprocess.Popen(cmd, stdout=log, stderr=log, env=env_for(h), cwd=sc)
        pending = list(range(n)); restarts = {i: 0 for i in range(n)}; crashes = []
        deadline = time.time() + h.get("max_s", 780 if self.tier == "quick" else 6 * 3600)
        while pending or procs:
            while pending and len(procs) < JOBS:
                start(pending.pop(0))
            done = [i for i, p in procs.items() if p.poll() is not None]
            if not done:
                if time.time() > deadline:
                    for p in procs.values(): p.kill()
                    self.capped.append("%s: stopped at the time cap" % h["name"]); break
                time.sleep(0.02); continue
            for i in done:
                p = procs.pop(i); rc = p.returncode
                sh = read_shm(os.path.join(d, "s%d.shm" % i))
                if rc == 0 and sh and sh["done"]:
                    continue
                if rc == 77 or sh is None or sh["index"] == 0:
                    log = open(os.path.join(d, "s%d.log" % i), "rb").read()[-3000:].decode("utf-8", "replace")
                    if rc != 77 and sh is not None and (rc < 0):
                        crashes.append((b"", rc, "died outside a case: " + log)); continue
                    raise RuntimeError("harness %s shard %d: %s\n%s" % (h["name"], i, describe_exit(rc), log))
                log = open(os.path.join(d, "s%d.log" % i), "rb").read()[-2500:].decode("utf-8", "replace")
                full = open(os.path.join(d, "s%d.log" % i), "rb").read().decode("utf-8", "replace")
                at = max(full.rfind("ERROR: AddressSanitizer"), full.rfind("Assertion"), full.rfind("terminate called"))
                crashes.append((sh["id"], rc, full[at:at + 2500] if at >= 0 else log))
                restarts[i] += 6 if rc == -signal.SIGALRM else 1
                if restarts[i] <= 12:
                    start(i, sh["index"])
                else:
                    self.capped.append("%s: shard %d stopped after %d crashes" % (h["name"], i, restarts[i]))
        for i in range(n):
            b = os.path.join(d, "s%d" % i)
            sh = read_shm(b + ".shm")
            if sh:
                for k in ("evaluations", "transitions", "traces", "nontrivial"): self.cov[k] += sh[k]
            if os.path.exists(b + ".cov"):
                c = json.load(open(b + ".cov"))
                if i < 2 and len(self.samples) < 12: self.samples += c["samples"][:3]
                for k, v in c["tally"].items(): self.tally[k] = self.tally.get(k, 0) + v
                for k, v in c["viol"].items(): self.counts[k] = self.counts.get(k, 0) + v
            for ext, s in ((".states", self.states), (".outcomes", self.outcomes)):
                if os.path.exists(b + ext):
                    raw = open(b + ext, "rb").read()
                    s.update(struct.unpack("%dQ" % (len(raw) // 8), raw))
            if os.path.exists(b + ".viol"):
                for line in open(b + ".viol"):
                    try: v = json.loads(line)
                    except ValueError: continue
                    self.viols.append(dict(h=h, exe=exe, key=v["key"], case=unesc(v["case"]), detail=v["detail"], index=v["index"]))
        hangs = 0
        for case, rc, log in sorted(crashes, key=lambda c: len(c[0])):
            key = "hang" if rc == -signal.SIGALRM else "crash"
            if key == "hang":       # re-run alone with a longer limit before calling it a hang
                if hangs >= 2: continue
                r, out = self.replay(exe, h, case, max(40, 3 * tmo))
                if r == 0: continue
                if r is None: hangs += 1
                if r is not None: key = "crash" if r != 1 else "late"
                log = out
            self.viols.append(dict(h=h, exe=exe, key=key, case=case, detail="%s; %s" % (describe_exit(rc), log), index=0))
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)
        self.bounds.append(h.get("bound", {}).get(self.tier) or h.get("bound", {}).get("quick", ""))

    def known(self):
        p = os.path.join(VERIF, "known", "findings.json")
        return [k for k in (json.load(open(p))["known"] if os.path.exists(p) else []) if k["property"] == self.pid]

    def main(self):
        t0 = time.time()
        os.makedirs(OUT, exist_ok=True)
        try:
            for h in self.spec["harnesses"]:
                if self.tier == "quick" and h.get("thorough_only"): continue
                self.run_harness(h)
        except vbuild.BuildError as e:
            # The code under test no longer builds with the harness: no verdict is possible.
            print("BUILD-ERROR: %s" % e); sys.exit(3)
        known = self.known(); hit = {}
        fresh = {}
        for v in self.viols:
            text = esc(v["case"])
            m = None
            for k in known:
                if re.fullmatch(k["key"], v["key"]) and re.fullmatch(k["case"], text, re.S):
                    m = k; break
            if m is not None:
                hit.setdefault(m["id"], [m, 0]); hit[m["id"]][1] += 1
            else:
                fresh.setdefault((v["h"]["name"], v["key"]), []).append(v)
        reported = []
        for key, vs in sorted(fresh.items()):
            vs.sort(key=lambda v: (len(v["case"]), v["case"]))
            for v in vs[:3]:                      # replay before report
                if v["key"] == "hang":            # confirmed above
                    reported.append((key, v, len(vs), v["detail"])); break
                r, out = self.replay(v["exe"], v["h"], v["case"], 120)
                if r == 0:
                    # not reproducible in isolation: believed only if the full exploration repeats it
                    v["detail"] += " [replay in a fresh process did not reproduce it; depends on earlier cases of its shard]"
                    v["unrepro"] = True
                reported.append((key, v, len(vs), out))
                if r != 0: break
        good = [x for x in reported if not x[1].get("unrepro")]
        keys_good = set(x[0] for x in good)
        final = good + [x for x in reported if x[0] not in keys_good][:3]
        for m, n in sorted(hit.values(), key=lambda x: x[0]["id"]):
            print("KNOWN-FINDING: property=%s %s (%d explored case(s))" % (self.pid, m["what"], n))
        rd = os.path.join(OUT, "replays"); os.makedirs(rd, exist_ok=True)
        for i, (key, v, n, out) in enumerate(final):
            rp = os.path.join(rd, "%s-%d.json" % (self.pid, i))
            json.dump(dict(property=self.pid, harness=v["h"]["name"], key=v["key"], case=esc(v["case"]), tier=self.tier,
                           detail=v["detail"], cases_with_this_key=n, replay_output=out[-3000:],
                           how="python3 tools/replay.py %s" % rp), open(rp, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            print("  %s [%s] x%d case=%s" % (v["h"]["name"], v["key"], n, esc(v["case"])[:300]))
            print("  %s" % v["detail"][:700])
        if os.environ.get("VERIF_KEEP") is None:
            for h in self.spec["harnesses"]:
                shutil.rmtree(os.path.join(OUT, self.pid, h["name"]), ignore_errors=True)
        cov = dict(evaluations=self.cov["evaluations"], transitions=self.cov["transitions"],
                   states=len(self.states), traces_validated_against_impl=self.cov["traces"],
                   distinct_nontrivial=self.cov["nontrivial"] or len(self.outcomes),
                   distinct_outcomes=len(self.outcomes),
                   rule=self.spec.get("rule", ""), samples=self.samples or ["(none)"],
                   exhaustive=not self.capped, bounds=self.bounds, tally=self.tally)
        if self.capped: cov["caps_hit"] = self.capped
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=self.spec["level"],
                  coverage=cov, assumptions=self.spec.get("assumptions", []), wall_s=round(time.time() - t0, 2),
                  violations=len(final), build_s=round(getattr(self, "build_s", 0), 1),
                  known_findings_seen=[m["id"] for m, n in hit.values()])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        print("%s %s: %d cases, %d states, %d transitions, %d traces, %d distinct outcomes, build %.1fs, total %.1fs%s" % (
            self.pid, self.tier, self.cov["evaluations"], len(self.states), self.cov["transitions"], self.cov["traces"],
            len(self.outcomes), getattr(self, "build_s", 0), time.time() - t0, " CAPPED" if self.capped else ""))
        sys.exit(1 if final else 0)

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    Check(pid, tier).main()
