"""Obligations, verdicts, known findings and evidence files."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, title=""):
        self.pid = pid
        self.t0 = time.time()
        self.obl = []  # (key, ok, detail)
        self.samples = []
        self.notes = {}
        self.analysed = set()
        self.floors = []
        self.assumptions = []
        self.missing = False  # analyse gadgets with absent witness values (E01)
        self.only = None  # when set: record only the obligations it selects (used by checks that decide one aspect of another check's runs)

    def check(self, key, ok, detail="", rule=""):
        if self.only and not self.only(key):
            return ok
        self.obl.append((key, bool(ok), detail if not ok else ""))
        if ok and len(self.samples) < 12 and (not self.samples or self.samples[-1].split(":")[0] != key.split(":")[0]):
            self.samples.append((key + (" — " + rule if rule else ""))[:300])
        return ok

    def floor(self, what, n, least):
        if self.only and not self.only("floor:" + what):
            return
        self.floors.append((what, n, least))
        self.check("floor:" + what, n >= least, "%s: %d analysed, at least %d expected" % (what, n, least))

    def run(self, key, f, *a):
        """run an analysis step; failures of the analysis itself are violations (fail closed)"""
        from .interp import Imprecise, Diverge, SymIndex
        from .terms import TooBig, Blowup
        had = len(self.obl)
        try:
            return f(*a)
        except (Imprecise, Diverge, SymIndex, TooBig, Blowup, KeyError, TypeError, IndexError, AttributeError,
                ValueError, AssertionError, RecursionError, ZeroDivisionError, NotImplementedError) as e:
            if os.environ.get("SA_DEBUG"):
                import traceback
                traceback.print_exc()
            if self.only and any(self.only(o[0]) for o in self.obl[had:]):
                return None  # the selected aspect was decided before the rest failed
            self.check("analysis:" + key, False, "the analysis cannot establish the rule here: %s: %s" % (type(e).__name__, str(e)[:400]))
            return None

    def parallel(self, jobs, nproc=None):
        """jobs: (key, f, *args), each run by run() in a forked worker; returns one result per job (True when it returned something)"""
        import pickle
        import struct
        import tempfile
        nproc = min(nproc or os.cpu_count() or 1, len(jobs), 8)
        if nproc <= 1 or os.environ.get("SA_SERIAL"):
            return [bool(self.run(j[0], *j[1:])) for j in jobs]
        rd, wr = os.pipe()
        os.write(wr, b"".join(struct.pack("<I", i) for i in range(len(jobs))))
        os.close(wr)
        d = tempfile.mkdtemp(prefix="sapar")
        pids = []
        sys.stdout.flush()
        sys.stderr.flush()
        for w in range(nproc):
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    out = {}
                    while True:
                        b = os.read(rd, 4)
                        if len(b) < 4:
                            break
                        i = struct.unpack("<I", b)[0]
                        self.obl, self.samples, self.analysed, self.notes, self.floors = [], [], set(), {}, []
                        r = self.run(jobs[i][0], *jobs[i][1:])
                        out[i] = (bool(r), self.obl, self.samples, self.analysed, self.notes, self.floors)
                    with open(os.path.join(d, str(w)), "wb") as f:
                        pickle.dump(out, f)
                    rc = 0
                except BaseException:
                    import traceback
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    os._exit(rc)
            pids.append(pid)
        os.close(rd)
        res = {}
        for w, pid in enumerate(pids):
            _, st = os.waitpid(pid, 0)
            if st == 0:
                with open(os.path.join(d, str(w)), "rb") as f:
                    res.update(pickle.load(f))
        import shutil
        shutil.rmtree(d, ignore_errors=True)
        rets = []
        for i, j in enumerate(jobs):
            if i not in res:
                self.check("analysis:" + j[0], False, "the worker analysing this ended abnormally")
                rets.append(False)
                continue
            r, obl, samples, an, notes, floors = res[i]
            rets.append(r)
            self.obl += obl
            if len(self.samples) < 12:
                self.samples += samples[:2]
            self.analysed |= an
            self.floors += floors
            for k, v in notes.items():
                if isinstance(v, dict):
                    self.notes.setdefault(k, {}).update(v)
                else:
                    self.notes[k] = v
        return rets

    def known(self):
        out = set()
        p = os.path.join(ROOT, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith("known: property=%s " % self.pid):
                    rest = l.split(" ", 2)[2]
                    key = rest.split(" | ")[0].strip()
                    out.add(key)
        return out

    def finish(self, level="proof", checker="", trusted=(), extra=None):
        known = self.known()
        bad = [(k, d) for k, o, d in self.obl if not o]
        seen = set()
        viol = []
        for k, d in bad:
            if k in seen:
                continue
            seen.add(k)
            if k in known:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, d[:300]))
            else:
                viol.append((k, d))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        n = len(self.obl)
        cov = {
            "obligations": n,
            "discharged": sum(1 for o in self.obl if o[1]),
            "checker_cmd": checker or "python3 check.py %s" % self.pid,
            "trusted_base": list(trusted),
            "explanation": self.notes.get("explanation", ""),
            "functions_analysed": len(self.analysed),
            "functions": sorted(self.analysed)[:400],
            "samples": self.samples,
            "floors": ["%s: %d (floor %d)" % f for f in self.floors],
        }
        for k, v in self.notes.items():
            if k != "explanation":
                cov[k] = v
        if extra:
            cov.update(extra)
        ev = {
            "property": self.pid,
            "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER", "quick") in ("quick", "thorough") else "quick",
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(viol),
        }
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d discharged, %d functions analysed, %.1fs" % (
            self.pid, n, cov["discharged"], len(self.analysed), ev["wall_s"]))
        if viol:
            rp = os.path.join(ROOT, "replay", self.pid + ".txt")
            with open(rp, "w") as f:
                for k, d in viol:
                    f.write("%s\n    %s\n" % (k, d))
            for k, d in viol[:40]:
                print("  broken: %s: %s" % (k, d[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0
