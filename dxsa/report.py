"""Collects obligations, prints verdicts, writes evidence."""
from __future__ import annotations

import json
import os
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obl = []            # (status, name, detail)
        self.viol = []           # (key, message, where)
        self.und = []
        self.analysed = set()
        self.assumptions = []
        self.notes = []
        self.t0 = time.time()

    # ------------------------------------------------------------ obligations
    def ok(self, name, detail=""):
        self.obl.append(("proved", name, detail))

    def bad(self, key, message, where="", detail=""):
        """A definite violation; `key` identifies rule and construct."""
        self.obl.append(("violated", key, message))
        if not any(k == key for k, *_ in self.viol):
            self.viol.append((key, message, where, detail))

    def undecided(self, name, why):
        self.obl.append(("undecided", name, str(why)[:400]))
        self.und.append((name, str(why)))

    def check(self, cond, key, message, where="", detail=""):
        if cond:
            self.ok(key)
        else:
            self.bad(key, message, where, detail)
        return cond

    def saw(self, items):
        self.analysed |= set(items)

    def guard(self, name, f, *a, **k):
        """Run one obligation group; anything the engine cannot follow is undecided."""
        from .term import Unsupported
        from .interp import AlwaysRaises
        from .term import show
        try:
            return f(*a, **k)
        except Unsupported as e:
            self.undecided(name, e)
        except AlwaysRaises as e:
            # every path of an operation the property needs ends in a raise
            what = ", ".join(sorted({show(r[2]) for r in e.raises}))[:160]
            self.bad(name + ":raises", f"{name}: the operation cannot succeed, every path raises {what}")
        except RecursionError as e:
            self.undecided(name, "recursion limit")
        except (AssertionError, KeyError, AttributeError, TypeError, ValueError, IndexError, NotImplementedError) as e:
            if os.environ.get("DXSA_DEBUG"):
                raise
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided(name, f"analysis could not follow the code: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})")
        return None

    def pmap(self, jobs):
        k = os.environ.get("DXSA_EVERY")       # development aid: a sample of the jobs
        if k:
            jobs = jobs[::int(k)] + [j for j in jobs[-1:] if j not in jobs[::int(k)]]
        """Run independent obligation groups [(name, f, args)] in worker processes; each f gets a fresh Report first."""
        if os.environ.get("DXSA_SERIAL") or len(jobs) == 1:
            for name, f, args in jobs:
                self.guard(name, f, self, *args)
            return
        import multiprocessing as mp
        ctx = mp.get_context("fork")
        n = min(int(os.environ.get("DXSA_WORKERS", "8")), len(jobs), os.cpu_count() or 1)
        global _JOBS
        _JOBS = (self.pid, self.tier, jobs)
        with ctx.Pool(n, initializer=_worker_init) as pool:
            for res in pool.imap(_worker, range(len(jobs)), chunksize=1):
                obl, viol, und, analysed, ass = res
                self.obl += obl
                for v in viol:
                    if not any(k == v[0] for k, *_ in self.viol):
                        self.viol.append(v)
                self.und += und
                self.analysed |= analysed
                self.assumptions += [a for a in ass if a not in self.assumptions]

    # ------------------------------------------------------------ output
    def finish(self):
        known = load_known()
        exit_code = 0
        reported, suppressed = [], []
        for key, msg, where, detail in self.viol:
            k = known.get((self.pid, key))
            if k is not None:
                print(f"KNOWN-FINDING: property={self.pid} {k}")
                suppressed.append(key)
            else:
                reported.append((key, msg, where, detail))
        rdir = os.path.join(HERE, "evidence", "replay")
        if reported:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{self.pid}.txt")
            with open(path, "w") as f:
                for key, msg, where, detail in reported:
                    f.write(f"rule/construct: {key}\nwhere: {where}\n{msg}\n{detail}\n\n")
            for key, msg, where, detail in reported:
                print(f"  {self.pid}: {msg} [{where}] ({key})")
            print(f"VIOLATION property={self.pid} replay={path}")
            exit_code = 1
        for name, why in self.und:
            print(f"UNDECIDED property={self.pid} obligation={name}: {why[:300]}")
        n = len(self.obl)
        proved = sum(1 for o in self.obl if o[0] == "proved")
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        ev = self.evidence(proved, n, reported, suppressed)
        with open(os.path.join(HERE, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.pid} [{self.tier}]: {proved}/{n} obligations discharged, {len(self.und)} undecided, "
              f"{len(reported)} violations, {len(suppressed)} known findings, {time.time() - self.t0:.1f}s")
        return exit_code

    def evidence(self, proved, n, reported, suppressed):
        from . import meta
        m = meta.PROPS[self.pid]
        cov = {
            "obligations": n,
            "discharged": proved,
            "explanation": m["rule"],
            "undecided": [list(u) for u in self.und][:40],
            "violations": [list(v[:3]) for v in reported][:40],
            "known_findings": suppressed,
            "analysed_constructs": sorted(self.analysed)[:400],
            "obligation_names": [f"{o[0]}: {o[1]}" for o in self.obl][:400],
            "checker_cmd": f"python3 /verif/dxsa/main.py {self.pid} --tier {self.tier}",
            "trusted_base": m.get("trusted", []),
        }
        return {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": m["level"],
            "coverage": cov,
            "assumptions": m.get("trusted", []) + self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(reported),
        }


_JOBS = None


def _worker_init():
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _worker(i):
    """Executed in a forked child, in a thread with a deep stack."""
    import threading
    pid, tier, jobs = _JOBS
    name, f, args = jobs[i]
    rep = Report(pid, tier)
    threading.stack_size(512 * 1024 * 1024)

    def run():
        try:
            rep.guard(name, f, rep, *args)
        except BaseException as e:      # never lose a worker
            rep.undecided(name, f"internal error {type(e).__name__}: {e}")
    t = threading.Thread(target=run)
    t.start()
    t.join()
    return rep.obl, rep.viol, rep.und, rep.analysed, rep.assumptions


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    out = {}
    if os.path.exists(p):
        for e in json.load(open(p)).get("findings", []):
            for k in e["keys"]:
                out[(e["property"], k)] = e["what"]
    return out
