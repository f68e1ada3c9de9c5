"""Reporting: evidence, violations, known findings, exit codes."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(s, prop):
        s.prop, s.t0 = prop, time.time()
        s.obligations = 0
        s.discharged = 0
        s.undecided = []
        s.viol = []
        s.samples = []
        s.cov = {}
        s.assume = []
        s.rules = {}
        s.technique = ""

    def ok(s, rule, what=None, n=1):
        s.obligations += n
        s.discharged += n
        s.rules[rule] = s.rules.get(rule, 0) + n
        if what and sum(1 for x in s.samples if x.startswith(rule + ":")) < 4: s.samples.append("%s: %s" % (rule, what))

    def undec(s, rule, what):
        s.obligations += 1
        s.undecided.append("%s: %s" % (rule, what))

    def violation(s, rule, where, what, key=None):
        s.obligations += 1
        v = {"rule": rule, "where": where, "what": what, "key": key or "%s@%s" % (rule, where)}
        if v not in s.viol: s.viol.append(v)

    def count(s, k, n=1):
        s.cov[k] = s.cov.get(k, 0) + n

    def need(s, k, n):
        """analysis-broken guard: fewer instances than confirmed by hand"""
        from frontend import Broken
        if s.cov.get(k, 0) < n:
            raise Broken("%s: only %d %s analysed, expected at least %d" % (s.prop, s.cov.get(k, 0), k, n))

    def merge(s, o):
        s.obligations += o.obligations
        s.discharged += o.discharged
        s.undecided += o.undecided
        for v in o.viol:
            if v not in s.viol: s.viol.append(v)
        s.samples += o.samples
        for k, v in o.cov.items(): s.count(k, v)
        for k, v in o.rules.items(): s.rules[k] = s.rules.get(k, 0) + v

    def finish(s):
        known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf))["findings"] if k["property"] == s.prop]
        new = []
        for v in s.viol:
            hit = [k for k in known if k["rule"] == v["rule"] and k["function"] in v["where"] + " " + v["what"] and k.get("detail", "") in v["what"]]
            if hit: print("KNOWN-FINDING: property=%s %s" % (s.prop, hit[0]["what"]))
            else: new.append(v)
        cov = dict(s.cov)
        cov.update(obligations=s.obligations, discharged=s.discharged, undecided=len(s.undecided),
                   rules={k: v for k, v in sorted(s.rules.items())}, samples=s.samples[:24], undecided_list=s.undecided[:40],
                   explanation=s.technique)
        ev = {"property": s.prop, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1")),
              "level": "other", "coverage": cov, "assumptions": s.assume, "wall_s": round(time.time() - s.t0, 2),
              "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", s.prop + ".json"), "w"), indent=1)
        print("%s: %d obligations, %d discharged, %d undecided, %d violations (%.1f s)" %
              (s.prop, s.obligations, s.discharged, len(s.undecided), len(new), time.time() - s.t0))
        for u in s.undecided[:10]: print("  undecided:", u[:300])
        if new:
            rp = os.path.join(VERIF, "evidence", s.prop + ".violations.txt")
            with open(rp, "w") as f:
                for v in new: f.write("%s\n  at %s\n  %s\n" % (v["rule"], v["where"], v["what"]))
            for v in new[:20]: print("  %s\n    at %s\n    %s" % (v["rule"], v["where"], v["what"][:1500]))
            print("VIOLATION property=%s replay=%s" % (s.prop, rp))
            return 1
        return 0


def fork_map(fn, items):
    """[fn(x)] computed in forked children (results are pickled)"""
    import pickle, traceback
    from frontend import Broken
    kids = []
    for x in items:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                try: d = (0, fn(x))
                except Broken as e: d = (2, str(e))
                with os.fdopen(w, "wb") as f: pickle.dump(d, f)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    out = []
    for pid, r in kids:
        with os.fdopen(r, "rb") as f: data = f.read()
        _, st = os.waitpid(pid, 0)
        if st or not data: raise Broken("a worker failed")
        k, v = pickle.loads(data)
        if k: raise Broken(v)
        out.append(v)
    return out
