#!/usr/bin/env python3
"""check.py PROPERTY: decides one property for the current /repo.
Tier and seed come from VERIF_TIER and VERIF_SEED.  See DESIGN.md."""
import json, os, sys, time
from concurrent.futures import wait, FIRST_COMPLETED
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, props
from vlib import *

pid = sys.argv[1]
tier = os.environ.get("VERIF_TIER", "quick")
if tier not in ("quick", "thorough"): tier = "quick"
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
thorough = tier == "thorough"
EVID = VERIF + "/evidence"
os.makedirs(EVID + "/replay", exist_ok=True)
ctx = Context(tier, seed, 6 * 3600 if thorough else 660)
CAMP = {"C04": "C04", "C12": None}

def known():
    """known findings of this property that are not fixed"""
    r = []
    try:
        for l in open(VERIF + "/known-findings.txt"):
            if l.startswith("finding: property=%s " % pid): r.append(l.strip().split(" ", 2)[2])
    except OSError: pass
    return r

def jobname(j): return "%s:%s(%s)" % (j[0], j[2], ",".join("%s=%s" % p for p in j[3]))

def over_of(job, cex):
    """overrides of the native driver for a counterexample"""
    p = dict(job[3])
    o = []
    if not isinstance(cex, dict): return None
    isbs = job[1] in ("bs_api", "bs_fn")
    if job[1] == "bs_fn": return None
    if "enc" in p: o.append("enc=%d" % p["enc"])
    if job[1] in ("bs_api", "classic"): o.append("cl=%d" % (job[1] == "classic"))
    if "maxlen" in p: o.append("maxlen=%d" % p["maxlen"])
    if job[2].endswith("_all"):   # the length is a word, the payload is not part of the counterexample
        if "blocks" not in cex or "enc" not in p: return None
        w = lambda v: int.from_bytes(bytes.fromhex(cex.get(v, "00")), "little")
        l = 8 * (w("blocks") & (1 << 29) - 1) + (w("residue") & 7)
        return o + ["len=%d" % l] if l < 1 << 28 else None
    for k, v in cex.items():
        if k in ("cw", "n", "len", "data") or k.startswith("len") or k.startswith("pkt"): o.append("%s=%s" % (k, v))
    if isbs and "n" not in cex: o.append("n=%d" % lanes(job[0]))
    return o

def confirm_native(cfg, fails, secs):
    """tries to show a failure of the property on the real code of a
    configuration -> (fail text, argv, cfg) or None"""
    if pid == "C12": return confirm_c12(cfg, fails, secs)
    plist = "C04,C04k" if pid == "C04" and any(j[2] == "check_key_set" for j, f in fails) else pid
    tried = set()
    for job, f in fails[:60]:
        o = over_of(job, f.get("cex"))
        if not o or tuple(o) in tried: continue
        tried.add(tuple(o))
        if len(tried) > 8: break
        ran, bad, argv = ctx.drive(cfg, plist, seed, 6, 20, o)
        for p, t in bad:
            if p.startswith(pid): return t, argv, cfg
    for san in ([False, True] if pid == "C10" and not native_cc(cfg)[1] else [False]):
        ran, bad, argv = ctx.drive(cfg, plist, seed, 1000000, secs, (), san)
        for p, t in bad:
            if p.startswith(pid): return t, argv + (["SAN"] if san else []), cfg
    return None

def confirm_c12(cfg, fails, secs):
    base = "default" if cfg != "default" else "uint32"
    runs = []
    tried = set()
    for job, f in fails[:60]:
        o = over_of(job, f.get("cex"))
        if o and tuple(o) not in tried and len(tried) < 8: tried.add(tuple(o)); runs.append((seed, 2, o))
    runs.append((seed, 400 if not native_cc(cfg)[1] else 150, []))
    for s, n, o in runs:
        for b in (base, "sse2"):
            if b == cfg: continue
            x, y = ctx.digest(cfg, s, n, o), ctx.digest(b, s, n, o)
            if x is None or y is None: continue
            for u, v in zip(x, y):
                if u != v: return "builds %s and %s differ: %s / %s" % (cfg, b, u, v), ["digest", u.split(" ")[0], "1"] + o + ["AGAINST", b], cfg
    return None

def violation(what, obligation, cfg, argv, output, confirmed):
    n = 0
    while os.path.exists("%s/replay/%s-%d.json" % (EVID, pid, n)): n += 1
    path = "%s/replay/%s-%d.json" % (EVID, pid, n)
    json.dump({"property": pid, "what": what, "obligation": obligation, "configuration": cfg, "driver": argv, "confirmed_on_the_real_code": confirmed,
               "replay": "run/replay.py " + path if confirmed else "no failing input; the verifier's output is below", "verifier": output}, open(path, "w"), indent=1)
    print("failed obligation: %s" % (obligation or "none (native run)"))
    print("%s" % what)
    print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if confirmed else " no-failing-input-found"))

def order_of(job):
    """scouts first: cheap configurations show most faults; then the expensive runs"""
    p = dict(job[3])
    w = (p.get("maxlen", 0) + p.get("n", 0) / 8 + 8) * lanes(job[0]) * (3 if job[2] in ("check_bs_rt", "check_bs_tail") else 1)
    scout = job[0] in ("uint32", "default") and p.get("maxlen", 0) <= 24 or job[1] in ("keys", "classic")
    return (not scout, -w)

def native_campaign(cfg):
    """-> (cases, hit or None); always run, whatever the verifier says"""
    if pid == "C12":
        k = 60 if not thorough else 600
        ref = ctx.digest("uint32", seed, k)
        d = ctx.digest(cfg, seed, k)
        if d is None or ref is None: return 0, None
        for u, v in zip(d, ref):
            if u != v: return len(d), ("builds %s and uint32 differ: %s / %s" % (cfg, u, v), ["digest", u.split(" ")[0], "1", "AGAINST", "uint32"], cfg)
        return len(d), None
    ran, bad, argv = ctx.drive(cfg, pid, seed, 1000000, 3 if not thorough else 60)
    bad = [t for p, t in bad if p == pid]
    return ran, (bad[0], argv, cfg) if bad else None

class State:
    def __init__(self):
        self.primary, self.secondary, self.unsup, self.hit, self.natives = [], [], [], None, []
        self.tested = {}              # configuration -> future of a confirmation

def first_pass(J):
    """all runs of the verifier, and the native runs; stops early once a
    failing input is at hand"""
    S = State()
    ctx.prebuild([(j[0], j[1]) for j in J])
    t0 = time.time()
    budget = 1e9 if thorough else 420
    ncfg = [c for c in CONFIGS if native_cc(c)[0]] if thorough else ["default", "avx2", "uint64-ppc64be"] if pid == "C12" else ["default"]
    nf = {ctx.side.submit(native_campaign, c): c for c in ncfg}
    vf = {ctx.pool.submit(ctx.verify, j): j for j in J}
    pending = set(nf) | set(vf)
    R = []
    hit_at = None
    while pending:
        done, pending = wait(pending, timeout=2, return_when=FIRST_COMPLETED)
        for f in done:
            if f in nf:
                ran, h = f.result()
                S.natives.append({"configuration": nf[f], "cases": ran})
                S.hit = S.hit or h
            elif f in vf:
                r = f.result()
                R.append(r)
                new = []
                for x in r["failures"]:
                    k = props.relevant(pid, r["job"], x)
                    if k == "primary": S.primary.append((r["job"], x)); new.append((r["job"], x))
                    elif k: S.secondary.append((r["job"], x)); new.append((r["job"], x))
                if r["status"] != "ok": S.unsup.append(r)
                c = r["job"][0]
                new.sort(key=rank)
                if new and new[0][1]["status"] == "refuted" and not S.hit and len(S.tested.get(c, [])) < 2:
                    g = ctx.side.submit(confirm_native, c, new, 8)
                    S.tested.setdefault(c, []).append(g)
                    pending.add(g)
            else: S.hit = S.hit or f.result()
        if S.hit and hit_at is None: hit_at = time.time()
        # with a failing input, wait a little for the obligation that fails with it
        if S.hit and (S.primary or S.secondary or time.time() - hit_at > 60): break
        if time.time() - t0 > budget: break
    if pending:
        ctx.stop()
        for f in pending: f.cancel()
        for f in vf:
            if f in pending: R.append(dict(vlib.EMPTY, status="unsupported: not run (stopped)", job=vf[f][:4], total=0)); S.unsup.append(R[-1])
        if not S.hit:
            wait([f for f in pending if f not in vf], timeout=60)
            for f in pending:
                if f not in vf and f not in nf and f.done() and not f.cancelled(): S.hit = S.hit or f.result()
    return S, R

def stand_ins(S):
    """what the verifier left open: more native runs, then the functions that do
    not meet their contract executed in bounded runs.  -> undecided obligations"""
    FB, bounded, undecided = [], [], []
    bycfg = {}
    for job, f in S.primary + S.secondary: bycfg.setdefault(job[0], []).append((job, f))
    for r in S.unsup: bycfg.setdefault(r["job"][0], [])
    order = sorted(bycfg, key=lambda c: (not any(x[1]["status"] == "refuted" for x in bycfg[c]), bool(native_cc(c)[1]), CONFIGS.index(c)))
    for c in order: bycfg[c].sort(key=rank)
    for f in [ctx.side.submit(confirm_native, c, bycfg[c], 20 if len(order) < 3 else 10) for c in order[:8]]:
        h = f.result()
        S.hit = S.hit or h
    if S.hit: return FB, bounded, undecided
    for c in order[:4]:
        bad = {props.CONTRACT_OF[j[2]] for j, f in bycfg[c] if props.is_contract(j)}
        bad |= {props.CONTRACT_OF[r["job"][2]] for r in S.unsup if r["job"][0] == c and props.is_contract(r["job"]) and "not run" not in r["status"]}
        mine = [x for x in bycfg[c] if x in S.primary]
        main = [x for x in mine if not props.is_contract(x[0])]
        con = [x for x in mine if props.is_contract(x[0])]
        # a store where there must be none does not depend on what the functions under contract compute
        if mine and not bad and all(f["kind"] == "frame" and f["status"] == "refuted" for j, f in mine): undecided += mine; continue
        keyonly = not bad and {j[2] for j, f in bycfg[c]} | {r["job"][2] for r in S.unsup if r["job"][0] == c} == {"check_key_set"}
        fb = props.fallback(pid, c, bad, keyonly) if ctx.left() > 40 else []
        if not fb: undecided += mine; continue
        FR = ctx.verify_all(fb)
        FB += FR
        f2 = [(r["job"], f) for r in FR for f in r["failures"] if props.relevant(pid, r["job"], f)]
        u2 = [r for r in FR if r["status"] != "ok"]
        bounded.append({"configuration": c, "functions_executed_instead": sorted(bad), "jobs": [jobname(r["job"]) for r in FR], "failed": len(f2), "unsupported": [r["status"] for r in u2]})
        if f2:
            f2.sort(key=rank)
            S.hit = confirm_native(c, f2, 10)
            if S.hit:
                S.primary = f2 + S.primary
                return FB, bounded, undecided
            undecided += [x for x in f2 if props.relevant(pid, *x) == "primary"]
        # an obligation of the property that failed although all contracts hold
        # stays open unless the stand-in reaches its size; one of a function
        # that does not meet its contract is settled by the stand-in
        if keyonly: undecided += main if f2 or u2 else []
        elif not bad: undecided += [x for x in main if f2 or u2 or beyond(x)]
        elif f2 or u2: undecided += con + main
    return FB, bounded, undecided

def main():
    for f in os.listdir(EVID + "/replay"):
        if f.startswith(pid + "-"): os.remove(EVID + "/replay/" + f)
    ok, err = build_engine()
    if not ok: print("the verifier does not build:", err[:500]); return 2
    J = sorted(props.jobs(pid, thorough), key=order_of)
    S, R = first_pass(J)
    FB, bounded, undecided = [], [], []
    verdict = "held"
    if not S.hit and (S.primary or S.secondary or S.unsup):
        FB, bounded, undecided = stand_ins(S)
        verdict = "unproved" if undecided else "bounded"
    if S.hit: verdict = "violated"
    evidence(R, FB, verdict, S.natives, bounded, S.primary, S.secondary, S.unsup)
    for k in known(): print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if verdict == "violated":
        t, argv, cfg = S.hit
        src = [x for x in S.primary if x[0][0] == cfg] or S.primary or S.secondary
        ob = "%s: %s %s at %s" % (jobname(src[0][0]), src[0][1]["kind"], src[0][1]["name"], src[0][1]["loc"]) if src else None
        violation(t, ob, cfg, argv, [dict(job=jobname(j), **f) for j, f in (S.primary + S.secondary)[:20]], True)
        return 1
    if verdict == "unproved":
        j, f = sorted(undecided, key=rank)[0]
        violation("%s obligation %s: %s" % (f["status"], f["kind"], f["name"]), "%s: %s %s at %s" % (jobname(j), f["kind"], f["name"], f["loc"]), j[0], [], [dict(job=jobname(j), **f) for j, f in undecided[:20]], False)
        return 1
    if verdict == "bounded":
        print("not everything could be proved; bounded stand-ins found nothing (see the evidence file)")
        for j, f in (S.primary + S.secondary)[:5]: print("  %s: %s %s: %s" % (jobname(j), f["status"], f["kind"], f["name"]))
        for r in S.unsup[:5]: print("  %s: %s" % (jobname(r["job"]), r["status"]))
    print("OK property=%s %s" % (pid, verdict))
    return 0

def rank(x): return (x[1]["status"] != "refuted", props.relevant(pid, *x) != "primary")
def beyond(x):
    """an undecided obligation outside the sizes of the stand-ins"""
    return dict(x[0][3]).get("maxlen", 0) > 24 or dict(x[0][3]).get("n", 0) > 24

def evidence(R, FB, verdict, natives, bounded, primary, secondary, unsup):
    kinds = props.counted(pid)
    tot, dis, back, bykind = 0, 0, {}, {}
    lib, contracts, sat_t, sat_n = {}, set(), 0.0, 0
    for r in R:
        for k, m in r["obligations"].items():
            if k not in kinds: continue
            for b, n in m.items():
                if b == "repeated": continue
                tot += n
                if b != "failed": dis += n; back[b] = back.get(b, 0) + n
                bykind[k] = bykind.get(k, 0) + n
        for f in r["library"]: lib.setdefault(f, set()).add(r["job"][0])
        contracts |= set(r["contracts_used"])
        sat_t += r["sat_time"]; sat_n += r["sat_calls"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof", "wall_s": round(time.time() - ctx.t0, 2),
          "coverage": {
              "obligations": tot, "discharged": dis, "checker_cmd": "build/vc MODULE HARNESS PARAM=VALUE... (%d runs, made by run/check.py %s)" % (len(R), pid),
              "trusted_base": ["clang 18 front end and LLVM IR semantics as read by vc/exec.cpp", "vc/ (symbolic execution, term rewriting, sweeping)", "kissat/z3 for what sweeping leaves", "spec/csa_spec.c as the definition of DVB-CSA", "builtin models of malloc/posix_memalign/free and of memcpy/memset/memmove"],
              "by_kind": bykind, "by_back_end": {"structural": back.get("structural", 0), "sweeping (simulation and cut equality)": back.get("sweeping", 0), "sat": back.get("sat", 0)},
              "sat_calls": sat_n, "sat_seconds": round(sat_t, 2), "verifier_seconds": round(sum(r.get("wall", 0) for r in R), 2),
              "configurations": sorted({r["job"][0] for r in R}), "runs": len(R),
              "functions_executed": sorted(lib), "functions_replaced_by_their_contract": sorted(contracts),
              "parameters": sorted({"%s(%s)" % (r["job"][2], ",".join("%s=%s" % p for p in r["job"][3])) for r in R}),
              "verdict": verdict, "failed_primary": [{"job": jobname(j), "kind": f["kind"], "name": f["name"], "status": f["status"]} for j, f in primary[:20]],
              "failed_secondary": [{"job": jobname(j), "kind": f["kind"], "name": f["name"], "status": f["status"]} for j, f in secondary[:20]],
              "undischarged_runs": [{"job": jobname(r["job"]), "status": r["status"]} for r in unsup], "bounded_stand_ins": bounded,
              "native_differential": natives, "assumptions": props.ASSUMPTIONS.get(pid, []) + props.ASSUMPTIONS["all"], "errors": ctx.errors[:10]}}
    json.dump(ev, open("%s/%s.json" % (EVID, pid), "w"), indent=1)

try:
    rc = main()
finally:
    ctx.close()
sys.stdout.flush()
os._exit(rc)
