"""Helpers shared by the scenarios."""


def sim_params(rng, threads=True, step_cap=400000):
    p = {"step_cap": step_cap, "shuffle": rng.random() < 0.5}
    if threads:
        if rng.random() < 0.35:
            p["granularity"] = "opcode"
            p["switch_p"] = rng.choice([0.01, 0.03, 0.08, 0.2])
        else:
            p["granularity"] = "line"
            p["switch_p"] = rng.choice([0.02, 0.06, 0.15, 0.35])
        p["burst"] = rng.choice([0, 0, 0.5, 0.9])
    else:
        p["granularity"] = "call"
        p["switch_p"] = 0.0
    return p


def by_thread(ops):
    out = {}
    for op in ops:
        out.setdefault(op[0], []).append(op[1:])
    return out


def run_threads(w, plan, body, prefix="t"):
    """Start one simulated thread per thread id and wait for all of them."""
    per = by_thread(plan["ops"])
    tasks = []
    for tid in sorted(per):
        tasks.append(w.spawn(lambda tid=tid: body(tid, per[tid]), "%s%s" % (prefix, tid)))
    w.join(tasks)
    return per


def switched(r):
    return r.get("switches", 0) >= 2 and r.get("ops", 0) >= 2


def faulted(r):
    return any(k.startswith("fault:") for k in r.get("stats", {})) and r.get("ops", 0) >= 1
