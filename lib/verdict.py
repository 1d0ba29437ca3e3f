"""Combines the deductive and the concrete layer into one verdict, and writes evidence."""
import json, os, time

from common import HERE, WORK


def conclude(prop, tier, seed, ded, con, t0):
    for k in con.get("known", []):
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    failing = con["findings"] + [
        dict(kind="crash", file=c["file"], detail=c["err"], source=c.get("source"),
             props=[prop], body="", mode="") for c in con["crashed"]]
    obligations = ded["failed"] if ded else []
    violated = bool(failing or obligations)
    write_evidence(prop, tier, seed, ded, con, t0, violated)
    if con["status"] == "nobuild" and not obligations:
        print("check could not be built against /repo's working tree:")
        print(con["log"][-3000:])
        return 2
    if not violated:
        if ded and ded["undecided"]:
            print("not proved on this tree (bounded check only): "
                  + "; ".join(ded["undecided"])[:600])
        print(f"{prop}: held on everything explored")
        return 0
    os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)
    path = os.path.join(WORK, "replay", f"{prop}.json")
    json.dump(dict(
        property=prop, seed=seed, tier=tier,
        failing_inputs=failing[:20],
        failed_obligations=obligations,
        how="flowcheck run --props P --modes MODE --seed N -- FILE (see DESIGN.md); "
            "each failing input carries the program text, the function and the mode",
    ), open(path, "w"), indent=1)
    for f in failing[:5]:
        print(f"  {f['kind']} in {os.path.basename(f['file'])} {f['body']} "
              f"[{f['mode']}]: {str(f['detail'])[:300]}")
    for o in obligations[:5]:
        print(f"  obligation: {o['fn']}: {o['message'][:300]}")
    tail = "" if failing else " no-failing-input-found"
    print(f"VIOLATION property={prop} replay={path}{tail}")
    return 1


def write_evidence(prop, tier, seed, ded, con, t0, violated):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    bounded = dict(
        what="contracts evaluated as oracles on the real code (bounded, not proof)",
        evaluations=con["evaluations"], distinct_nontrivial=con["nontrivial"],
        programs=con["programs"], programs_not_reached=con["skipped"],
        modes=con["modes"], samples=con["samples"], status=con["status"],
    )
    ev = dict(property=prop, tier=tier, seed=seed, wall_s=round(time.time() - t0, 1),
              violations=int(violated))
    if ded:
        ev["level"] = "proof"
        ev["coverage"] = dict(
            obligations=ded["obligations"], discharged=ded["discharged"],
            checker_cmd=ded["checker_cmd"], trusted_base=ded["trusted_base"],
            functions_under_contract=ded["functions"], backend=ded["backend"],
            solver_s=ded["solver_s"], not_proved_here=ded["undecided"],
            extraction=ded["extraction"], bounded_companion=bounded)
        ev["assumptions"] = ded["assumptions"]
    else:
        ev["level"] = "exploration"
        ev["coverage"] = dict(
            evaluations=con["evaluations"], distinct_nontrivial=con["nontrivial"],
            rule="one evaluation per oracle call on one body/location/place of a program; "
                 "non-trivial when the expected value is not empty",
            samples=con["samples"], **{"programs_run": con["programs"]})
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
