"""C12: estimators reject exactly the invalid hyperparameters."""
from spec import *


@cases([(e[0], e[1], e[2]) for e in ESTIMATORS])
def validation(w, name, ptype, extra):
    P, vals = built_params(w, ptype, extra)
    bad = mkor(*[c for _, c in invalid(vals).values()])
    r = w.method("check_ref", P)
    w.goal("check_ref fails exactly on invalid settings", iff(is_variant(w, r, "Err"), bad))
    for c, e in payload(w, r, "Err"):
        check_error(w, "check_ref", e, vals, c)
    r2 = w.method("check", P)
    w.goal("check fails exactly on invalid settings", iff(is_variant(w, r2, "Err"), bad))
    for c, e in payload(w, r2, "Err"):
        check_error(w, "check", e, vals, c)
        for c1, e1 in payload(w, r, "Err"):
            w.goal("same error from check and check_ref", imp(mkand(c, c1), w.veq(e, e1)))
    for label, rr in (("check_ref", r), ("check", r2)):
        ok = get(w, rr, "Ok")
        for q, _k in settings_of(extra):
            w.goal("%s returns %s unchanged" % (label, q), mkor(bad, w.veq(w.method(q, ok), vals[q])))


@cases([(e[0], e[1], e[2], e[3], s) for e in ESTIMATORS for s in ("dense", "sparse")])
def fitting(w, name, ptype, extra, multi, sp):
    calls = []
    ov = solver_recorder(w, calls)
    ds, X, Y = est_dataset(w, multi, sp == "sparse", ov)
    P, vals = built_params(w, ptype, extra)
    bad = mkor(*[c for _, c in invalid(vals).values()])
    r = w.method("fit", P, ds)
    w.goal("fit fails exactly on invalid settings", iff(is_variant(w, r, "Err"), bad))
    for c, e in payload(w, r, "Err"):
        check_error(w, "fit", e, vals, c)
    for k, call in enumerate(calls):
        save, w.I.ctx.facts = w.I.ctx.facts, call["pc"]
        w.goal("the solver only runs on valid settings", mknot(bad))
        w.I.ctx.facts = save
    w.goal("the solver is called", TRUE if calls else FALSE)
