"""What each check is made of: design models [(module, config, expected)], generator, assumptions."""
STUBS = ("numba, joblib, scikit-learn, scipy, aeon, matplotlib, seaborn and networkx are not installed here: the code runs on "
         "the stand-ins of harness/stubs (see DESIGN.md)")

TRANSFORM = [("MC_Transform", "MC_Transform_a.cfg", "ok"), ("MC_Transform", "MC_Transform_b.cfg", "ok"),
             ("MC_Transform", "MC_Transform_m1.cfg", "Deterministic"), ("MC_Transform", "MC_Transform_m2.cfg", "Deterministic"),
             ("MC_Transform", "MC_Transform_m3.cfg", "Deterministic"), ("MC_Transform", "MC_Transform_m4.cfg", "Deterministic"),
             ("MC_Transform", "MC_Transform_m5.cfg", "NoRace")]
FIT = [("MC_Fit", "MC_Fit_a.cfg", "ok"), ("MC_Fit", "MC_Fit_b.cfg", "ok")] + [("MC_Fit", "MC_Fit_m%d.cfg" % i, "Deterministic") for i in range(1, 6)]
SAMPLER = [("MC_Sampler", "MC_Sampler_a.cfg", "ok"), ("MC_Sampler", "MC_Sampler_b.cfg", "ok"), ("MC_Sampler", "MC_Sampler_c.cfg", "ok"),
           ("MC_Sampler", "MC_Sampler_m1.cfg", "Overlap"), ("MC_Sampler", "MC_Sampler_m2.cfg", "Overlap"),
           ("MC_Sampler", "MC_Sampler_m3.cfg", "Distinct")]

ENSEMBLE = [("MC_Ensemble", "MC_Ensemble_ok.cfg", "ok"), ("MC_Ensemble", "MC_Ensemble_shared.cfg", "Deterministic"),
            ("MC_Ensemble", "MC_Ensemble_ceil.cfg", "Budget"), ("MC_Ensemble", "MC_Ensemble_mainonly.cfg", "Budget"),
            ("MC_Ensemble", "MC_Ensemble_overwrite.cfg", "SameNumbers")]

CHECKS = {
    "C01": {"models": TRANSFORM},
    "C02": {"models": TRANSFORM},
    "C03": {},
    "C04": {},
    "C05": {"models": SAMPLER},
    "C06": {},
    "C07": {},
    "C08": {"models": TRANSFORM + FIT, "gen": ("Gen_Schedules", {"quick": "Gen_Schedules_q.cfg", "thorough": "Gen_Schedules_t.cfg"})},
    "C09": {"trace": "T_Same"},
    "C10": {"gen": ("Gen_Lifecycle", {"quick": "Gen_Lifecycle_q.cfg", "thorough": "Gen_Lifecycle_t.cfg"}),
            "models": [("Gen_Lifecycle", "Gen_Lifecycle_m1.cfg", "Forgets")]},
    "C11": {"trace": "T_Same"},
    "C12": {"gen": ("Gen_Values", "Gen_Values_q.cfg")},
    "C13": {"gen": ("Gen_Params", "Gen_Params_q.cfg")},
    "C14": {"gen": ("Gen_Lengths", "Gen_Lengths_q.cfg")},
    "C15": {},
    "C16": {},
    "C17": {},
    "C18": {},
    "C19": {"models": ENSEMBLE},
    "C21": {},
    "C24": {},
    "C25": {},
    "C26": {"gen": ("Gen_Helpers", {"quick": "Gen_Helpers_q.cfg", "thorough": "Gen_Helpers_t.cfg"})},
    "C22": {"models": [("MC_Interp", "MC_Interp_%s.cfg" % m, "ok" if m == "ok" else "ShowsTheBest")
                       for m in ("ok", "abs", "ascending", "dup", "owner")]},
    "C23": {"models": [("MC_Holm", "MC_Holm_%s.cfg" % m, "ok" if m == "ok" else "Agrees")
                       for m in ("ok", "bonferroni", "offbyone", "strict", "continue")]},
    "C20": {"models": [("MC_Resample", "MC_Resample_ok.cfg", "ok"), ("MC_Resample", "MC_Resample_count.cfg", "IsStratified"),
                       ("MC_Resample", "MC_Resample_twice.cfg", "IsPartition")]},
}
NOTES = {
    "C01": "every feature of recorded transforms is recomputed in TLA+; the parallel algorithm is model checked; inputs are sampled",
    "C02": "histories of transform calls are matched with a function of one series; inputs are sampled",
    "C03": "every retained shapelet of recorded fits is located in the training series by TLC; fits are sampled",
    "C04": "every retained shapelet of recorded fits is checked; fits are sampled",
    "C05": "recorded fits are replayed as behaviours of the sampler, whose design is model checked; fits are sampled",
    "C06": "every threshold of recorded fits is checked against all admissible series; fits are sampled",
    "C07": "inputs of every kind of defect on sampled models; acceptance is decided by Inputs.tla",
    "C08": "all interleavings in the design model, real loops under schedules enumerated by TLC or sampled; their recorded memory accesses judged for conflicts",
    "C09": "sampled configurations; equality of runs is judged by T_Same",
    "C10": "all histories up to a length enumerated by TLC and replayed on the three estimators",
    "C11": "representations are enumerated, data sets sampled",
    "C12": "calls enumerated by TLC within bounds on sizes, all replayed",
    "C13": "calls enumerated by TLC within bounds, all replayed",
    "C14": "configurations enumerated by TLC; quick replays a sample, thorough all",
    "C15": "every retained shapelet of recorded fits with n_samples; fits are sampled",
    "C16": "pairs of recorded runs; inputs are sampled",
    "C17": "recorded histories of fit, predict, score replayed on the state machine; inputs are sampled",
    "C18": "recorded fits and predictions on scripted ridge classifiers, votes counted in TLA+; inputs are sampled",
    "C19": "all interleavings in the design model, sampled task orders and n_jobs on the code",
    "C20": "resampling algorithm model checked; recorded resamples judged; inputs are sampled",
    "C21": "recorded cross validations, splits and grid searches; inputs are sampled",
    "C22": "everything drawn is recorded by stand-ins of the plotting libraries and judged; models are sampled",
    "C23": "step-down loop model checked for all p-value lists; recorded comparisons and plots judged",
    "C24": "synthetic archives of every kind; inputs are sampled",
    "C25": "recorded calls judged; inputs are sampled",
    "C26": "small inputs enumerated by TLC, larger ones sampled",
}
for k, c in CHECKS.items():
    c["note"] = NOTES[k]

    c.setdefault("assumptions", []).append(STUBS)
