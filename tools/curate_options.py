"""Reviewed selection of the harvest: python3 tools/curate_options.py HARVEST.json -> sa/data/options.json.
Drops entries that are accidents of the enumeration (strings mined from unrelated comparisons, values
of the wrong type, conditions of another option), keeps what states the legal range of an option."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DROP = {  # (function suffix, parameter)
    ("CUSUMChangePoint.almost_equal", "other"),
    ("NeuralProphetParams.__init__", "extra_future_regressors"),
    ("NeuralProphetParams.__init__", "extra_lagged_regressors"),
    ("ProphetParams.__init__", "extra_regressors"),
    ("MetaLearnModelSelect.__init__", "metadata"),
    ("GetMetaData.__init__", "all_models"),
    ("GetMetaData.__init__", "all_params"),
    ("MetaLearnHPT.__init__", "categorical_idx"),
    ("MetaLearnHPT.__init__", "numerical_idx"),
    ("TsFourierFeatures.__init__", "offset"),
    ("DistributionDistanceModel.fit_predict", "data"),
    ("DistributionDistanceModel.fit_predict", "historical_data"),
    ("to_seasonality", "seasonality"),
    ("inspect", "name"), ("core_metric", "name"), ("metric", "name"),
}
ONLY = {  # keep only these labels
    "parameters": {"[]"},
    "batch_size": {"{}"},
}


def keep_label(e, lab):
    if lab in ("series:empty", "series:short") and lab in e["accept"]:
        return False        # whether a degenerate series gets past a constructor says nothing
    if lab[:1] in "'\"" and lab in e["refuse"]:
        return lab == "''" or any(x[:1] in "'\"" for x in e["accept"])
    return True


if __name__ == "__main__":
    out = []
    for e in json.load(open(sys.argv[1])):
        if any(e["f"].endswith("." + a) and e["param"] == b for a, b in DROP):
            continue
        if e["param"] == "parameters" and "time_series_parameter_tuning" in e["f"]:
            e["refuse"] = [x for x in e["refuse"] if x == "[]"]
        e["refuse"] = [x for x in e["refuse"] if keep_label(e, x) and x not in ("{unknown-string: any}",)]
        if e["param"] == "optimizer":
            e["refuse"] = [x for x in e["refuse"] if x != "{}"]
        e["accept"] = [x for x in e["accept"] if keep_label(e, x) and x not in ("[]", "{}", "''")]
        if e["refuse"]:
            out.append(e)
    json.dump(out, open(os.path.join(HERE, "sa", "data", "options.json"), "w"), indent=0)
    print(len(out), sum(len(e["refuse"]) for e in out), sum(len(e["accept"]) for e in out))
