"""Writes MANIFEST.json from the checks present in vk/checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -m vk.run"
NOTE = {
    "C01": ("online monitor of ask/tell traces", "legality model written independently of the code (kind, bounds, categories); workloads: generated spaces x surrogates x acquisitions x optimizers, single and batch asks"),
    "C02": ("online monitor of warp/unwarp round trips", "round trips judged by an independent model of legal values"),
    "C03": ("online monitor of warped boxes", "images of the bounds recomputed from the public transforms; corner suggestions forced with stub surrogates"),
    "C04": ("online monitor of samples, statistical oracle on their laws", "false-alarm probability of each statistical test below 1e-9; one listed known finding"),
    "C05": ("online monitor against a reference model", "membership, metric and inference rules written independently"),
    "C06": ("online monitor of designs and their arguments", "snapshots of dimensions and the global random state around each call"),
    "C07": ("offline checker of recorded designs", "stratification, nets, radical inverses and lattices recomputed independently"),
    "C08": ("offline checker of ask/tell histories", "reference ledger kept by the harness, snapshots re-checked after later operations"),
    "C09": ("fault injection of bad observations, twin-run monitor", "the twin never saw the refused call; compared operation by operation"),
    "C10": ("online monitor of the phase counter with spied fits", "reference counter kept by the harness; fits recorded by instrumented surrogates"),
    "C11": ("online monitor of batches with spied fits", "every fit during a batch is compared with told data plus the lies the strategy prescribes"),
    "C12": ("twin-run monitor across objects, processes and worker counts", "exact comparison of traces; global random state snapshots"),
    "C13": ("online monitor of surrogate training and candidates", "acquisition recomputed from closed forms over the spied candidate pool and fresh samples"),
    "C14": ("online monitor of gains, statistical oracle on choices", "reference gains from the spied model; false-alarm probability below 1e-9"),
    "C15": ("trace checker over objective and callback events", "event log against the documented schedule"),
    "C16": ("online monitor against reference rules on a virtual clock", "criteria recomputed from the documented definition"),
    "C17": ("snapshot monitor of arguments, twin runs", "deep structural snapshots of every argument before and after"),
    "C18": ("round-trip monitor of dumps and loads", "field-by-field comparison and equality of model predictions"),
    "C19": ("fault injection at every write of a checkpoint", "the process is killed, or the write fails, at each instrumented operation of the checkpoint in a scratch directory"),
    "C20": ("online monitor against a dense posterior", "posterior recomputed with plain linear algebra from the fitted kernel"),
    "C21": ("online monitor against numerical differentiation", "central differences at smooth points, several step sizes"),
    "C22": ("online monitor against recomputation from fitted trees", "total variance and quantile spread recomputed from public parts"),
    "C23": ("online monitor against closed forms", "closed forms evaluated independently on stub and real models, finite differences"),
    "C24": ("trace checker over estimator fits and results", "event log of an instrumented estimator, cv_results_, optimizer results"),
    "C25": ("round-trip and pairing monitor", "reference pairing kept by the harness"),
    "C26": ("online monitor of expected minima", "legality model, predictions recomputed, fresh random points"),
    "C27": ("monitor of plotted data", "artists' data against values recomputed from the result"),
    "C28": ("online monitor of the parts a run was built from", "names, letter cases and parameters against the models, designs and points observed; invalid calls must raise with no evaluation counted"),
    "C29": ("online monitor against the declaration", "summaries recomputed from the declared dimensions around each transformer change; printed forms evaluated back"),
    "C30": ("online monitor against published formulas", "formulas and constants written out independently in plain Python"),
}
PENDING = "no check yet: its monitor is still being built"


def main():
    checks, na = [], []
    for i in range(1, 31):
        c = "C%02d" % i
        if os.path.exists(os.path.join(HERE, "vk", "checks",
                                       c.lower() + ".py")):
            t, n = NOTE[c]
            checks.append({
                "property": c, "quick_cmd": "%s %s" % (PY, c),
                "thorough_cmd": "%s %s --tier thorough" % (PY, c),
                "technique": "runtime monitoring: " + t,
                "level": "fault_enumeration" if c == "C19" else "exploration",
                "level_note": n + ". Holds for the executions observed, "
                "which the evidence file counts."})
        else:
            na.append({"property": c, "reason": PENDING})
    data = {"version": 1,
            "setup_cmd": "/opt/venv/bin/python -c \"import vk.core, vk.gen\"",
            "checks": checks, "not_applicable": na,
            "notes": "No hooks in /repo: instrumentation is attached from "
            "/verif at run time (subclasses, wrapped callables, injected "
            "faults). Seeds come from VERIF_SEED, depth from VERIF_TIER."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")


main()
