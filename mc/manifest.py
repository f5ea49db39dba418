"""Write ../MANIFEST.json from the table below (run by hand when checks are added)."""
import json
import os

PY = "/opt/venv/bin/python"
T = {
 "C01": ("exhaustive enumeration of labelled graphs / isomorphism classes on the real search",
  "Every graph in the bound is run through the real search and the result judged by an independent clique checker; larger graphs only by families that reach the cut-off."),
 "C02": ("exhaustive enumeration of graphs x storage variants against an independent minimum-cover solver",
  "Optimality is decided for every graph in the bound; the reference solver is trusted (self-tested against brute force in setup)."),
 "C03": ("exhaustive enumeration of graphs against an independent clique enumerator",
  "Every graph in the bound, every maximal clique compared; the reference enumerator is trusted (self-tested against brute force in setup)."),
 "C04": ("explicit-state exploration of the real reduction machine, invariants checked in every state",
  "All reachable states within the bound are produced by executing the real classes; the optimum of each state comes from the reference solver."),
 "C05": ("exhaustive operation-sequence exploration over a pool of real copies",
  "All sequences up to the bound; isolation judged by attribute snapshots, reset by comparing behaviour with a fresh copy."),
 "C06": ("breadth-first exploration of edge-set states and exhaustive export round trips against a set model",
  "All edge sets and batches within the bound; the edge-set model is the specification."),
 "C07": ("exhaustive enumeration of graphs x storage variants on the real heuristic",
  "Every graph in the bound; independence numbers come from the reference enumerator."),
 "C08": ("exhaustive enumeration of one-pure-child structures on both real searches",
  "Every structure in the bound is generated and searched; recovery is compared up to the order of latents."),
 "C09": ("stateless exploration of every outcome of the random generator through the real code",
  "All paths of the enumerated generator; reachability is decided against the full set of admissible structures."),
 "C10": ("stateless exploration of every outcome of the random generator through the real code",
  "All paths of the enumerated generator; minimality comes from the reference solver."),
 "C11": ("exploration of generator outcomes and of all call histories before the model is drawn",
  "Outcome alphabet is the extremes of the generator's range; histories within the bound are all run."),
 "C12": ("exhaustive enumeration of structures and parameters with the generator replaced by an orthogonal design",
  "Moments are exact for each model in the bound, no sampling error."),
 "C13": ("exhaustive enumeration of structures and parameters on datasets with exactly prescribed covariances",
  "Every structure and parameter assignment in the bound is fitted by the real code; accuracy is that of the optimiser."),
 "C14": ("exhaustive enumeration of small datasets against exact rational arithmetic",
  "Every dataset in the bound and each transformation of it is run through the real estimator."),
 "C15": ("exhaustive operation-history exploration on one real model against fresh models",
  "All histories up to the bound."),
 "C16": ("exhaustive enumeration of small samples against the definition in integer arithmetic",
  "Every sample in the bound and each transformation."),
 "C17": ("exhaustive enumeration of pairs of weak orders against exact arithmetic",
  "The coefficient only depends on the weak orders, all of which are enumerated in the bound; ties in x by every tie-breaking."),
 "C18": ("exhaustive enumeration of datasets, methods and levels against separately computed tests",
  "Every combination in the bound; the pairwise tests are trusted here (C16, C17)."),
 "C19": ("exploration of all schedules of a controlled worker pool running the real tasks",
  "All completion orders of the tasks; the pool model is compared with real process pools in the same check."),
 "C20": ("exhaustive enumeration of pairs of structures against counting",
  "Every pair in the bound."),
 "C21": ("exhaustive enumeration of pairs of weight matrices against brute-force matching",
  "Every pair in the bound over a small alphabet of weights."),
 "C22": ("exhaustive enumeration of weights, sets of measurements and loading structures of all small architectures",
  "Every single weight, every set of measurements and every loading structure in the bound is changed and the influence observed on the real network."),
 "C23": ("exhaustive enumeration of architectures, parameters, mode sequences and noise draws on the real network",
  "Every parameter entry's influence is compared with its gradient; all mode sequences and noise draws in the bound are run."),
 "C24": ("trace monitoring of real trainings over all small splits, batch sizes and epoch counts",
  "Every training run in the bound is observed call by call and judged against the protocol."),
 "C25": ("fault injection at every operation and byte of saving, and exploration of directory spellings and fit histories",
  "All fault points in the bound, with errors raised by the operating system (size limits, full devices) and by stand-ins; all histories of two models."),
 "C26": ("exploration of all histories of random draws and fits before a training",
  "All histories up to the bound, compared bit by bit with a reference training made in a process of its own."),
 "C27": ("operation-history exploration of the estimator, and exhaustive enumeration of a grid of datasets and penalties",
  "All histories up to the bound; reported optima recomputed from the definition; sample moments exact by an orthogonal design."),
 "C28": ("exhaustive enumeration of small structures and matrices, figures read back artist by artist",
  "Every structure and matrix in the bound; the figure's artists are trusted to be what is drawn."),
 "C29": ("exhaustive check of the bundled examples and of their relabellings",
  "Finite: every example is decided; relabellings within the bound."),
 "C30": ("exhaustive enumeration of the network's answers, fed to the real training through hooks",
  "Every answer in the grid; losses recomputed in double precision from the definition."),
 "C31": ("exhaustive enumeration of one-pure-child models on datasets with exactly prescribed covariances",
  "Every structure in the bound with fixed assignments of weights; recovery compared up to the order of latents."),
 "C32": ("exhaustive enumeration of graphs and training histories, run quietly and verbosely",
  "Every graph and history in the bound; reports are recognised by their wording."),
 "C33": ("exhaustive exploration of call sequences with reused and overwritten arrays",
  "All sequences up to the bound over fixed inputs; the reference is a first call in a process of its own."),
 "C34": ("trace monitoring of real trainings over a grid of settings, architectures and histories",
  "Every update in the bound is recomputed in double precision from the definition."),
 "C35": ("exhaustive exploration of interleavings of two objects' operations",
  "All interleavings in the bound; the reference is each object alone in a process of its own."),
}
NOTES = {}

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [json.loads(line)["id"] for line in open(here + "/properties.jsonl")]
    m = {
        "version": 1,
        "setup_cmd": f"{PY} mc/selftest.py",
        "checks": [
            {
                "property": i,
                "quick_cmd": f"{PY} mc/run.py {i} --tier quick",
                "thorough_cmd": f"{PY} mc/run.py {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": "model checking: " + T[i][0],
                "level": "model_checking",
                "level_note": T[i][1],
            }
            for i in ids if i in T
        ],
        "not_applicable": [
            {"property": i, "reason": NOTES.get(i, "check under construction")}
            for i in ids if i not in T
        ],
        "notes": "Checks run the code of /repo's working tree directly (no hooks, no build); "
                 "see DESIGN.md.",
    }
    with open(here + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
