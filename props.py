"""Single source of properties.jsonl and MANIFEST.json: run `python3 props.py`."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, level,
         note, observe=None, state=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a},
              {"property": id, "technique": technique, "level": level,
               "level_note": note}))


BE = "posydon/binary_evol/"
PS = "posydon/popsyn/"

prop("C01", "The evolution loop dispatches, bounds and ends every evolution as specified",
     "Evolving a binary repeatedly performs exactly the step that the flow "
     "assigns to the current star states, binary state and event, with the "
     "hooks called in order around it, until an END/FAILED event or a "
     "configured end event/state is reached. A state without a step, a known "
     "undefined state, a step name without an implementation, a birth time "
     "beyond the maximum simulation time, more steps than the configured "
     "limit, or a step exceeding its time allotment each surface as the "
     "documented error and never as a silent or endless evolution. "
     "Every step gets the full time allotment and no time-limit alarm is "
     "left pending however the evolution ends.",
     ["histories", "configurations"],
     "all sequences of step outcomes (including failures) and all loop configurations",
     "binary evolution has no unit tests at all; a run samples one path",
     [BE + "binarystar.py", BE + "simulationproperties.py"],
     [("evolution loop", BE + "binarystar.py BinaryStar.evolve/run_step"),
      ("hooks", BE + "simulationproperties.py pre/post_step, pre/post_evolve")],
     "exhaustive enumeration of step-answer sequences on the real loop vs a reference interpreter",
     "model_checking",
     "Complete for all answer sequences up to the depth bound (4 quick, 5 "
     "thorough) in all listed configurations; steps are scripted stand-ins.")

prop("C02", "Histories stay rectangular and each row is the snapshot of its step",
     "After any evolution, finished or failed, every history column of the "
     "binary and of both stars has the same number of rows, and row k holds "
     "the values at the end of the k-th recorded step. Redirect events are "
     "recorded only with verbose history. Columns added by hooks (step "
     "names, step times, user columns) and the history table stay aligned "
     "with these rows.",
     ["histories", "configurations"],
     "all sequences of step outcomes, of rows recorded inside steps, and hook sets",
     "binary evolution has no unit tests; misalignment needs a particular mix of redirects, multi-row steps and failures",
     [BE + "binarystar.py", BE + "singlestar.py", BE + "simulationproperties.py"],
     [("append_state", BE + "binarystar.py, singlestar.py"),
      ("column hooks", BE + "simulationproperties.py StepNamesHooks, TimingHooks"),
      ("history table", BE + "binarystar.py BinaryStar.to_df")],
     "exhaustive enumeration of step-answer sequences on the real code vs a list-of-snapshots model",
     "model_checking",
     "Complete up to the depth bound; each step writes fresh values to every property.")

prop("C03", "Restoring a binary to any recorded row rewinds it completely",
     "Restoring a binary to row i (or resetting it) makes its current values "
     "those of row i, drops all later rows of binary, star and hook columns, "
     "and leaves earlier rows untouched. Evolving it again behaves exactly "
     "like a binary that had only reached that row. Resetting with new "
     "simulation properties makes it evolve with these.",
     ["histories"],
     "all evolutions up to a depth, all rows, all continuations",
     "no unit test restores a binary; needs multi-step histories with redirects and hooks",
     [BE + "binarystar.py", BE + "singlestar.py"],
     [("restore/reset", BE + "binarystar.py BinaryStar.restore, reset; singlestar.py SingleStar.restore")],
     "exhaustive enumeration of evolve/restore/evolve histories vs a reference binary",
     "model_checking",
     "Complete up to the depth bound (3 quick, 4 thorough) for every row and continuation.")

prop("C04", "The flow chart assigns the specified step to every total state",
     "For every combination of star states, binary state and event the "
     "default flow (and the flow for initially eccentric binaries) names the "
     "documented step or none, independently of which star is called star 1. "
     "Overrides change exactly the listed entries of the chart being built "
     "and never leak into the default or into later charts.",
     ["inputs", "histories"],
     "the complete product of 20x20x8x22 total states; all override sequences up to the bound",
     "70400 total states; no unit test touches the flow chart",
     [BE + "flow_chart.py", BE + "binarystar.py"],
     [("chart construction", BE + "flow_chart.py"),
      ("dispatch", BE + "binarystar.py BinaryStar.run_step")],
     "complete enumeration of the total-state space vs an independent decision procedure",
     "model_checking",
     "The whole finite state space is enumerated; the decision procedure is trusted.")

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                       "props_more.py")).read())

NOT_APPLICABLE = []


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    claimed, na = [], []
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p, c in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
            if c["technique"].startswith("NA:"):
                na.append({"property": p["id"],
                           "reason": c["technique"][3:].strip()})
                continue
            if not os.path.exists(os.path.join(here, "checks",
                                               p["id"] + ".py")):
                na.append({"property": p["id"],
                           "reason": "check not built yet"})
                continue
            q = "python3 /verif/run.py %s" % p["id"]
            claimed.append({"property": p["id"],
                            "quick_cmd": q + " --tier quick",
                            "thorough_cmd": q + " --tier thorough",
                            "evidence_file": "evidence/%s.json" % p["id"],
                            "technique": c["technique"], "level": c["level"],
                            "level_note": c["level_note"]})
    man = {"version": 1, "setup_cmd": "python3 /verif/setup_check.py",
           "checks": claimed, "not_applicable": na,
           "notes": "No hooks: every check drives the unmodified code of "
                    "/repo's working tree."}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
