"""Writes MANIFEST.json from the checks that exist (run by hand after adding a check)."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": ("sanitizer-instrumented fuzzing (ASan+UBSan fork server), crash/exit-status monitor", ""),
    "C02": ("runtime monitoring: differential against a reference evaluator, algebraic-law monitors, sanitizers", ""),
    "C03": ("runtime monitoring: statement-trace checking against a reference model", ""),
    "C04": ("runtime monitoring: trace and state checking of calls against a reference model, sanitizers", ""),
    "C05": ("runtime monitoring: before/after observation of every store channel, reference model", ""),
    "C06": ("runtime monitoring: shadow-map monitor over array writes/reads, reference model, sanitizers", ""),
    "C07": ("runtime monitoring: full-dump comparison after every copy channel, reference model, sanitizers", ""),
    "C08": ("runtime monitoring: read-back monitor after every write form, reference model", ""),
    "C09": ("sanitizers and runtime monitoring: pointer histories against a reference model, in both builds", ""),
    "C10": ("runtime monitoring: metamorphic layout transformations, output/exit/diagnostic comparison", ""),
    "C11": ("runtime monitoring: fault injection with side-effect sentinels, diagnostic-position monitor", ""),
    "C12": ("runtime monitoring: REPL transcript checking against file mode and a reference model", ""),
    "C13": ("runtime monitoring: round-trip monitor over random files, in session, after reopen and in a second process", ""),
    "C14": ("runtime monitoring: history checking of random files against a list-plus-cursor model", ""),
    "C15": ("runtime monitoring: history checking of text files against a list-of-lines model", ""),
    "C16": ("runtime monitoring: handle-history checking, operating-system fault injection", ""),
    "C17": ("runtime monitoring: exhaustive built-in tables against independent definitions, sanitizers", ""),
    "C18": ("runtime monitoring: exhaustive calendar comparison against an independent calendar", ""),
    "C19": ("runtime monitoring: exhaustive enum arithmetic and store-channel monitors", ""),
    "C20": ("runtime monitoring: differential runs with and without --pedantic, construct insertion", ""),
}
GENERAL = ("Exploration: every run of the real interpreter (compiled from /repo's working tree, partly with ASan+UBSan) is judged "
           "by an oracle written independently of it; nothing is proved beyond the executions observed. Trusts the fork server, "
           "the reference model and the budget hook; see DESIGN.md for bounds and for behaviour deliberately not judged.")


def main():
    hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verification hook"], capture_output=True,
                          text=True).stdout.split()
    checks, na = [], []
    for k in range(1, 21):
        pid = "C%02d" % k
        if os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")):
            checks.append({"property": pid, "quick_cmd": "python3 check.py %s --tier quick" % pid,
                           "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                           "evidence_file": "evidence/%s.json" % pid, "technique": NOTES[pid][0], "level": "exploration",
                           "level_note": GENERAL})
        else:
            na.append({"property": pid, "reason": "check under construction"})
    m = {"version": 1, "setup_cmd": "python3 lib/build.py asan plain",
         "hooks": {"guard": "PSC_VERIF_BUDGET", "enable": "lib/build.py compiles /repo's sources with -DPSC_VERIF_BUDGET (and, for the "
                   "asan variant, -fsanitize=address,undefined) out of tree in /verif/.build", "source_commits": hook},
         "checks": checks, "not_applicable": na}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
