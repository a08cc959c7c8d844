#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the table below."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "core/src/base/"
H = "core/src/"
P = {}


def prop(pid, title, statement, over, qtext, why, files, mech, observe, note, state=()):
    P[pid] = dict(
        line=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe,
                               hook_needed=None)),
        note=note)


prop("P11", "A run visits every date of its period exactly once, in order",
     "A simulation over a period with a given time step processes exactly the dates start, start + step, ... up to the "
     "last one not after the end, each once and in order; the announced number of steps, the recorded time axis and the "
     "step boundaries seen by scheduled actions all agree with it, and a reset starts again at the first date. "
     "A period whose end precedes its start, a step that is not positive or an unknown step unit is refused.",
     ["configurations", "histories"],
     "All periods and step sizes (minutes, hours, days, weeks), including sub-daily steps that are not representable "
     "exactly as fractions of a day, long runs, spin-up and reset-and-rerun histories.",
     "The tests use a few daily and hourly periods of some steps; rounding losses appear only for some step sizes "
     "after many steps.",
     [B + "TimeMachine.cpp", B + "ModelHydro.cpp", B + "Logger.cpp"],
     [("IncrementTime/IsOver/GetTimeStepCount", B + "TimeMachine.cpp"), ("run loop", B + "ModelHydro.cpp Run")],
     ["TimeMachine date, validity and step count", "logger time axis", "actions called at step boundaries"],
     "TLC explores every period and step size up to a bound on Clock.tla (visits, order, count, reset); clocks and runs "
     "of the real code with random periods and steps are validated step by step against the same operators.")

prop("P20", "Dates convert exactly between calendar, day count and text",
     "Every calendar date and time corresponds to exactly one day count, in both directions and to the second, and "
     "parsing a textual date in each supported format gives that day count. Day-of-year and additions of weeks, days, "
     "hours and minutes agree with the Gregorian calendar. Something that is not a calendar date is rejected.",
     ["inputs"],
     "All dates of 1901-2099 (and century years), all times of day, all documented textual formats.",
     "The tests check a few dozen dates; leap rules, month ends and formats multiply to a space no list covers.",
     [B + "UtilsDateTime.cpp", B + "Utils.cpp", B + "TimeMachine.cpp"],
     [("GetMJD/GetTimeStructFromMJD/ParseDate", B + "UtilsDateTime.cpp"), ("IncrementDateBy", B + "Utils.cpp"),
      ("GetCurrentDayOfYear", B + "TimeMachine.cpp")],
     ["return values of the date functions"],
     "TLC walks the calendar day by day over two centuries and checks the closed forms of Calendar.tla; random and "
     "boundary dates, texts and increments are run on the real code and validated against the same operators.")

NA = []

EXTRA = []


def main():
    import sys
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    try:
        import proptable
        proptable.fill(prop, NA)
    except ImportError:
        pass
    ids = sorted(P)
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for i in ids:
            f.write(json.dumps(P[i]["line"]) + "\n")
    checks = []
    for i in ids:
        if any(n["property"] == i for n in NA):
            continue
        checks.append(dict(property=i, quick_cmd="python3 lib/check.py %s --tier quick" % i,
                           thorough_cmd="python3 lib/check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="TLA+ specification: TLC model checking of the design model + trace validation of "
                                     "the real code against the same operators",
                           level="model_checking", level_note=P[i]["note"]))
    m = dict(version=1, setup_cmd="python3 lib/build.py", checks=checks, not_applicable=NA,
             notes="No hooks: the harness (harness/hbdrive.cpp) is compiled against the unmodified sources of /repo.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
