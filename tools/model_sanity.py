#!/usr/bin/env python3
"""Are the properties of the exhaustive models worth anything?  Breaks the machines one by
one (in a scratch copy of spec/) and lists which property TLC then finds violated.

    tools/model_sanity.py [only=a,b]
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

# name, model, cfg, file, old, new, properties of which one has to be violated
MUTANTS = [
    ("azp-candidates-kept", "MC_AZP", "MC_AZP3.cfg", "AZP.tla",
     "/\\ cand' = Candidates(inst.nb, lab', rec)\n          /\\ tied'",
     "/\\ cand' = cand \\ {a}\n          /\\ tied'", "Regionalization Legal LocalOptimum"),
    ("azp-one-sweep", "MC_AZP", "MC_AZP3.cfg", "AZP.tla",
     "pc' = IF Value(lab) < objStart THEN \"sweep\" ELSE \"done\"", "pc' = \"done\"", "LocalOptimum"),
    ("azp-sweeps-on-plateaus", "MC_AZP", "MC_AZP3.cfg", "AZP.tla",
     "IF Value(lab) < objStart THEN", "IF Value(lab) <= objStart THEN", "Terminates"),
    ("azp-accepts-worse", "MC_AZP", "MC_AZP3.cfg", "AZP.tla",
     "AZPRule(a) == Change(a, rec) <= 0", "AZPRule(a) == Change(a, rec) <= 1",
     "Descent Terminates BoundedCalm LocalOptimum"),
    ("legal-donor-may-break", "MC_AZP", "MC_AZPMoves.cfg", "AZP.tla",
     "cand' = Candidates(inst.nb, lab, r)", "cand' = UNION {inst.nb[b] : b \\in Region(lab, r)} \\ Region(lab, r)",
     "Regionalization Legal"),
    ("tabu-list-ignored", "MC_BasicTabu", "MC_BasicTabu.cfg", "BasicTabu.tla",
     " : <<m[1], lab[m[1]], m[2]>> \\notin Rng(tabu)}", " : TRUE}", "Honoured"),
    # not reachable on maps of three areas: the machine makes legal moves anyway
    ("tabu-aspiration-illegal", "MC_BasicTabu", "MC_BasicTabu.cfg", "BasicTabu.tla",
     "     ELSE <<a, r>> \\in Aspirations /\\ LegalMove(inst.nb, lab, a, r)\n",
     "     ELSE <<a, r>> \\in Aspirations\n", "-"),
    ("tabu-visits-not-counted", "MC_BasicTabu", "MC_BasicTabu.cfg", "BasicTabu.tla",
     "visits' = (lab :> (Seen(lab) + 1)) @@ visits", "visits' = visits", "Terminates"),
    ("tabu-worsens", "MC_BasicTabu", "MC_BasicTabu.cfg", "BasicTabu.tla",
     "{m \\in Allowed : ch[m] <= 0 /\\", "{m \\in Allowed :", "Descent"),
    ("rtabu-result-last", "MC_ReactiveTabu", "MC_ReactiveTabu.cfg", "ReactiveTabu.tla",
     "result' = IF Lowered THEN lab ELSE prev", "result' = IF Lowered THEN prev ELSE lab",
     "ResultVisited NoBetterVisited BestVisited"),
    ("rtabu-no-limit", "MC_ReactiveTabu", "MC_ReactiveTabu.cfg", "ReactiveTabu.tla",
     "it < inst.maxit /\\ Lowered", "Lowered", "Bounded"),
    ("rtabu-first", "MC_ReactiveTabu", "MC_ReactiveTabu.cfg", "ReactiveTabu.tla",
     "ch[m] <= 0 /\\ \\A k \\in Allowed : ch[m] <= ch[k]", "ch[m] <= 0 /\\ \\A k \\in Allowed : ch[m] >= ch[k]",
     "LocalOptimum"),
    ("sa-no-recurrence-end", "MC_SimAnneal", "MC_SimAnneal.cfg", "SimAnneal.tla",
     "recurs == Occurrences(s) >= par.reps", "recurs == FALSE", "Terminates NoRecurrence Bounded"),
    ("sa-endless-round", "MC_SimAnneal", "MC_SimAnneal.cfg", "SimAnneal.tla",
     "                   \\/ (known /\\ s = sol)\n", "", "UnchangedEndsRound"),
    # the model hands out fresh names only
    ("start-names-shared", "MC_StartSol", "MC_StartSol.cfg", "StartSol.tla",
     "/\\ names \\cap used = {}\n", "", "-"),
    ("start-shares-too-large", "MC_StartSol", "MC_StartSol.cfg", "StartSol.tla",
     "s[c] <= Cardinality(c)", "TRUE", "NeverStuck AllDelivered"),
    ("start-disconnected", "MC_StartSol", "MC_StartSol.cfg", "StartSol.tla",
     "     /\\ \\A r \\in names : Connected(nb, Region(lab, r))\n", "", "FeasibleWhenComplete"),
    ("maxp-not-grown-enough", "MC_MaxP", "MC_MaxP.cfg", "MaxP.tla",
     "Ready == /\\ pc = \"grow\" /\\ Enough(inst, grown)",
     "Ready == /\\ pc = \"grow\" /\\ (Enough(inst, grown) \\/ Cardinality(grown) > 1)", "AllReach"),
    ("maxp-fails-early", "MC_MaxP", "MC_MaxP.cfg", "MaxP.tla",
     "        /\\ Border(inst.nb, grown) \\cap free = {}\n", "", "OverIsClosed NeverBlocked Recognised"),
    ("maxp-rule-forgets-donor", "MC_MaxP", "MC_MaxP.cfg", "MaxP.tla",
     "Enough(i, S \\ {a}) /\\ Enough(i, T \\cup {a})", "S # {a} /\\ Enough(i, T \\cup {a})", "AllReach"),
    ("maxp-grows-any", "MC_MaxP", "MC_MaxP.cfg", "MaxP.tla",
     "/\\ a \\in Nearest(inst.D, Border(inst.nb, grown) \\cap free, grown)",
     "/\\ a \\in Border(inst.nb, grown) \\cap free", "Recognised"),
    ("maxp-joins-any", "MC_MaxP", "MC_MaxP.cfg", "MaxP.tla",
     "S \\in Closest(inst.D, a, Bordering(a))", "S \\in Bordering(a)", "RecognisedToo"),
    ("skater-cuts-everything", "MC_Skater", "MC_Skater.cfg", "Skater.tla",
     "e \\in {e \\in F : QuorumHolds(RegionsOf(Len(i.nb), F \\ {e}), i.quorum)}}", "e \\in F}", "QuorumKept"),
    ("skater-one-cut-too-many", "MC_Skater", "MC_Skater.cfg", "Skater.tla",
     "/\\ pc = \"cut\" /\\ Size < inst.target\n", "/\\ pc = \"cut\" /\\ Size <= inst.target\n",
     "RightNumber StuckOnlyWithoutCut"),
    ("skater-not-a-forest", "MC_Skater", "MC_Skater.cfg", "Skater.tla",
     "  /\\ Cardinality(F) = Len(nb) - Cardinality(Components(nb))\n", "", "OneMore"),
    ("estimator-does-not-copy", "MC_Estimator", "MC_Estimator.cfg", "MC_Estimator.cfg",
     "Copies = TRUE", "Copies = FALSE", "CallersCells Refines"),
    ("estimator-does-not-forget", "MC_Estimator", "MC_Estimator.cfg", "MC_Estimator.cfg",
     "Forgets = TRUE", "Forgets = FALSE", "Refines"),
    ("estimator-publishes-early", "MC_Estimator", "MC_Estimator.cfg", "MC_Estimator.cfg",
     "PublishesLast = TRUE", "PublishesLast = FALSE", "Refines"),
    ("dict-values-by-insertion", "MC_Formats", "MC_Formats_dict.cfg", "MC_Formats_dict.cfg",
     'ValuesBy = "sorted"', 'ValuesBy = "values"', "ValuesAligned LabelsByArea"),
    ("dict-map-by-insertion", "MC_Formats", "MC_Formats_dict.cfg", "MC_Formats_dict.cfg",
     'MapBy = "sorted"', 'MapBy = "nodes"', "MatrixIsMap ValuesAligned LabelsByArea"),
    ("nx-values-by-insertion", "MC_Formats", "MC_Formats_nx.cfg", "MC_Formats_nx.cfg",
     'ValuesBy = "nodes"', 'ValuesBy = "values"', "ValuesAligned LabelsByArea"),
    ("nx-values-sorted", "MC_Formats", "MC_Formats_nx.cfg", "MC_Formats_nx.cfg",
     'ValuesBy = "nodes"', 'ValuesBy = "sorted"', "ValuesAligned LabelsByArea"),
]


def main():
    # "-": the model cannot tell (see the comments); everything else has to be found
    only = [a[5:].split(",") for a in sys.argv[1:] if a.startswith("only=")]
    bad = 0
    for name, model, cfg, path, old, new, props in MUTANTS:
        if only and name not in only[0]:
            continue
        tmp = tempfile.mkdtemp(prefix="sanity-")
        try:
            work = os.path.join(tmp, "spec")
            shutil.copytree(SPEC, work)
            with open(os.path.join(work, path)) as f:
                text = f.read()
            if text.count(old) != 1:
                print("{}: {} does not apply ({})".format(name, path, text.count(old)))
                bad += 1
                continue
            with open(os.path.join(work, path), "w") as f:
                f.write(text.replace(old, new))
            r = subprocess.run(["timeout", "600", "java", "-Xmx4g", "-Djava.io.tmpdir=" + tmp, "-XX:+UseParallelGC", "-cp", JARS,
                                "tlc2.TLC", "-workers", "6", "-config", cfg, model], cwd=work,
                               capture_output=True, text=True)
            hit = re.findall(r"(?:Invariant|Action property|property) (\w+) is violated", r.stdout)
            hit += re.findall(r"Temporal property (\w+) was violated", r.stdout)
            if "Temporal properties were violated" in r.stdout:
                hit.append("temporal")
            ok = not hit if props == "-" else bool(hit) and (hit[0] == "temporal" or not props or hit[0] in props.split())
            print("{:28} {:16} {} {}".format(name, model, "violates " + ", ".join(hit) if hit else
                                             "NOT DETECTED", "" if ok else "(expected {})".format(props)),
                  flush=True)
            if not hit and "Error" in r.stdout:
                print("   ", re.findall(r"Error: .*", r.stdout)[:2])
            bad += not ok
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
