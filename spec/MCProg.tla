------------------------------ MODULE MCProg ------------------------------
(* The nla3d program as a machine which goes through its stages and stops at the first which finds   *)
(* something wrong: every combination of command line options (right, wrong and left out), with what *)
(* the user is to see. Every combination is emitted for the code.                                     *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES o, stage, out, rows, files, hist
vars == <<o, stage, out, rows, files, hist>>
Options == [file : {"model", "missing"}, element : {"none", "right", "unknown"}, material : {"none", "right", "few", "many", "unknown"},
  reaction : {"none", "all", "one", "nowhere"}, curve : {"none", "same", "off", "short", "nofile"}, threshold : {"none", "set"},
  rigid : {"none", "alone", "nowhere", "nomaster"}, vtk : BOOLEAN, iterations : {"none", "one", "many"}, steps : {1, 2}]
Init == o \in Options /\ stage = "parse" /\ out = "running" /\ rows = 0 /\ files = 0 /\ hist = <<>>
Stop == out' = "refused" /\ stage' = "end" /\ UNCHANGED <<o, rows, files>>
Go(s) == stage' = s /\ UNCHANGED <<o, out, rows, files>>
H(x) == hist' = Append(hist, x)
Parse == stage = "parse" /\ (IF o.element = "unknown" \/ o.material = "none" \/ o.rigid = "alone" THEN Stop ELSE Go("curve")) /\ H("parse")
Curve == stage = "curve" /\ (IF o.curve = "nofile" \/ (o.curve # "none" /\ o.reaction = "none") THEN Stop ELSE Go("read")) /\ H("curve")
Read == stage = "read" /\ (IF o.file = "missing" \/ o.rigid = "nomaster" THEN Stop ELSE Go("build")) /\ H("read")
Build == stage = "build" /\ (IF o.material # "right" \/ o.reaction = "nowhere" \/ o.rigid = "nowhere" THEN Stop ELSE Go("solve")) /\ H("build")
\* the file before the solution is written when the solution starts; one iteration can't show convergence
Solve == stage = "solve" /\ H("solve") /\ IF o.iterations = "one" THEN out' = "refused" /\ stage' = "end" /\ files' = (IF o.vtk THEN 1 ELSE 0) /\ UNCHANGED <<o, rows>>
  ELSE stage' = "report" /\ files' = (IF o.vtk THEN o.steps + 1 ELSE 0) /\ UNCHANGED <<o, out, rows>>
Report == stage = "report" /\ H("report") /\ rows' = (IF o.reaction = "none" THEN 0 ELSE o.steps + 1) /\ stage' = "end" /\ UNCHANGED <<o, files>>
  /\ out' = IF o.curve = "short" \/ (o.curve = "off" /\ o.threshold = "set") THEN "differs" ELSE "fine"
Next == Parse \/ Curve \/ Read \/ Build \/ Solve \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Wrong == {x \in {"file", "element", "material", "reaction", "curve", "rigid", "iterations"} :
  CASE x = "file" -> o.file = "missing" [] x = "element" -> o.element = "unknown" [] x = "material" -> o.material # "right" [] x = "reaction" -> o.reaction = "nowhere"
    [] x = "curve" -> o.curve = "nofile" \/ (o.curve # "none" /\ o.reaction = "none") [] x = "rigid" -> o.rigid # "none" [] x = "iterations" -> o.iterations = "one"}
\* refused exactly when something is wrong, whatever else is given; a refused run reports nothing
Refused == stage = "end" => ((out = "refused") <=> Wrong # {})
Silent == out = "refused" => rows = 0 /\ files <= 1 /\ (files = 1 => Wrong = {"iterations"})
Complete == out \in {"fine", "differs"} => (rows > 0 <=> o.reaction # "none") /\ (files > 0 <=> o.vtk) /\ rows <= o.steps + 1
Compared == out = "differs" => o.curve \in {"off", "short"} /\ o.reaction # "none"
Ends == <>(stage = "end")
B(x) == IF x THEN 1 ELSE 0
Emit == stage' = "end" => PrintT(<<"SCRIPT", ToJson(<<<<o.file, o.element, o.material, o.reaction, o.curve, o.threshold, o.rigid, B(o.vtk), o.iterations, o.steps, out', rows', files'>>>>)>>)
=============================================================================
