------------------------------ MODULE MCModel ------------------------------
(* All short histories of editing and solving a model; each one that ends with a solution is a     *)
(* script.                                                                                         *)
EXTENDS Model, Json
CONSTANTS MaxNodes, MaxEls, MaxSolves, Depth
VARIABLES rnd, hist,
  was      \* what was deleted or changed, before which solution: histories which differ in this stay apart
E(n, d, ed, kk, f) == [nodes |-> n, dofs |-> d, edofs |-> ed, K |-> kk, C |-> kk, M |-> kk, F |-> f, tang |-> 1, nl |-> FALSE]
Link == <<<<3, -1>>, <<-1, 3>>>>
Diag2 == <<<<3, 1>>, <<1, 5>>>>
\* every element is positive definite, so that a model can be solved whenever what it refers to exists
Cat == {
  <<E(<<1, 2>>, <<"UX">>, <<>>, Link, <<0, 1>>), "elem LINE 1 1 0 D UX E N 1 2 K 3 -1 3 F 0 1 C 3 -1 3 M 3 -1 3">>,
  <<E(<<2, 3>>, <<"UX">>, <<>>, Link, <<2, 0>>), "elem LINE 2 1 0 D UX E N 2 3 K 3 -1 3 F 2 0 C 3 -1 3 M 3 -1 3">>,
  <<E(<<1>>, <<"UX">>, <<"TEMP">>, Diag2, <<1, 7>>), "elem VERTEX 0 1 0 D UX E TEMP N 1 K 3 1 5 F 1 7 C 3 1 5 M 3 1 5">> }
Mp == <<[t |-> <<<<1, "UX", 1>>, <<2, "UX", -2>>>>, b |-> 3], "mpc 3 1 UX 1 2 UX -2">>
Rg == <<[m |-> 3, d |-> <<"UX">>, s |-> <<1>>], "rigid 3 D UX S 1">>
op(o) == hist' = Append(hist, o)
Enum(A, from) == CHOOSE f \in [A -> from..(from + Cardinality(A) - 1)] : \A x, y \in A : x # y => f[x] # f[y]
\* the master node of the rigid body is held in all but x
Held == IF fm.rigids = <<>> THEN {} ELSE {<<"N", 3, d>> : d \in {"UY", "UZ", "ROTX", "ROTY", "ROTZ"}}
HeldL == IF fm.rigids = <<>> THEN <<>> ELSE [k \in 1..5 |-> "fix 3 " \o <<"UY", "UZ", "ROTX", "ROTY", "ROTZ">>[k] \o " 0"]
\* both constraints together leave nothing free when the springs use two nodes only; kept apart from each other
Apart == fm.mpcs = <<>> \/ fm.rigids = <<>>
Ed == comps' = comps /\ rnd' = rnd /\ was' = was
Ch(tag) == comps' = comps /\ rnd' = rnd /\ was' = was \cup {<<tag, rnd>>}
Next ==
  /\ Len(hist) < Depth
  /\ \/ \E n \in {1, 2} : fm.nn + n <= MaxNodes /\ AddNodes(n) /\ op("mknodes " \o ToString(n)) /\ Ed
     \/ fm.nn < MaxNodes /\ AddNode(<<1, 2, 0>>) /\ op("addnode 1 2 0") /\ Ed
     \/ fm.nn >= 1 /\ fm.pos[1] = <<0, 0, 0>> /\ MoveNode(1, <<0, 3, 0>>) /\ op("movenode 1 0 3 0") /\ Ch("movenode")
     \/ \E c \in Cat : Len(fm.els) < MaxEls /\ AddElem(c[1]) /\ op(c[2]) /\ Ed
     \/ fm.els # <<>> /\ Len(fm.els[1].nodes) = 1 /\ fm.els[1].nodes = <<1>> /\ Renode(1, <<2>>) /\ op("renode 1 2") /\ Ch("renode")
     \/ fm.mpcs = <<>> /\ AddMpc(Mp[1]) /\ op(Mp[2]) /\ Ed
     \/ fm.mpcs # <<>> /\ fm.mpcs[1].b = 3 /\ EditMpc(1, 5, 4) /\ op("mpcedit 1 5 4") /\ Ch("mpcedit")
     \/ fm.rigids = <<>> /\ AddRigid(Rg[1]) /\ op(Rg[2]) /\ Ed
     \/ fm.els # <<>> /\ DelEls /\ op("delels") /\ Ch("delels")
     \/ fm.nn > 0 /\ DelNodes /\ op("delnodes") /\ Ch("delnodes")
     \/ fm.mpcs # <<>> /\ DelMpcs /\ op("delmpcs") /\ Ch("delmpcs")
     \/ fm.rigids # <<>> /\ DelMpcs /\ op("delmpcs") /\ Ch("delmpcs")
     \/ fm.rigids # <<>> /\ DelRigids /\ op("delcolls") /\ Ch("delcolls")
     \/ fm.nn > 0 /\ DelMesh /\ comps' = <<>> /\ rnd' = rnd /\ was' = was \cup {<<"delmesh", rnd>>} /\ op("delmesh")
     \/ Len(comps) < 1 /\ comps' = Append(comps, [n |-> "A", t |-> "NODE", l |-> <<1>>]) /\ UNCHANGED <<fevars, rnd, was>> /\ op("comp A NODE 1")
     \/ comps # <<>> /\ comps' = <<>> /\ UNCHANGED <<fevars, rnd, was>> /\ op("delcomps")
     \/ /\ rnd < MaxSolves /\ phase = "mesh" /\ Refers /\ Apart
        /\ reg' = Wanted /\ con' = Held
        /\ rnd' = rnd + 1 /\ was' = was /\ comps' = comps /\ phase' = "solved" /\ UNCHANGED <<fm, eq, meq, req, loc, mrow>>
        /\ hist' = hist \o <<"solver lin", "rec 11 1">> \o HeldL \o <<"solve", "get", "seen", "comps">>
MCInit == fm = [NoModel EXCEPT !.S = 10000] /\ phase = "mesh" /\ reg = {} /\ con = {} /\ eq = EmptyF /\ meq = <<>> /\ req = EmptyF /\ loc = <<>> /\ mrow = EmptyF
          /\ comps = <<>> /\ rnd = 0 /\ was = {} /\ hist = <<"fe 10000 0">>
Spec == MCInit /\ [][Next]_<<mdvars, rnd, hist, was>>
Emit == IF phase' = "solved" /\ rnd' = MaxSolves THEN PrintT(<<"SCRIPT", ToJson(hist')>>) ELSE TRUE
View == <<fm, phase, comps, rnd, was, Len(hist)>>
\* consequences
Numbered == Len(fm.pos) = fm.nn
Solvable == phase = "solved" =>
  LET q == Enum(con, 1) @@ Enum(reg \ con, NCon + 1) rq == Enum(RigidEqs, NDof + Len(fm.mpcs) + 1) IN
    /\ IsNumbering(q, [k \in DOMAIN fm.mpcs |-> NDof + k], rq) /\ NDof > NCon
    /\ reg = UNION {ElKeys(k) : k \in DOMAIN fm.els} \cup UNION {RigidKeys(fm.rigids[k]) : k \in DOMAIN fm.rigids}
    /\ \A a \in reg : a[2] \in 1..(IF a[1] = "N" THEN fm.nn ELSE Len(fm.els))
=============================================================================
