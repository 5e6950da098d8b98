------------------------------- MODULE Mesh -------------------------------
(* Neutral mesh data: nodes, cells with attributes, boundary conditions, constraint equations and  *)
(* components; reading a document and compressing the node numbers.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES md, doc
mvars == <<md, doc>>
Empty == [nodes |-> <<>>, cells |-> <<>>, fixes |-> <<>>, loads |-> <<>>, mpcs |-> <<>>, comps |-> {}]
SeqSet(q) == {q[k] : k \in DOMAIN q}
\* one record appended to a document; records: [r |-> kind, v |-> value]
Put(m, r, v) == CASE r = "node" -> [m EXCEPT !.nodes = Append(@, v)]      \* <<num, <<x, y, z>>>>
                  [] r = "cell" -> [m EXCEPT !.cells = Append(@, v)]      \* <<num, <<type, mat, real, sect, cs, shape>>, nodes>>
                  [] r = "fix" -> [m EXCEPT !.fixes = Append(@, v)]       \* <<node, dof, value>>
                  [] r = "load" -> [m EXCEPT !.loads = Append(@, v)]
                  [] r = "mpc" -> [m EXCEPT !.mpcs = Append(@, v)]        \* <<b, terms>>
                  [] r = "comp" -> [m EXCEPT !.comps = @ \cup {v}]        \* <<name, kind, list>>
                  [] r = "none" -> m
\* numbers of the nodes a document speaks about
Nums(m) == {m.nodes[k][1] : k \in DOMAIN m.nodes}
Refs(m) == UNION {SeqSet(m.cells[k][3]) : k \in DOMAIN m.cells} \cup {m.fixes[k][1] : k \in DOMAIN m.fixes} \cup {m.loads[k][1] : k \in DOMAIN m.loads}
           \cup UNION {{m.mpcs[k][2][j][1] : j \in DOMAIN m.mpcs[k][2]} : k \in DOMAIN m.mpcs} \cup UNION {SeqSet(c[3]) : c \in {d \in m.comps : d[2] = "NODE"}}
WellFormed(m) == Cardinality(Nums(m)) = Len(m.nodes) /\ Refs(m) \subseteq Nums(m)
\* the node listed at place k gets number k; every reference follows
NewNum(m) == [n \in Nums(m) |-> CHOOSE k \in DOMAIN m.nodes : m.nodes[k][1] = n]
MapSeq(q, f(_)) == [k \in DOMAIN q |-> f(q[k])]
Compressed(m) == LET w == NewNum(m) IN
  [nodes |-> [k \in DOMAIN m.nodes |-> <<k, m.nodes[k][2]>>],
   cells |-> [k \in DOMAIN m.cells |-> <<m.cells[k][1], m.cells[k][2], [j \in DOMAIN m.cells[k][3] |-> w[m.cells[k][3][j]]]>>],
   fixes |-> [k \in DOMAIN m.fixes |-> <<w[m.fixes[k][1]], m.fixes[k][2], m.fixes[k][3]>>],
   loads |-> [k \in DOMAIN m.loads |-> <<w[m.loads[k][1]], m.loads[k][2], m.loads[k][3]>>],
   mpcs |-> [k \in DOMAIN m.mpcs |-> <<m.mpcs[k][1], [j \in DOMAIN m.mpcs[k][2] |-> <<w[m.mpcs[k][2][j][1]], m.mpcs[k][2][j][2], m.mpcs[k][2][j][3]>>]>>],
   comps |-> {IF c[2] = "NODE" THEN <<c[1], c[2], [j \in DOMAIN c[3] |-> w[c[3][j]]]>> ELSE c : c \in m.comps}]
MInit == md = Empty /\ doc = Empty
PutDoc(r, v) == doc' = Put(doc, r, v) /\ UNCHANGED md
PutMesh(r, v) == md' = Put(md, r, v) /\ UNCHANGED doc
Read == md' = doc /\ UNCHANGED doc
Compress == md' = Compressed(md) /\ UNCHANGED doc
Degenerated(m) == {k \in DOMAIN m.cells : Cardinality(SeqSet(m.cells[k][3])) # Len(m.cells[k][3])}
ByAttr(m, a, v) == {k \in DOMAIN m.cells : m.cells[k][2][a] = v}
=============================================================================
