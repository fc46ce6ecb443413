------------------------------- MODULE MCZip -------------------------------
EXTENDS Zip, Json
\* a  b  /a  a/b  ../x  a/../b  a/../../x  ../d/a (d: the destination)  a/  ../  .
Names == {<<97>>, <<98>>, <<47, 97>>, <<97, 47, 98>>, <<46, 46, 47, 120>>, <<97, 47, 46, 46, 47, 98>>,
          <<97, 47, 46, 46, 47, 46, 46, 47, 120>>, <<46, 46, 47, 100, 47, 97>>, <<97, 47>>, <<46, 46, 47>>, <<46>>}
HomeC == <<<<104>>, <<100>>>>
Entry(n, v) == [n |-> n, dir |-> n[Len(n)] = Slash, v |-> IF n[Len(n)] = Slash THEN <<>> ELSE v]
Archs == {<<>>} \cup {<<Entry(n, <<1>>)>> : n \in Names} \cup {<<Entry(n, <<1>>), Entry(m, <<2, 3>>)>> : n, m \in Names}
Files == {<<115>>, <<116, 47, 115>>}
Step ==
  \/ /\ arch = NoArch /\ src = <<>>
     /\ \E a \in Archs : Do([op |-> "Raw", es |-> a], <<>>, <<>>)
  \/ arch = NoArch /\ src = <<>> /\ \E n \in {<<97>>, <<97, 47, 98>>}, d \in BOOLEAN :
       LET x == IF d THEN <<>> ELSE <<4, 4, 4>>
           r == IF Enter(tree, Below(n), d, x) = <<>> THEN <<"err">> ELSE <<>> IN
       Do([op |-> "Pre", n |-> n, dir |-> d, v |-> x], r, <<>>)
  \/ /\ arch.k # "none"
     /\ LET u == All(tree, arch.es) IN
        Do([op |-> "Unzip", dest |-> 0], IF u = <<>> THEN <<"err">> ELSE <<"v", [i \in DOMAIN arch.es |-> Below(arch.es[i].n)]>>, tree)
  \/ /\ tree = <<>> /\ arch = NoArch /\ \E n \in Files : Do([op |-> "Src", n |-> n, v |-> <<1, 2>>], <<>>, <<>>)
  \/ /\ src # <<>> /\ arch = NoArch
     /\ \E fs \in {<<a>> : a \in Files} \cup {<<a, b>> : a, b \in Files} : \E old, new \in {<<>>, <<116>>, <<116, 116>>} :
       Do([op |-> "Zip", fs |-> fs, old |-> old, new |-> IF old = <<>> THEN <<>> ELSE new],
          IF \A i \in DOMAIN fs : fs[i] \in DOMAIN src THEN <<"v", Packed(fs, old, IF old = <<>> THEN <<>> ELSE new)>> ELSE <<"err">>, <<>>)
Spec == Init /\ [][Step]_vars
View == <<src, arch, tree, last # <<>> /\ last.c.op = "Unzip">>
(* the tree is a tree, and the destination is never left *)
Tree == \A p \in DOMAIN tree : p # <<>> /\ \A i \in 1..(Len(p) - 1) : SubSeq(p, 1, i) \in DOMAIN tree /\ tree[SubSeq(p, 1, i)][1] = "d"
Stays == \A p \in DOMAIN tree : \A i \in DOMAIN p : p[i] \notin {<<>>, <<Dot>>, <<Dot, Dot>>}
(* what was packed comes out under its new name *)
Round == \A i \in DOMAIN arch.es : (arch.k # "none" /\ last # <<>> /\ last.c.op = "Unzip" /\ last.r[1] = "v"
           /\ ~arch.es[i].dir /\ \A j \in (i + 1)..Len(arch.es) : Below(arch.es[j].n) # Below(arch.es[i].n))
           => tree[Below(arch.es[i].n)] = <<"f", arch.es[i].v>>
AsSet(f) == {<<k, f[k]>> : k \in DOMAIN f}
Node == <<AsSet(src), arch, AsSet(tree), View[4]>>
Emit == PrintT(ToJson([f |-> Node, t |-> Node', c |-> last'.c]))
=============================================================================
