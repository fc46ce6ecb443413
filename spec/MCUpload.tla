------------------------------ MODULE MCUpload ------------------------------
EXTENDS Upload, Json
CONSTANTS Dirs, Names, Nos, Vals
VARIABLE done            \* history: results known to be assembled in full, with the upload they came from
vs == <<chunks, torn, result, last, done>>
Pre(w) == {SubSeq(w, 1, i) : i \in 0..(Len(w) - 1)}
Step ==
  \/ \E d \in Dirs, n \in Names, k \in Nos, v \in Vals : Do([op |-> "Put", d |-> d, n |-> n, k |-> k, v |-> <<v>>], <<"v", <<v>>>>, <<>>)
  \/ \E d \in Dirs, n \in Names :
       LET r == IF Complete(d, n) THEN <<"v", Whole(d, n)>> ELSE <<"err">> IN
       \/ Do([op |-> "Make", d |-> d, n |-> n], r, <<>>)
       \/ Complete(d, n) /\ Do([op |-> "MakeFull", d |-> d, n |-> n], <<"err">>, <<>>)
       \/ Complete(d, n) /\ Do([op |-> "MakeHidden", d |-> d, n |-> n], <<"err">>, <<>>)
       \/ Complete(d, n) /\ \E w \in Pre(Whole(d, n)) :
            Do([op |-> "Crash", d |-> d, n |-> n], <<"dead">>, <<<<n, w>>>>)
  \/ \E d \in Dirs : Do([op |-> "Drop", d |-> d], <<>>, <<>>)
Next == /\ Step
        /\ done' = IF last'.c.op = "Make" /\ last'.r[1] = "v" THEN Put2(done, last'.c.n, last'.r[2])
                   ELSE IF last'.c.op \in {"MakeFull", "MakeHidden", "Crash", "Make"}
                        THEN (IF last'.c.op = "Make" /\ Nums(last'.c.d, last'.c.n) = {} THEN done ELSE Del(done, {last'.c.n}))
                        ELSE done
Spec == Init /\ done = <<>> /\ [][Next]_vs
View == <<chunks, result>>
(* a result is there in full unless an assembly of it was cut down *)
Kept == \A n \in DOMAIN done : n \in DOMAIN result /\ result[n] = done[n]
Failed == last # <<>> /\ last.c.op \in {"Make", "MakeFull", "MakeHidden"} /\ last.r = <<"err">>
              /\ last.c.n \in DOMAIN result
          => Nums(last.c.d, last.c.n) = {}
Node == <<{<<k, chunks[k]>> : k \in DOMAIN chunks}, {<<n, result[n]>> : n \in DOMAIN result}>>
Emit == PrintT(ToJson([f |-> Node, t |-> Node', c |-> last'.c]))
=============================================================================
