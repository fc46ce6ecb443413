---- MODULE MCHashFn ----
EXTENDS HashFn, Json
CONSTANTS Keys, Codes
Next == \E o \in Objs, k \in Keys, v \in Codes, via \in {"bytes", "string"} :
          Do([op |-> "Sum", o |-> o, k |-> k, via |-> via], <<"v", v>>)
Spec == Init /\ [][Next]_vars
View == <<[o \in Objs |-> DOMAIN fn[o]], IF last = <<>> THEN <<>> ELSE <<last.c.k, last.c.o>>>>
Emit == PrintT(ToJson([f |-> View, t |-> View', c |-> last'.c]))
====
