---------------------------- MODULE MCDequeStack ----------------------------
EXTENDS DequeStack, TLC, Json
CONSTANTS Values, MaxLen
Calls == [op : {"PushFront", "PushBack", "Push"}, o : Objs, v : Values]
         \cup [op : {"PopFront", "PopBack", "Pop", "Peek"}, o : Objs]
Results == {<<>>, <<"panic">>} \cup {<<"v", x>> : x \in Values}
Next == \E c \in Calls : \E r \in Results : Do(c, r)
Spec == Init /\ [][Next]_vars
Small(f) == \A o \in Objs : Len(f[o]) <= MaxLen
Bound == Small(dq) /\ Small(st)
View == <<dq, st>>
Emit == Small(dq') /\ Small(st') => PrintT(ToJson([f |-> View, t |-> View', c |-> last'.c]))
(* what was pushed last on a stack comes off first *)
LIFO == [][(last' # <<>> /\ last'.c.op = "Pop" /\ last # <<>> /\ last.c.op = "Push" /\ last.c.o = last'.c.o)
            => last'.r = <<"v", last.c.v>>]_vars
=============================================================================
