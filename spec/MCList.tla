------------------------------- MODULE MCList -------------------------------
EXTENDS List, TLC, Json
CONSTANTS MaxHandles, Values
Calls ==
  [op : {"PushFront", "PushBack"}, l : Lists, v : Values]
  \cup [op : {"InsertBefore", "InsertAfter"}, l : Lists, v : Values, m : Handles]
  \cup [op : {"Remove", "MoveToFront", "MoveToBack"}, l : Lists, e : Handles]
  \cup [op : {"MoveBefore", "MoveAfter"}, l : Lists, e : Handles, m : Handles]
  \cup [op : {"PushBackList", "PushFrontList"}, l : Lists, m : Lists]
  \cup [op : {"RemoveFront", "RemoveBack", "Clear"}, l : Lists]
Results == {<<>>, <<"nil">>, <<"panic">>, Handle} \cup {<<"v", x>> : x \in Values}
Next == \E c \in Calls : \E r \in Results : Do(c, r)
Spec == Init /\ [][Next]_vars
Bound == Len(val) <= MaxHandles
View == <<seq, val>>
Emit == Len(val') <= MaxHandles => PrintT(ToJson([f |-> View, t |-> View', c |-> last'.c]))
(* Action property: an operation through a handle the list does not own changes nothing *)
ForeignHandleInert ==
  [][(last'.c.op \in {"MoveToFront", "MoveToBack", "Remove"} /\ ~Owned(last'.c.e, last'.c.l)) => seq' = seq]_vars
=============================================================================
