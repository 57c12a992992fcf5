--------------------------------- MODULE Maps --------------------------------
(* Functions used as finite maps. *)
Put(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
Remove(f, S) == [x \in DOMAIN f \ S |-> f[x]]
=============================================================================
