------------------------------ MODULE Tilings -------------------------------
(***************************************************************************)
(* Every way to spread a small grid over a few ranks in boxes, some of     *)
(* them empty.                                                             *)
(***************************************************************************)
EXTENDS Layout

Ranges(k) == {r \in (0..(k - 1)) \X (0..(k - 1)) : r[1] <= r[2]}
Boxes(n) == {<<x[1], x[2], y[1], y[2], z[1], z[2]>> : x \in Ranges(n[1]),
                                                     y \in Ranges(n[2]),
                                                     z \in Ranges(n[3])}
Nothing == <<0, -1, 0, 0, 0, 0>>

(* extend partial tilings rank by rank *)
RECURSIVE Partial(_, _)
Partial(n, P) ==
  IF P = 0 THEN {<<>>}
  ELSE UNION {{Append(t, b) : b \in {Nothing} \cup {x \in Boxes(n) : \A r \in 1..Len(t) : Disjoint(t[r], x)}} : t \in Partial(n, P - 1)}

Tilings(n, P) == {t \in Partial(n, P) : Tiling(t, n)}

(* those in which every tile holds whole lines along dimension d *)
Pencils(n, P, d) == {t \in Tilings(n, P) : \A r \in 1..P : Size(t[r]) > 0 => Ext(t[r], d) = n[d]}
=============================================================================
