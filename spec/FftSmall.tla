------------------------------ MODULE FftSmall ------------------------------
(***************************************************************************)
(* Every way to spread a small grid over a few ranks in boxes, some of     *)
(* them empty: the exhaustive part of the problems the library is given.   *)
(* TLC evaluates Shapes and writes the tilings of each to a file.          *)
(***************************************************************************)
EXTENDS Tilings, Json, IOUtils, TLC, SequencesExt, FiniteSets

(* <<grid, ranks>> *)
Shapes == JsonDeserialize(IOEnv.FFT_SHAPES)

All == [i \in 1..Len(Shapes) |-> SetToSeq(Tilings(Shapes[i][1], Shapes[i][2]))]

ASSUME JsonSerialize(IOEnv.FFT_OUT, All)
=============================================================================
