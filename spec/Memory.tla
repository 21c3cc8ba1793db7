------------------------------- MODULE Memory -------------------------------
(* What a run may do to memory.  The run is given blocks of cells, each with a  *)
(* beginning and an end, in which nothing is yet known; it may write a cell of  *)
(* a block it holds, copy one cell to another (a copy of an unknown value is    *)
(* unknown), decide by a cell whose value is known, and give a block back, once.*)
(*                                                                              *)
(* The instruments keep exactly this state beside the memory of the code: which *)
(* cells are held (AddressSanitizer, memcheck) and which of those have a value  *)
(* (memcheck).  A trace of the code conforms when each of its accesses is one   *)
(* of the steps below; the first that is none is what the instrument reports.   *)
EXTENDS Integers, FiniteSets

CONSTANTS Cells,      \* the addresses, 1..n
          MaxBlocks

VARIABLES held,       \* the blocks the run holds: sets <<lo, hi>>
          known,      \* the cells that have a value the run gave them
          freed,      \* how many blocks were given back
          last        \* the last access: what, and the cells it touched

vars == <<held, known, freed, last>>
Span(b) == b[1]..b[2]
Held == UNION {Span(b) : b \in held}
Apart(b, c) == Span(b) \cap Span(c) = {}
\* a cell beside a block is never held by another: one past the end is an error however memory is laid out
Beside(b) == {b[1] - 1, b[2] + 1}

Init == held = {} /\ known = {} /\ freed = 0 /\ last = <<"none", {}>>

Take == \E lo \in Cells, hi \in Cells :
    /\ lo <= hi /\ Cardinality(held) + freed < MaxBlocks
    /\ \A c \in held : Apart(<<lo, hi>>, c) /\ Beside(<<lo, hi>>) \cap Span(c) = {}
    /\ held' = held \cup {<<lo, hi>>}
    /\ known' = known \ (lo..hi)
    /\ last' = <<"take", lo..hi>>
    /\ UNCHANGED freed

Give == \E b \in held :
    /\ held' = held \ {b} /\ freed' = freed + 1
    /\ known' = known \ Span(b)
    /\ last' = <<"give", Span(b)>>

Write == \E c \in Held :
    /\ known' = known \cup {c} /\ last' = <<"write", {c}>>
    /\ UNCHANGED <<held, freed>>

Copy == \E c \in Held, d \in Held :
    /\ known' = IF c \in known THEN known \cup {d} ELSE known \ {d}
    /\ last' = <<"copy", {c, d}>>
    /\ UNCHANGED <<held, freed>>

Decide == \E c \in known :
    /\ last' = <<"decide", {c}>>
    /\ UNCHANGED <<held, known, freed>>

Next == Take \/ Give \/ Write \/ Copy \/ Decide
Spec == Init /\ [][Next]_vars

\* what a run relies on
KnownIsHeld == known \subseteq Held
BlocksApart == \A b \in held, c \in held : b # c => Apart(b, c)
AccessHeld == last[1] \in {"write", "copy"} => last[2] \subseteq Held
DecidesByKnown == last[1] = "decide" => last[2] \subseteq known
GivenBack == last[1] = "give" => last[2] \cap Held = {}
Fresh == last[1] = "take" => last[2] \cap known = {}
=============================================================================
