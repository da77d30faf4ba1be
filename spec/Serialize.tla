------------------------------ MODULE Serialize ------------------------------
(* What serialization promises: the copy is a graph of new objects that is    *)
(* the same as the original up to the identity of the objects, the original   *)
(* is left as it was, and sizing, packing and unpacking agree on the number   *)
(* of bytes.                                                                  *)
EXTENDS Heap
SameBytes(z) == z[1] = z[2] /\ z[1] = z[3]
===============================================================================
