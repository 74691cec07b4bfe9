----------------------------- MODULE TensorLife -----------------------------
(* The life of tensors: storage is owned exactly once.

   A program holds tensors in slots.  A slot is a record
     st    "none" | "unalloc" (shape, no storage) | "owned" | "ref" | "host" (values, no device)
     dev   the device (0: none)
     sh    the shape
     blk   the block of device memory it shows (0: none)
     ref   the slot it borrows (0: none); also kept by a tensor that referred to one without
           storage, for which nothing else follows
     vals  the contents

   An operation o is a record [a, s (slot), d (device), sh, t (other slot), vals].
   Can: the language lets a program write it (nothing borrowed is moved, changed or dropped).
   Ok:  it is accepted.     After: what it leaves; `b` is the block obtained, if it needs one. *)
EXTENDS Shapes, TLC

NoShape == Sh(<<>>, 1)
Gone == [st |-> "none", dev |-> 0, sh |-> NoShape, blk |-> 0, ref |-> 0, vals |-> <<>>]

HasData(x) == x.st \in {"owned", "ref"}
Borrowed(S, i) == \E j \in DOMAIN S : S[j].st # "none" /\ S[j].ref = i
Makers == {"new", "host", "const", "slice", "copy", "from", "fromparam", "neg", "reshape", "flat"}
Const(sh, k) == [i \in 1 .. Size(sh) |-> k]

Can(o, S) ==
  LET x == S[o.s] IN
  CASE o.a \in {"new", "host", "const", "slice", "fromparam"} -> x.st = "none"
    [] o.a \in {"copy", "neg", "reshape", "flat"} -> x.st = "none" /\ o.t # o.s /\ S[o.t].st \notin {"none", "host"}
    [] o.a = "from" -> x.st = "none" /\ o.t # o.s /\ S[o.t].st \notin {"none", "host"}
    [] o.a \in {"alloc", "move", "update"} -> x.st # "none" /\ ~ Borrowed(S, o.s)
    \* a program that writes through a borrowed view is not considered
    [] o.a \in {"reset", "resetslice"} -> x.st \notin {"none", "ref"} /\ ~ Borrowed(S, o.s)
    [] o.a = "resettensor" -> /\ x.st \notin {"none", "ref"} /\ ~ Borrowed(S, o.s)
                              /\ o.t # o.s /\ S[o.t].st # "none" /\ S[o.t].ref # o.s
                              /\ S[o.t].dev = x.dev
    [] o.a = "refer" -> x.st # "none" /\ ~ Borrowed(S, o.s) /\ o.t # o.s /\ S[o.t].st # "none" /\ S[o.t].ref # o.s
    [] o.a = "replace" -> /\ x.st # "none" /\ ~ Borrowed(S, o.s)
                          /\ o.t # o.s /\ S[o.t].st # "none" /\ ~ Borrowed(S, o.t) /\ S[o.t].ref # o.s
                          \* adopting one that borrowed nothing real is not considered
                          /\ ~ (S[o.t].st = "unalloc" /\ S[o.t].ref # 0)
    [] o.a = "drop" -> x.st # "none" /\ ~ Borrowed(S, o.s)

Ok(o, S) ==
  LET x == S[o.s] IN
  CASE o.a \in {"new", "host", "const", "fromparam", "drop", "from"} -> TRUE
    [] o.a = "slice" -> Len(o.vals) = Size(o.sh)
    [] o.a \in {"copy", "neg", "flat"} -> HasData(S[o.t])
    [] o.a = "reshape" -> HasData(S[o.t]) /\ Size(o.sh) = Size(S[o.t].sh)
    [] o.a = "alloc" -> x.st = "unalloc"
    [] o.a = "move" -> x.st = "host" /\ Len(x.vals) = Size(x.sh)
    [] o.a = "update" -> Size(o.sh) = Size(x.sh)
    [] o.a = "reset" -> x.st = "owned"
    [] o.a = "resetslice" -> x.st = "owned" /\ Len(o.vals) = Size(x.sh)
    [] o.a = "resettensor" -> x.st = "owned" /\ HasData(S[o.t]) /\ Size(S[o.t].sh) = Size(x.sh)
    [] o.a = "refer" -> x.st = "unalloc" /\ S[o.t].dev = x.dev /\ S[o.t].sh = x.sh
    [] o.a = "replace" -> x.st = "unalloc" /\ S[o.t].dev = x.dev /\ S[o.t].sh = x.sh /\ S[o.t].st # "ref"

\* a block is needed (the device of the block; 0: none)
Needs(o, S) ==
  IF o.a = "move" THEN (IF Ok(o, S) THEN o.d ELSE 0)
  ELSE IF o.a \in {"const", "slice", "fromparam"} THEN (IF Ok(o, S) THEN o.d ELSE 0)
  ELSE IF o.a \in {"copy", "neg", "reshape", "flat"} THEN (IF Ok(o, S) THEN S[o.t].dev ELSE 0)
  ELSE IF o.a = "alloc" THEN (IF Ok(o, S) THEN S[o.s].dev ELSE 0)
  ELSE 0

Owned(d, sh, b, v) == [st |-> "owned", dev |-> d, sh |-> sh, blk |-> b, ref |-> 0, vals |-> v]
\* contents nobody has defined yet
Unset == <<>>

After(o, S, b) ==
  LET x == S[o.s]
      y == IF o.t = 0 THEN Gone ELSE S[o.t]
      Put(r) == [S EXCEPT ![o.s] = r]
  IN
  IF o.a = "replace"
    THEN LET Left == [S EXCEPT ![o.t] = Gone]                \* consumed in any case
         IN IF Ok(o, S)
              THEN [Left EXCEPT ![o.s] = [x EXCEPT !.st = y.st, !.blk = y.blk, !.ref = 0, !.vals = y.vals]]
              ELSE Left
  ELSE IF ~ Ok(o, S) THEN S
  ELSE CASE o.a = "new"   -> Put([Gone EXCEPT !.st = "unalloc", !.dev = o.d, !.sh = o.sh])
         [] o.a = "host"  -> Put([Gone EXCEPT !.st = "host", !.sh = o.sh, !.vals = o.vals])
         [] o.a = "const" -> Put(Owned(o.d, o.sh, b, Const(o.sh, o.vals[1])))
         [] o.a \in {"slice", "fromparam"} -> Put(Owned(o.d, o.sh, b, o.vals))
         [] o.a = "copy"  -> Put(Owned(y.dev, y.sh, b, y.vals))
         [] o.a = "flat"  -> Put(Owned(y.dev, Sh(<<Vol(y.sh)>>, y.sh.b), b, y.vals))
         [] o.a = "reshape" -> Put(Owned(y.dev, o.sh, b, y.vals))
         [] o.a = "neg"   -> Put(Owned(y.dev, y.sh, b, IF y.vals = Unset THEN Unset ELSE [i \in DOMAIN y.vals |-> - y.vals[i]]))
         [] o.a = "from"  -> Put([y EXCEPT !.st = IF HasData(y) THEN "ref" ELSE y.st, !.ref = o.t])
         [] o.a = "alloc" -> Put(Owned(x.dev, x.sh, b, Unset))
         [] o.a = "move"  -> Put(Owned(o.d, x.sh, b, x.vals))
         [] o.a = "update" -> Put([x EXCEPT !.sh = o.sh])
         [] o.a = "reset" -> Put([x EXCEPT !.vals = Const(x.sh, o.vals[1])])
         [] o.a = "resetslice" -> Put([x EXCEPT !.vals = o.vals])
         [] o.a = "resettensor" -> Put([x EXCEPT !.vals = y.vals])
         [] o.a = "refer" -> Put([x EXCEPT !.st = IF HasData(y) THEN "ref" ELSE "unalloc", !.blk = y.blk, !.ref = o.t,
                                           !.vals = y.vals])
         [] o.a = "drop"  -> Put(Gone)

\* every block of a device has one owner
Owners(S) == {i \in DOMAIN S : S[i].st = "owned"}
OwnedOnce(S) == \A i, j \in Owners(S) : S[i].dev = S[j].dev /\ S[i].blk = S[j].blk => i = j
\* a reference shows what its referent shows
Shows(S) == \A i \in DOMAIN S : S[i].st = "ref" =>
               LET y == S[S[i].ref] IN HasData(y) /\ y.dev = S[i].dev /\ y.blk = S[i].blk /\ y.vals = S[i].vals
=============================================================================
