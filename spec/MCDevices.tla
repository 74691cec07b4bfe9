----------------------------- MODULE MCDevices ------------------------------
(* All short histories of registering, creating, combining and dropping on two devices.
   Test = "device": operands are compared by the device they are on; "kind": by what the device
   says it is (both say the same), under which Separate fails.  Keep = "last" or "first"
   registration of a name; with "first" Latest fails.                                        *)
EXTENDS Devices, Json

CONSTANTS MaxLen, MaxTensors, MaxRegs, Ops, Test, Keep
Devs == {0, 1}
\* op -> its kernel, and how many operands it takes
Key(o) == Fw(o)
Arity(o) == IF o = "neg_fw" THEN 1 ELSE 2

VARIABLES regs,   \* device -> key -> registration
          wish,   \* device -> key -> the most recent registration, by definition
          gen,
          ts,     \* tensors: [home, block, live]
          free,   \* device -> released blocks
          next,   \* device -> blocks obtained so far
          last,   \* the last step
          hist
vars == <<regs, wish, gen, ts, free, next, last, hist>>

Init == /\ regs = [d \in Devs |-> <<>>] /\ wish = regs /\ gen = 0
        /\ ts = <<>> /\ free = [d \in Devs |-> {}] /\ next = [d \in Devs |-> 0]
        /\ last = [ok |-> 0, calls |-> <<>>, on |-> <<>>] /\ hist = <<>>
Step(r) == hist' = Append(hist, r)
Live == {i \in DOMAIN ts : ts[i].live}

Reg == \E d \in Devs, o \in Ops :
         /\ \A i \in Live : ts[i].home # d
         /\ gen < MaxRegs
         /\ gen' = gen + 1
         /\ wish' = [wish EXCEPT ![d] = Register(@, Key(o), gen')]
         /\ regs' = [regs EXCEPT ![d] = IF Keep = "first" /\ Has(@, Key(o)) THEN @ ELSE Register(@, Key(o), gen')]
         /\ last' = [ok |-> 0, calls |-> <<>>, on |-> <<>>]
         /\ UNCHANGED <<ts, free, next>>
         /\ Step([a |-> "reg", d |-> d, o |-> o])
\* a new tensor on device d, in a released block if there is one
Make(d) == IF free[d] # {}
           THEN \E b \in {CHOOSE b \in free[d] : \A c \in free[d] : b >= c} :
                  /\ free' = [free EXCEPT ![d] = @ \ {b}] /\ next' = next
                  /\ ts' = Append(ts, [home |-> d, block |-> b, live |-> TRUE])
           ELSE /\ next' = [next EXCEPT ![d] = @ + 1] /\ free' = free
                /\ ts' = Append(ts, [home |-> d, block |-> next[d], live |-> TRUE])
New == \E d \in Devs :
         /\ Cardinality(Live) < MaxTensors
         /\ Make(d) /\ UNCHANGED <<regs, wish, gen>>
         /\ last' = [ok |-> 1, calls |-> <<>>, on |-> <<>>]
         /\ Step([a |-> "new", d |-> d])
Op == \E o \in Ops : \E x \in Live : \E y \in IF Arity(o) = 1 THEN {x} ELSE Live :
         LET d == ts[x].home
             on == <<ts[x].home, ts[y].home>>
         IN /\ Cardinality(Live) < MaxTensors
            /\ IF (Test = "kind" \/ Home(on) # Mixed) /\ Has(regs[d], Key(o))
               THEN /\ Make(d)
                    /\ last' = [ok |-> 1, calls |-> <<<<d, Key(o), regs[d][Key(o)], 0>>>>, on |-> on]
               ELSE /\ UNCHANGED <<ts, free, next>>
                    /\ last' = [ok |-> 0, calls |-> <<>>, on |-> on]
            /\ UNCHANGED <<regs, wish, gen>>
            /\ Step([a |-> "op", o |-> o, x |-> x, y |-> y])
Drop == \E x \in Live :
         /\ ts' = [ts EXCEPT ![x].live = FALSE]
         /\ free' = [free EXCEPT ![ts[x].home] = @ \cup {ts[x].block}]
         /\ UNCHANGED <<regs, wish, gen, next>>
         /\ last' = [ok |-> 0, calls |-> <<>>, on |-> <<>>]
         /\ Step([a |-> "drop", x |-> x])
Next == Len(hist) < MaxLen /\ (Reg \/ New \/ Op \/ Drop)
Spec == Init /\ [][Next]_vars
View == <<regs, wish, ts, free, next, last, Len(hist)>>

Latest == regs = wish /\ \A i \in DOMAIN last.calls : CallOk(wish, last.calls[i])
Separate == last.on # <<>> /\ last.ok = 1 => \A i \in DOMAIN last.on : last.on[i] = last.calls[1][1]
Exclusive == \A i, j \in Live : i # j => ts[i].home # ts[j].home \/ ts[i].block # ts[j].block
Rejected == [][last'.ok = 0 /\ last'.on # <<>> => UNCHANGED <<regs, ts, free, next>>]_vars
EmitStep == (Len(hist') = MaxLen /\ hist'[MaxLen].a = "op") => PrintT("BEHAVIOUR " \o ToJson([ops |-> hist']))
=============================================================================
