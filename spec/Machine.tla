------------------------------- MODULE Machine --------------------------------
(***************************************************************************)
(* The state of the library: for every thread its sticky exception flags    *)
(* and its control word (which conditions throw).  Nothing else survives a   *)
(* call: the result of an operation is a function of its arguments (Ops).    *)
(***************************************************************************)
EXTENDS Flags

CONSTANT Threads
VARIABLES flags,        \* flags[t]  set of raised conditions of thread t
          cwd           \* cwd[t]    set of conditions that throw in thread t
machine == <<flags, cwd>>

MachineType == flags \in [Threads -> SUBSET Conditions] /\ cwd \in [Threads -> SUBSET Conditions]
(* initially no flag is raised, nothing throws *)
MachineInit == flags = [t \in Threads |-> {}] /\ cwd = [t \in Threads |-> {}]

(* condition c is signalled in thread t *)
Signal(t, c) == flags' = [flags EXCEPT ![t] = @ \cup c] /\ UNCHANGED cwd
Clear(t, c) == flags' = [flags EXCEPT ![t] = @ \ c] /\ UNCHANGED cwd
SetCwd(t, c) == cwd' = [cwd EXCEPT ![t] = c] /\ UNCHANGED flags
(* the conditions that leave the call as an exception *)
Thrown(t, c) == c \cap cwd[t]
=============================================================================
