----------------------------- MODULE ContractTrace -----------------------------
(* Which uses of the library have a meaning. Each event is one use that was    *)
(* given to the compiler, with its verdict: a use without meaning has to be     *)
(* rejected, a meaningful one accepted. Nothing is assumed about how a use is   *)
(* rejected (no such function, constraint, static assertion).                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)

(* Matrices: <<rows, columns>>; a 1x1 matrix may stand for a scalar.            *)
Scalar(s) == s = <<1, 1>>
Conform(op, a, b) == CASE op = "*" -> a[2] = b[1]
                       [] OTHER -> a = b
Unspecified(op, a, b) == Scalar(a) \/ Scalar(b)
Matrices(e) == LET a == <<e.a[1], e.a[2]>>  b == <<e.b[1], e.b[2]>>
               IN  IF Conform(e.op, a, b) THEN e.ok
                   ELSE IF Unspecified(e.op, a, b) THEN TRUE ELSE ~e.ok

(* Estimators: 2 states, m measurements, u controls.                            *)
Shape(arg, m, u) == CASE arg \in {"A", "Q", "P"} -> <<2, 2>>
                      [] arg = "B" -> <<2, u>>
                      [] arg = "H" -> <<m, 2>>
                      [] arg = "R" -> <<m, m>>
                      [] arg = "x" -> <<2, 1>>
                      [] arg = "u" -> <<u, 1>>
                      [] arg = "z" -> <<m, 1>>
Model(e) == e.ok = (Shape(e.arg, e.m, e.u) = <<e.shape[1], e.shape[2]>>)

(* Fixed point: a format is <<bits, integral, fractional>>.                     *)
Formats(e) == e.ok = (e.f = e.g)

(* Constants can be observed, and only objects that are not constant modified.  *)
Constants(e) == e.ok = (e.kind = "observe" \/ ~e.const)

(* Sections a cascade of a capacity can be constructed from.                    *)
Capacity(e) == e.ok = (e.n <= e.cap)

(* Fields of a register of some bits.                                           *)
Field(e) == e.ok = (0 <= e.lo /\ e.lo <= e.hi /\ e.hi < e.bits)

(* Accesses that the policy of a field offers.                                  *)
Policies == {"r", "w", "rw", "rc_w1", "rc_w0", "rc_r", "rs", "rt_w"}
CanRead(p)  == p # "w"
CanWrite(p) == p \in {"w", "rw"}                         \* a value, at once
BitsOnly(p) == p \in {"rc_w0", "rc_w1", "rc_r", "rs", "rt_w"}
Offered(p) == (IF CanRead(p) THEN {"read"} ELSE {})
        \cup (IF CanWrite(p) THEN {"write", "write_lazy", "set", "clear"} ELSE {})
        \cup (IF p = "rw" THEN {"toggle"} ELSE {})
        \cup (IF p = "rs" THEN {"set"} ELSE {})
        \cup (IF p \in {"rc_w0", "rc_w1"} THEN {"clear"} ELSE {})
        \cup (IF p = "rt_w" THEN {"trigger"} ELSE {})
ASSUME \A p \in Policies : Offered(p) # {} /\ (p # "rw" => Cardinality(Offered(p)) <= 4)
\* operations on one bit of a wider field, and reading several bits of a policy for
\* single bits, are not prescribed
Access(e) == IF e.width # "bit" /\ (e.op \in {"set", "clear", "toggle", "trigger"} \/ (e.op = "read" /\ BitsOnly(e.policy)))
             THEN TRUE ELSE e.ok = (e.op \in Offered(e.policy))
\* the predicates on policies
Predicate(e) == LET p == e.policy
                IN  e.value = CASE e.name = "can_read"  -> CanRead(p)
                                [] e.name = "can_write" -> p \in {"w", "rw", "rc_w0", "rc_w1", "rs"}
                                [] e.name = "can_only_set_or_clear" -> p \in {"rc_w0", "rc_w1", "rs"}
                                [] e.name = "is_for_bits_only" -> BitsOnly(p)
                                [] e.name = "is_clear" -> p \in {"rc_w0", "rc_w1"}

(* Deferred writes that are joined go to one register of one width and policy.  *)
Join(e) == e.ok = (\A i \in 1..Len(e.parts) : e.parts[i] = e.parts[1])

(* Named registers that only can be read, and flags that only can be cleared.   *)
Named(e) == e.ok = (e.op = "read" \/ (e.kind = "flag" /\ e.op = "clear"))

(* A setting is accepted by the interface it belongs to, and by no other.       *)
Setting(e) == e.ok = (e.setter = e.owner)

Judge(e) == CASE e.ev = "matrix" -> Matrices(e)
              [] e.ev = "model" -> Model(e)
              [] e.ev = "formats" -> Formats(e)
              [] e.ev = "constant" -> Constants(e)
              [] e.ev = "capacity" -> Capacity(e)
              [] e.ev = "field" -> Field(e)
              [] e.ev = "access" -> Access(e)
              [] e.ev = "predicate" -> Predicate(e)
              [] e.ev = "join" -> Join(e)
              [] e.ev = "named" -> Named(e)
              [] e.ev = "setting" -> Setting(e)
              [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN  d - 1 = Len(Trace) \/ (PrintT(<<"REJECT", d, Trace[d]>>) /\ FALSE)
=============================================================================
