------------------------------ MODULE FilesMC ------------------------------
(* Every operation in every small state of the files, emitted as tests of the implementation; the design
   properties of the file operations on all histories. *)
EXTENDS Files, Json, IOUtils
P == JsonDeserialize(IOEnv.PARAMS)
VARIABLES files, n
Xs == 0..(P.xs - 1)
Contents == {None, Junk(""), Junk("{}"), Junk("[1")} \cup {Doc(f, x) : f \in Formats, x \in Xs} \cup {Cut(f, 0) : f \in Formats}
Targets == Plain \cup {"dir", "nodir", "full"}
Sources == Plain \cup {"dir", "nodir"}
Names == {"@a", "@b", "@full", "@dir", "@nodir"}
Lines == {<<"-f", i, "-o", o>> : i \in Names \ {"@full"}, o \in Names} \cup
         {<<"--output", o, "--file", i>> : i \in {"@a", "@b"}, o \in {"@a", "@b"}} \cup
         {<<"-o", "@b", "--file", "@a">>, <<"-f", "@a", "-f", "@c", "-o", "@b">>, <<"x", "-f", "@a", "y", "--output", "@b", "z">>,
          <<"-f", "@a">>, <<"-o", "@b">>, <<>>, <<"-h">>, <<"-f", "@a", "-o", "@b", "--help">>, <<"-f", "@a", "-o">>,
          <<"-f", "", "--file", "@a", "-o", "@b">>, <<"-o", "", "-f", "@a">>, <<"-f", "-o", "@b">>}
Ops == {[k |-> "save", f |-> f, x |-> x, p |-> p] : f \in Formats, x \in Xs, p \in Targets} \cup
       {[k |-> "load", f |-> f, p |-> p] : f \in Formats, p \in Sources} \cup
       {[k |-> "run", exe |-> "decoder", args |-> a] : a \in Lines}
Start == [p \in Plain |-> None]
Spread == {[Start EXCEPT !["a"] = x, !["b"] = y] : x \in Contents, y \in {None, Doc("hjif", 0), Doc("mihs", P.xs - 1)}}
Init2 == files \in Spread /\ n = 0
Next == \E o \in Ops :
          /\ (n = 0 => PrintT("TR" \o ToJson([pre |-> files, o |-> o])))
          /\ \E ret \in Rets(files, o) : files' = After2(files, o, ret)
          /\ n' = n + 1
Spec == Init2 /\ [][Next]_<<files, n>>
Bounded == n <= P.depth
\* an operation that reports failure, a load or a line that fails, changes nothing; one that saves touches its target only
Honest == \A o \in Ops : \A ret \in Rets(files, o) :
  (o.k = "save" /\ ret = 0) \/ (o.k = "run" /\ ret # 0) \/ o.k = "load" => After2(files, o, ret) = files
OneTarget == \A o \in Ops : \A ret \in Rets(files, o) : Cardinality({p \in Plain : After2(files, o, ret)[p] # files[p]}) <= 1
\* what was saved loads
Loads == \A f \in Formats, x \in Xs, p \in Plain : LoadRet(SaveTo(files, f, x, p), f, p) = {1}
\* what the decoder wrote loads as the readable format
Readable == \A a \in Lines : (Decodes(files, a) /\ Rets(files, [k |-> "run", args |-> a]) = {0} /\ ~Help(a)) =>
  LET out == PathOf(Option(a, "-o", "--output")) IN
  LoadRet(After2(files, [k |-> "run", args |-> a], 0), "hjif", out) = {1}
=============================================================================
