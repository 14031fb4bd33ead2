------------------------------- MODULE Files -------------------------------
(* Saving, loading and converting files: what a path holds, what each operation does to it and what it reports.
   A path holds nothing, a document (format f, experience x), a cut document or other bytes. *)
EXTENDS Hap
Plain == {"a", "b", "c"}
Formats == {"hjif", "hmpg", "mihs", "ohm"}
None == [t |-> "none", f |-> "", x |-> 0]
Doc(f, x) == [t |-> "doc", f |-> f, x |-> x]
Cut(f, x) == [t |-> "cut", f |-> f, x |-> x]
Junk(s) == [t |-> "junk", f |-> s, x |-> 0]
Writable(p) == p \in Plain
Held(files, p) == IF p \in Plain THEN files[p] ELSE None
\* ---- the answers of an operation: what is reported (any of a set of results) and the files afterwards
\* saving succeeds exactly if the path can be written, and then replaces what was there
SaveRet(p) == IF Writable(p) THEN 1 ELSE 0
SaveTo(files, f, x, p) == IF Writable(p) THEN [files EXCEPT ![p] = Doc(f, x)] ELSE files
\* loading: a document of the format loads; nothing, a directory, no bytes, and for the textual format anything else, does not.
\* A stream may be cut between two units; bytes of another kind may or may not mean something
LoadRet(files, f, p) ==
  LET h == Held(files, p) IN
  CASE h.t = "doc" /\ (h.f = f \/ (h.f = "conv" /\ f = "hjif")) -> {1}
    [] h.t = "none" \/ (h.t = "junk" /\ h.f = "") -> {0}
    [] h.t = "any" -> {0, 1}
    [] f = "hjif" -> {0}
    [] h.t = "cut" /\ h.f = f -> IF f = "mihs" THEN {0, 1} ELSE {0}
    [] f = "ohm" -> {0}
    [] OTHER -> {0, 1}
\* ---- command lines: the value of an option is the word after its first occurrence
HasWord(args, o) == \E i \in 1..Len(args) : args[i] = o
After(args, o) == LET i == CHOOSE i \in 1..Len(args) : args[i] = o /\ \A j \in 1..(i - 1) : args[j] # o IN IF i < Len(args) THEN args[i + 1] ELSE ""
Opt(args, o) == IF HasWord(args, o) THEN After(args, o) ELSE ""
Option(args, short, long) == IF Opt(args, short) # "" THEN Opt(args, short) ELSE Opt(args, long)
Help(args) == HasWord(args, "-h") \/ HasWord(args, "--help")
\* words that name paths
PathOf(w) == CASE w = "@a" -> "a" [] w = "@b" -> "b" [] w = "@c" -> "c" [] w = "@full" -> "full" [] OTHER -> "nowhere"
\* the decoder: help, or a stream read and written in the readable format; anything else fails and writes nothing
Decodes(files, args) == /\ ~Help(args)
                        /\ Option(args, "-f", "--file") # "" /\ Option(args, "-o", "--output") # ""
                        /\ 1 \in LoadRet(files, "mihs", PathOf(Option(args, "-f", "--file")))
DecoderRet(files, args) ==
  IF Help(args) THEN {0}
  ELSE IF ~Decodes(files, args) THEN {1}
  ELSE LET r == LoadRet(files, "mihs", PathOf(Option(args, "-f", "--file"))) IN
       IF 0 \in r THEN {0, 1} ELSE IF Writable(PathOf(Option(args, "-o", "--output"))) THEN {0} ELSE {1}
\* what the decoder writes: the experience as the stream tells it ("conv"); unknown for bytes that are no document
DecoderTo(files, args) ==
  LET src == Held(files, PathOf(Option(args, "-f", "--file")))
      out == PathOf(Option(args, "-o", "--output")) IN
  IF ~Decodes(files, args) \/ ~Writable(out) THEN files
  ELSE IF src.t = "doc" /\ src.f = "mihs" THEN [files EXCEPT ![out] = Doc("conv", src.x)]
  ELSE [files EXCEPT ![out] = [t |-> "any", f |-> "", x |-> 0]]
\* ---- one operation that reported ret
After2(files, o, ret) == CASE o.k = "save" -> SaveTo(files, o.f, o.x, o.p)
                      [] o.k = "put" -> [files EXCEPT ![o.p] = Junk(o.s)]
                      [] o.k = "cut" -> [files EXCEPT ![o.p] = Cut(files[o.p].f, files[o.p].x)]
                      [] o.k = "run" /\ ret = 0 -> DecoderTo(files, o.args)
                      [] OTHER -> files
Rets(files, o) == CASE o.k = "save" -> {SaveRet(o.p)}
                    [] o.k = "load" -> LoadRet(files, o.f, o.p)
                    [] o.k = "run" -> DecoderRet(files, o.args)
                    [] OTHER -> {-1}
=============================================================================
