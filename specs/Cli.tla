-------------------------------- MODULE Cli --------------------------------
(* The entry points of the converters: the command line (tools/pdfconvert.py) *)
(* and convert_file.  What a request asks for - the format, where it goes,    *)
(* which pages - and when it is refused.                                      *)
(*                                                                            *)
(* A request is a record of options, "", <<>> or 0 where not given:           *)
(*   api (convert_file, otherwise the command line), t type, o output ("-"    *)
(*   for standard output, or the extension of a name), p page numbers         *)
(*   (1-based), m page limit, w password, files: how many input files         *)
(* (others - debug messages, caching, codec - change nothing here).           *)
(* A document: n pages, lock: "" or "user" (needs a password) or "print"      *)
(* (extraction is not allowed).                                               *)
EXTENDS Integers, Sequences, FiniteSets
Types == {"text", "html", "xml", "json", "yaml"}
ApiTypes == Types \union {"yml"}
NoName == {"", "-"}
\* formats implied by the name of the output
ByName(e) == CASE e \in {".htm", ".html"} -> "html" [] e = ".xml" -> "xml" [] e = ".json" -> "json" [] e \in {".yaml", ".yml"} -> "yaml" [] OTHER -> "text"
Asked(a) == IF a.t # "" THEN a.t ELSE IF a.api THEN "html" ELSE IF a.o \in NoName THEN "text" ELSE ByName(a.o)
Type(a) == IF Asked(a) = "yml" THEN "yaml" ELSE Asked(a)
\* the library takes only names that end like the type
Mismatch(a) == a.api /\ a.o # "" /\ a.o # "." \o Asked(a)
\* on the command line, an explicit type that the name contradicts is not judged
Unclear(a) == ~a.api /\ a.t # "" /\ a.o \notin NoName /\ ByName(a.o) \notin {"text", a.t}
Where(a) == IF a.o # "" /\ a.o # "-" THEN "file" ELSE IF a.api THEN "beside" ELSE "stdout"
Wanted(a, k) == IF a.p = <<>> THEN TRUE ELSE \E i \in 1..Len(a.p) : a.p[i] = k

(* pages are delivered one after the other, the limit is on their number in   *)
(* the document                                                               *)
VARIABLES req, doc, at, out, end
vars == <<req, doc, at, out, end>>
Opened == IF req.files # 1 THEN "files"
  ELSE IF Asked(req) \notin (IF req.api THEN ApiTypes ELSE Types) THEN "type"
  ELSE IF Mismatch(req) THEN "name"
  ELSE IF doc.lock = "user" /\ req.w # "right" THEN "password" ELSE IF doc.lock = "print" THEN "extraction" ELSE ""
Begin(r, d) == req = r /\ doc = d /\ at = 1 /\ out = <<>> /\ end = ""
Refuse == end = "" /\ at = 1 /\ Opened # "" /\ end' = Opened /\ UNCHANGED <<req, doc, at, out>>
Running == end = "" /\ Opened = "" /\ at <= doc.n
Skip == Running /\ ~Wanted(req, at) /\ at' = at + 1 /\ UNCHANGED <<req, doc, out, end>>
Deliver == Running /\ Wanted(req, at) /\ out' = Append(out, at)
             /\ (IF req.m > 0 /\ req.m <= at THEN end' = "done" /\ at' = at ELSE end' = "" /\ at' = at + 1) /\ UNCHANGED <<req, doc>>
Finish == end = "" /\ Opened = "" /\ at > doc.n /\ end' = (IF out = <<>> THEN "empty" ELSE "done") /\ UNCHANGED <<req, doc, at, out>>
Work == Refuse \/ Skip \/ Deliver \/ Finish
Ended == end # ""
\* what must be seen: whether it succeeds, where the output is, its format and the pages in it;
\* refused requests of a kind nobody can fulfil leave no output at all
Result == IF end = "done" THEN [ok |-> TRUE, where |-> Where(req), type |-> Type(req), pages |-> out]
          ELSE [ok |-> FALSE, where |-> "", type |-> "", pages |-> <<>>]
Untouched == end \in {"files", "type", "name"}
\* design checks
Sound == /\ \A i \in 1..Len(out) : Wanted(req, out[i]) /\ out[i] <= doc.n /\ (i > 1 => out[i - 1] < out[i])
         /\ (end = "done" => out # <<>>)
         /\ (req.m > 0 => \A i \in 1..(Len(out) - 1) : out[i] < req.m)
         /\ (end = "done" /\ req.m = 0 => \A k \in 1..doc.n : Wanted(req, k) => \E i \in 1..Len(out) : out[i] = k)
Ends == <>Ended
=============================================================================
