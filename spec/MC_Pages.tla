------------------------------ MODULE MC_Pages ------------------------------
(***************************************************************************)
(* Files that come, change and go, and requests for them and for others.   *)
(***************************************************************************)
EXTENDS Cases

MaxSteps == Bound("STEPS", 3)

VARIABLES files, steps

Notes == X("notes.txt")
Puts == {[op |-> "put", name |-> n, b |-> b] : n \in {N_index, N_style, N_wasm}, b \in {X("one"), X("two22"), <<>>}}
        \cup {[op |-> "put", name |-> Notes, b |-> X("SECRET")]}
Dels == {[op |-> "del", name |-> n] : n \in {N_index, N_style}}
Paths == {X("/"), X("/index.html"), X("/style.css"), X("/aqlparse.wasm"), X("/hwt.css"), X("/notes.txt"), X("/a/../style.css"), X("//style.css"),
          X("/style%2Ecss"), X("/..%2f..%2fetc/passwd"), X("/style.css/"), X("/%2e%2e/secret.txt"), X("/style.css?v=2"), X("/STYLE.CSS"), X("/."),
          X("/sub/style.css"), X("/style.cs")}
Ask(p, h, f, t) == [op |-> "get", path |-> p, head |-> h, from |-> f, to |-> t]

(* the answer the rules give *)
Honestly(s) ==
    LET w == PageAsked(s.path)
        at == IF w = <<>> \/ AsDirectory(s.path) THEN {} ELSE Lookup(files, w)
        b == files[CHOOSE i \in at : TRUE].b
        part == s.from >= 0 /\ s.to < Len(b)
        got == IF part THEN SubSeq(b, s.from + 1, s.to + 1) ELSE b
        a(st, ct, x, l) == [op |-> "get", path |-> s.path, head |-> s.head, from |-> s.from, to |-> s.to,
                            st |-> st, ct |-> ct, b |-> x, len |-> l, long |-> FALSE, alien |-> FALSE]
    IN IF at = {} THEN a(404, "text/plain", <<>>, 0)
       ELSE a(IF part THEN 206 ELSE 200, ContentType(w), IF s.head THEN <<>> ELSE got, Len(got))

Init == files = <<>> /\ steps = <<>>
Next == /\ Len(steps) < MaxSteps
        /\ \/ \E s \in Puts \cup Dels : files' = Stored(files, s) /\ steps' = Append(steps, s)
           \/ \E p \in Paths, h \in BOOLEAN, r \in BOOLEAN :
                 /\ ~(h /\ r)
                 /\ (\E i \in 1..Len(steps) : steps[i].op = "put")
                 /\ steps' = Append(steps, Ask(p, h, IF r THEN 1 ELSE -1, IF r THEN 2 ELSE -1))
                 /\ UNCHANGED files
Spec == Init /\ [][Next]_<<files, steps>>

Asked == steps # <<>> /\ steps[Len(steps)].op = "get"
Event(s) ==
    LET all == [i \in 1..Len(steps) |-> IF steps[i].op = "get" THEN [op |-> "put", name |-> Notes, b |-> <<>>] ELSE steps[i]]
    IN [k |-> "pages", args |-> 1, up |-> TRUE, port |-> TRUE, exit |-> 0, told |-> TRUE, steps |-> [all EXCEPT ![Len(steps)] = s]]
Rightly ==
    Asked =>
    LET s == Honestly(steps[Len(steps)])
        w == PageAsked(s.path)
        bad(x) == PagesFlaw(Event(x)) # ""
    IN /\ PagesFlaw(Event(s)) = ""
       /\ bad([s EXCEPT !.alien = TRUE])
       /\ (s.st = (IF s.from < 0 THEN 200 ELSE 206) =>
             /\ bad([s EXCEPT !.st = 404]) /\ bad([s EXCEPT !.ct = "text/plain"]) /\ bad([s EXCEPT !.b = Append(@, 97)])
             /\ bad([s EXCEPT !.len = @ + 1]))
       /\ (s.st = 404 /\ ~AsDirectory(s.path) => bad([s EXCEPT !.st = 200]))
       (* what is given out is a file of the page, and nothing outside the directory has a name here *)
       /\ (w # <<>> => w \in PageFiles)

Cases == Asked => Emit([k |-> "pages", calls |-> steps])
=============================================================================
