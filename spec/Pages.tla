------------------------------- MODULE Pages -------------------------------
(***************************************************************************)
(* The server of the page: which request gets what.  The directory it is   *)
(* started with holds files, which come and go; five of them are the       *)
(* page's and are given out as they are when asked for, and nothing else   *)
(* is.  Requests name paths as browsers send them.                         *)
(***************************************************************************)
EXTENDS Grammar

N_index == <<105, 110, 100, 101, 120, 46, 104, 116, 109, 108>>
N_exec == <<119, 97, 115, 109, 95, 101, 120, 101, 99, 46, 106, 115>>
N_hwt == <<104, 119, 116, 46, 99, 115, 115>>
N_style == <<115, 116, 121, 108, 101, 46, 99, 115, 115>>
N_wasm == <<97, 113, 108, 112, 97, 114, 115, 101, 46, 119, 97, 115, 109>>
PageFiles == {N_index, N_exec, N_hwt, N_style, N_wasm}
ContentType(n) ==
    CASE n = N_index -> "text/html" [] n = N_exec -> "text/javascript" [] n = N_wasm -> "application/wasm" [] OTHER -> "text/css"

(* the path without what follows ?, and its escapes resolved *)
RECURSIVE Unescape(_, _)
Unescape(s, i) ==
    IF i > Len(s) \/ At(s, i) = QMARK THEN <<>>
    ELSE IF s[i] = 37 /\ IsHex(At(s, i + 1)) /\ IsHex(At(s, i + 2))
    THEN <<HexVal(s[i + 1]) * 16 + HexVal(s[i + 2])>> \o Unescape(s, i + 3)
    ELSE <<s[i]>> \o Unescape(s, i + 1)

(* its steps: "." and empty ones lead nowhere, ".." leads back, but not out *)
RECURSIVE StepsOf(_, _, _, _)
StepsOf(s, i, cur, acc) ==
    IF i > Len(s) \/ s[i] = SLASH
    THEN LET next == IF cur = <<>> \/ cur = <<DOT>> THEN acc
                     ELSE IF cur = <<DOT, DOT>> THEN (IF acc = <<>> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1))
                     ELSE Append(acc, cur)
         IN IF i > Len(s) THEN next ELSE StepsOf(s, i + 1, <<>>, next)
    ELSE StepsOf(s, i + 1, Append(cur, s[i]), acc)

(* What a path asks for: a file's name, <<>> for nothing there is.  A path that
   ends in a slash asks for a directory; all there is, is the page. *)
PageAsked(path) ==
    LET p == Unescape(path, 1)
        st == StepsOf(p, 1, <<>>, <<>>)
    IN IF st = <<>> THEN N_index
       ELSE IF Len(st) = 1 /\ st[1] \in PageFiles THEN st[1] ELSE <<>>
AsDirectory(path) ==
    LET p == Unescape(path, 1) IN At(p, Len(p)) = SLASH /\ StepsOf(p, 1, <<>>, <<>>) # <<>>

(* files: what there is, as a sequence of [name, b] without repetitions *)
Lookup(files, n) == {i \in 1..Len(files) : files[i].name = n}
FilesBut(files, n) == SelectSeq(files, LAMBDA f : f.name # n)
Stored(files, s) ==
    CASE s.op = "put" -> Append(FilesBut(files, s.name), [name |-> s.name, b |-> s.b])
      [] s.op = "del" -> FilesBut(files, s.name)
      [] OTHER -> files

(* A request: path, head (only the head of the answer is asked for), from and
   to (part asked for, from 0; -1: all of it).  The answer: st, b, len (the
   length announced), ct, alien (contents of files that are not the page's). *)
AnswerRight(files, s) ==
    LET w == PageAsked(s.path)
        at == IF w = <<>> THEN {} ELSE Lookup(files, w)
        b == files[CHOOSE i \in at : TRUE].b
        part == s.from >= 0 /\ s.to < Len(b)
    IN /\ ~s.alien
       /\ IF AsDirectory(s.path) THEN TRUE
          ELSE IF at = {} THEN (IF w = N_index THEN s.st # 200 ELSE s.st = 404)
          ELSE IF s.from >= 0 /\ ~part THEN TRUE
          ELSE /\ s.st = (IF part THEN 206 ELSE 200)
               /\ s.ct = ContentType(w)
               /\ s.b = (IF s.head THEN <<>> ELSE IF part THEN SubSeq(b, s.from + 1, s.to + 1) ELSE b)
               /\ (s.long \/ s.len = (IF part THEN s.to - s.from + 1 ELSE Len(b)))

RECURSIVE PagesFrom(_, _, _)
PagesFrom(files, ss, i) ==
    IF i > Len(ss) THEN 0
    ELSE IF ss[i].op = "get" /\ ~AnswerRight(files, ss[i]) THEN i
    ELSE PagesFrom(TLCEval(Stored(files, ss[i])), ss, i + 1)

(* e: args (how many arguments it was started with), up (it serves), port (at
   the port it should), exit, told, steps *)
PagesFlaw(e) ==
    IF e.args # 1 THEN (IF e.up \/ e.exit = 0 \/ ~e.told THEN "usage" ELSE "")
    ELSE IF ~e.up THEN "serves"
    ELSE IF ~e.port THEN "port"
    ELSE LET i == PagesFrom(<<>>, e.steps, 1) IN
         IF i = 0 THEN "" ELSE "request " \o ToString(i)
=============================================================================
