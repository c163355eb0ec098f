-------------------------------- MODULE Paths --------------------------------
(* Which files are processed given what to ignore (C23).  A path is a       *)
(* sequence of names; the tree is processed one file after another.         *)
EXTENDS Naturals, Sequences, FiniteSets, Str, Json, TLC, Randomization

CONSTANTS Trees, Ignores   \* how many of each, at random

Dirs == <<<<>>, <<"a">>, <<"a", "b">>, <<"b">>, <<"b", "a">>, <<"x.md">>>>
Names == <<"a", "x.md", "y.md", "z", "B.md", "x[1].md", "x1.md", "Z*">>

(* how the paths are given: from the working directory, from ./ or from a   *)
(* directory above                                                          *)
Prefixes == {<<>>, <<".">>, <<"b", "..">>}
Path(d, n) == Join(Append(d, n), "/")
AllPaths == {<<Dirs[i], Names[j]>> : i \in DOMAIN Dirs, j \in DOMAIN Names}
(* files which can exist together: no file is also a directory *)
IsDir(d, n) == \E i \in DOMAIN Dirs :
                 LET p == Append(d, n) IN
                 Len(Dirs[i]) >= Len(p) /\ SubSeq(Dirs[i], 1, Len(p)) = p
Files == {f \in AllPaths : ~IsDir(f[1], f[2])}

(* what can be written to ignore files *)
Entries == {Path(f[1], f[2]) : f \in Files}
           \cup {Join(d, "/") : d \in {Dirs[i] : i \in 2..Len(Dirs)}}
           \cup {Names[j] : j \in DOMAIN Names}
           \cup {"x", "md", ".md", "X.md", "a/", "./x.md", "./a", ".", "..", "b/..", "b/x",
                 "*", "*.md", "x?1?.md", "c"}

VARIABLES files, pre, ign, left, kept
vars == <<files, pre, ign, left, kept>>

Last(d) == IF d = <<>> THEN "" ELSE d[Len(d)]
Ignored(f, I) ==
  \/ Path(f[1], f[2]) \in I                    \* its path
  \/ f[2] \in I                                \* its name
  \/ f[1] # <<>> /\ Last(f[1]) \in I           \* the name of its directory
  \/ f[1] # <<>> /\ Join(f[1], "/") \in I      \* the path of its directory

Init ==
  /\ pre \in Prefixes
  /\ files \in {{<<pre \o f[1], f[2]>> : f \in s} :
                 s \in RandomSetOfSubsets(Trees, 7, Files)}
  /\ \/ \E e \in Entries : ign = {e}
     \/ ign \in {{}} \cup RandomSetOfSubsets(Ignores, 3, Entries)
  /\ left = files /\ kept = {}

Next == /\ left # {}
        /\ LET f == CHOOSE g \in left : TRUE IN
             /\ left' = left \ {f}
             /\ kept' = IF Ignored(f, ign) THEN kept ELSE kept \cup {f}
        /\ UNCHANGED <<files, pre, ign>>

P(S) == {Path(f[1], f[2]) : f \in S}
Emit == left = {} => PrintT(ToJson([files |-> P(files), ign |-> ign,
                                    pre |-> IF pre = <<>> THEN "" ELSE Join(pre, "/") \o "/",
                                    kept |-> P(kept)]))
(* ignoring does not depend on the other files or on the order, and ignoring*)
(* more never processes more                                                *)
Pointwise == left = {} => kept = {f \in files : ~Ignored(f, ign)}
Monotone == left = {} => \A e \in ign : kept \subseteq
                           {f \in files : ~Ignored(f, ign \ {e})}
=============================================================================
