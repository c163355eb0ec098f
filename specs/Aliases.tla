------------------------------- MODULE Aliases -------------------------------
(* Which targets of command aliases are valid (C20).                        *)
EXTENDS CommandSyntax, Json, TLC

Prefixes == {"", "mdpo-", "mdpo-mdpo-", "MDPO-", "mdpo", " ", "-"}
Bases == {Drop(c, 5) : c \in DOMAIN Kinds}
         \cup {"", "foo", "Disable", "disable ", "disable-next",
               "include-code", "mdpo", "contexts", "enable-next-"}
VARIABLE target
Init == \E p \in Prefixes, b \in Bases : target = p \o b
Next == FALSE /\ UNCHANGED target
Emit == PrintT(ToJson([target |-> target, valid |-> ValidCommand(target),
                       full |-> FullName(target)]))
(* exactly the commands with and without prefix *)
Exactly == ValidCommand(target)
             = (target \in DOMAIN Kinds \cup {Drop(c, 5) : c \in DOMAIN Kinds})
=============================================================================
