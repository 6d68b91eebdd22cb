------------------------------ MODULE Exclusive ------------------------------
(***************************************************************************)
(* Settings that exclude each other: a user gives any of them, in any      *)
(* order, with values that mean something, nothing, or the opposite, and   *)
(* with or without neutral company.                                        *)
(***************************************************************************)
EXTENDS Samples, Json
CONSTANTS Tier, Groups
VARIABLES group, entries
vars == <<group, entries>>
T == Tier = "thorough"
K(k, s) == Key(k, Txt(s))
X == <<Key("x-a", Nil)>>
GroupNames == {"Service", "Build", "CredentialSpec", "Config", "Secret", "Network", "Volume", "Healthcheck", "MountVolume", "MountBind", "MountTmpfs"}
Pool(g) ==
    CASE g = "Service" ->
            <<<<K("network_mode", "host"), K("network_mode", "service:web"), Key("network_mode", Nil), K("network_mode", "other"), K("network_mode", "none"), K("network_mode", "")>>,
              <<Key("networks", Lst(<<Txt("a")>>)), Key("networks", Lst(<<>>)), Key("networks", Dict(<<Key("a", Nil)>>)), Key("networks", Dict(<<>>)), Key("networks", Nil)>>,
              <<K("hostname", "h")>>, <<Key("attach", Bool(FALSE))>>, X, <<Key("bogus", Nil)>>>>
      [] g = "Build" ->
            <<<<K("dockerfile", "D"), Key("dockerfile", Nil), K("dockerfile", "")>>,
              <<K("dockerfile_inline", "FROM a\n"), Key("dockerfile_inline", Nil), K("dockerfile_inline", "")>>,
              <<K("context", "."), Key("context", Nil)>>, <<K("target", "t")>>, X, <<Key("bogus", Nil)>>>>
      [] g = "CredentialSpec" ->
            <<<<K("config", "c"), K("config", ""), Key("config", Nil)>>, <<K("file", "f"), K("file", ""), Key("file", Nil)>>,
              <<K("registry", "r"), K("registry", ""), Key("registry", Nil)>>,
              X, <<Key("bogus", Nil)>>>>
      [] g = "Config" ->
            <<<<K("file", "f"), K("file", ""), Key("file", Nil)>>, <<K("environment", "E"), K("environment", ""), Key("environment", Nil)>>,
              <<K("content", "c"), K("content", ""), Key("content", Nil)>>,
              <<Key("external", Bool(TRUE)), Key("external", Bool(FALSE)), Key("external", Nil)>>, <<K("name", "n"), K("name", ""), Key("name", Nil)>>,
              <<Key("labels", Lst(<<Txt("l")>>)), Key("labels", Lst(<<>>))>>, X>>
      [] g = "Secret" ->
            <<<<K("file", "f"), K("file", ""), Key("file", Nil)>>, <<K("environment", "E"), K("environment", ""), Key("environment", Nil)>>,
              <<K("driver", "d"), K("driver", ""), Key("driver", Nil)>>,
              <<Key("external", Bool(TRUE)), Key("external", Bool(FALSE)), K("external", "true")>>, <<K("name", "n"), K("name", ""), Key("name", Nil)>>,
              <<Key("driver_opts", Dict(<<Key("o", Num("1"))>>))>>, X, <<K("content", "c")>>>>
      [] g = "Network" ->
            <<<<Key("external", Bool(TRUE)), Key("external", Bool(FALSE)), Key("external", Nil)>>, <<K("name", "n"), K("name", ""), Key("name", Nil)>>,
              <<K("driver", "none"), K("driver", ""), Key("driver", Nil)>>, <<Key("internal", Bool(TRUE)), Key("internal", Bool(FALSE))>>,
              <<Key("labels", Lst(<<>>))>>, <<Key("ipam", Dict(<<>>))>>, X>>
      [] g = "Volume" ->
            <<<<Key("external", Bool(TRUE)), Key("external", Bool(FALSE)), K("external", "false")>>, <<K("name", "n"), Key("name", Nil), Key("name", Num("5"))>>,
              <<K("driver", "none"), K("driver", ""), Key("driver", Nil)>>, <<Key("labels", Lst(<<>>)), Key("labels", Lst(<<Txt("l")>>))>>,
              <<Key("driver_opts", Dict(<<>>))>>, X, <<Key("bogus", Nil)>>>>
      [] g = "Healthcheck" ->
            <<<<Key("test", TestNone), Key("test", Lst(Texts(<<"CMD", "a">>))), K("test", "NONE"), Key("test", Lst(Texts(<<"NONE", "a">>))), K("test", "")>>,
              <<Key("disable", Bool(TRUE)), Key("disable", Bool(FALSE)), K("disable", "true")>>,
              <<K("interval", "1s"), Key("interval", Num("0"))>>, <<Key("retries", Num("1")), Key("retries", Num("0"))>>, <<K("timeout", "2s")>>,
              <<K("start_period", "2s")>>, <<K("start_interval", "2s")>>, X, <<Key("bogus", Nil)>>>>
      [] g \in {"MountVolume", "MountBind", "MountTmpfs"} ->
            <<<<Key("type", Txt(MountTypeOf(g)[1]))>>, <<K("target", "/t")>>, <<K("source", "src"), K("source", "./src"), K("source", "/src")>>,
              <<Key("volume", Dict(<<>>)), Key("volume", Nil)>>, <<Key("bind", Dict(<<>>)), Key("bind", Nil)>>, <<Key("tmpfs", Dict(<<>>)), Key("tmpfs", Nil)>>, X>>
\* How many settings together.
Most(g) == CASE g \in {"Service", "Build"} -> IF T THEN 6 ELSE 4
             [] g = "CredentialSpec" -> 5
             [] g = "Healthcheck" -> IF T THEN 5 ELSE 3
             [] g \in {"MountVolume", "MountBind", "MountTmpfs"} -> IF T THEN 6 ELSE 4
             [] OTHER -> IF T THEN 5 ELSE 4
Given == {entries[i].k : i \in 1..Len(entries)}
Init == group \in Groups /\ entries = <<>>
Next ==
    /\ Len(entries) < Most(group) /\ UNCHANGED group
    /\ \E i \in 1..Len(Pool(group)) :
        /\ Pool(group)[i][1].k \notin Given
        /\ \E j \in 1..Len(Pool(group)[i]) : entries' = Append(entries, Pool(group)[i][j])
Doc == Placed(group, Dict(entries))
Out == Canon(Document, Doc)

\* What is accepted holds one alternative only, whatever the order.
Set(k) == \E i \in 1..Len(entries) : entries[i].k = k /\ entries[i].t # "z"
Both(a, b) == Set(a) /\ Set(b)
On(k) == \E i \in 1..Len(entries) : entries[i].k = k /\ IsTrue(entries[i])
External == On("external")
None1(ks) == \A k \in ks : ~Set(k)
NeverBoth(out) ==
    IsSome(out) =>
    CASE group = "Service" -> ~Both("network_mode", "networks")
      [] group = "Build" -> ~Both("dockerfile", "dockerfile_inline")
      [] group = "CredentialSpec" -> ~Both("config", "file") /\ ~Both("file", "registry") /\ ~Both("config", "registry") /\ ~None1({"config", "file", "registry"})
      [] group = "Config" -> /\ ~Both("file", "environment") /\ ~Both("file", "content") /\ ~Both("content", "environment")
                             /\ External = None1({"file", "environment", "content"}) /\ (External => Given \subseteq {"external", "name"})
      [] group = "Secret" -> ~Both("file", "environment") /\ External = None1({"file", "environment"}) /\ (External => Given \subseteq {"external", "name"})
      [] group \in {"Network", "Volume"} -> External => Given \subseteq {"external", "name"}
      [] group = "Healthcheck" -> On("disable") => Given = {"disable"}
      [] OTHER -> TRUE
Emit == LET c == Out
        IN /\ NeverBoth(c)
           /\ IsSome(Canon(Document, Reversed(Doc))) = IsSome(c)
           /\ PrintT("CASE " \o ToJson([op |-> "doc.write", in |-> Doc, out |-> IF IsSome(c) THEN [ok |-> TRUE, tree |-> c[1]] ELSE [ok |-> FALSE]]))
=============================================================================
