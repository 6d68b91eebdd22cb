------------------------------ MODULE MountTable ------------------------------
(* Every combination of the settings of a long volume. *)
EXTENDS Volumes, Json
CONSTANTS Tier
VARIABLES case
T == Tier = "thorough"
Opt(S) == {None} \cup {Some(x) : x \in S}
VolumeSources == Opt({"data", "a.b_c-0"})
PathSources == {Some(p) : p \in {"/src", "./src", "..", "/a:b"} \cup IF T THEN {".", "../x y", "/", "./x:y"} ELSE {}}
Targets == {"/t", "/t:u"} \cup IF T THEN {"/", "/t/", "/t//u"} ELSE {}
VolumeOpts == {[NoOptions EXCEPT !.nocopy = n, !.subpath = s, !.ext = x] :
                  n \in BOOLEAN, s \in Opt({"sub"}), x \in Opt({"x-o"})}
Propagations == {"private", "shared", "slave", "unbindable", "rprivate", "rshared", "rslave", "runbindable"}
BindOpts == {[NoOptions EXCEPT !.propagation = p, !.create = c, !.selinux = s, !.ext = x] :
                p \in Opt(IF T THEN Propagations ELSE {"rprivate", "slave"}), c \in BOOLEAN, s \in Opt({"z", "Z"}), x \in Opt({"x-o"})}
TmpfsOpts == {[NoOptions EXCEPT !.size = s, !.mode = m, !.ext = x] :
                 s \in Opt({"0b", "10mb"}), m \in Opt({"0", "493"}), x \in Opt({"x-o"})}
Mounts ==
    LET of(type, sources, opts) ==
            {Mount(type, s, t, r, c, x, o) : s \in sources, t \in Targets, r \in BOOLEAN, c \in Opt({"cached"}),
                                             x \in Opt({"x-m"}), o \in Opt(opts)}
    IN UNION {of("volume", VolumeSources, VolumeOpts), of("bind", PathSources, BindOpts), of("tmpfs", {None}, TmpfsOpts),
              of("npipe", PathSources, {}), of("cluster", {Some("c"), Some("a:b")}, {})}
Init == case \in Mounts
Next == FALSE /\ UNCHANGED case
\* A mount made short means the same mount, and its text denotes it.
ShortenedExpands ==
    Shortenable(case) =>
        LET s == Shorten(case)
            p == ParseShortVolume(Chars(ShowShortVolume(s)))
        IN /\ IsSome(p) /\ p[1] = s
           /\ Lengthen(p[1]) = SpelledOut(case)
Emit == PrintT("CASE " \o ToJson([op |-> "volume.shorten", in |-> case, out |-> EvalVolumeShorten(case)]))
=============================================================================
