------------------------------ MODULE RunJudge ------------------------------
(***************************************************************************)
(* Recorders, run loops and pictures: judges recordings against            *)
(* Recorder.tla, RunLoop.tla and Picture.tla.                              *)
(***************************************************************************)
EXTENDS Picture, FiniteSets, Judge

----------------------------------------------------------------------------
(* A recorder's calls.  r.calls[n]: [t, shown, files], where shown stands  *)
(* for what the screen shows and files[k] for what frame k - 1 shows, -1   *)
(* if a frame is missing.                                                  *)
Files(r, n) == IF n = 0 THEN <<>> ELSE r.calls[n].files
Due(r, n) == RMul(RInt(Len(Files(r, n)) + 1), r.dt)
Late(r, n) == r.calls[n].t \ominus Due(r, n - 1)     \* by how much call n comes after the next frame is due
RecClauses(r) ==
    UNION {LET old == Files(r, n - 1)  new == Files(r, n)  c == r.calls[n] IN
           Clause("a frame is written when its time has come", r.slack \preceq Late(r, n), Len(new) = Len(old) + 1)
           \cup Clause("no frame is written before its time", Late(r, n) \prec RNeg(r.slack), new = old)
           \cup Clause("at most one frame is written at a call, and numbered next", TRUE,
                       \/ new = old
                       \/ /\ Len(new) = Len(old) + 1 /\ c.others = 0
                          /\ \A k \in 1..Len(old) : new[k] = old[k])
           \cup Clause("a frame holds what the screen shows", Len(new) > Len(old), new[Len(new)] = c.shown)
           \cup Clause("recording leaves the screen alone", TRUE, c.shown = c.after)
           : n \in 1..Len(r.calls)}
    \cup Clause("the frames are those the model writes", r.beh # <<>>,
                [n \in 1..Len(r.calls) |-> Len(r.calls[n].files)] = r.beh)

----------------------------------------------------------------------------
(* A run.  r.hand: the states of stepping by hand until the time is up;    *)
(* r.steps: those the run went through, with the wall's clock when the     *)
(* step began and when the next one did (or the run ended); shown: is the  *)
(* state shown (0, 1 or more times), picture, wanted: what was shown, and  *)
(* a picture of the state by hand.                                         *)
SameState(a, b) == REq(a.t, b.t) /\ SeqEq(a.p, b.p) /\ SeqEq(a.v, b.v)
Seen(r) == r.kind \in {"screen", "recorder"}
Closed(r) == Seen(r) /\ r.close > 0 /\ r.close = Len(r.steps)
LastShown(r, n) == {m \in 1..(n - 1) : r.steps[m].shown > 0}
Gap(r, n) == LET m == CHOOSE m \in LastShown(r, n) : \A k \in LastShown(r, n) : k <= m IN
             r.steps[n].began \ominus r.steps[m].began
RunClauses(r) ==
    LET N == Len(r.steps)  ended == ~Closed(r) IN
    Clause("the run is stepping by hand", TRUE,
           /\ N <= Len(r.hand)
           /\ (ended => N = Len(r.hand))
           /\ \A n \in 1..N : SameState(r.steps[n], r.hand[n]))
    \cup Clause("it ends when the time is up", ended,
                /\ (N = 0 => r.run \preceq r.t0)
                /\ (N > 0 => r.run \preceq r.steps[N].t)
                /\ \A n \in 1..(N - 1) : r.steps[n].t \prec r.run)
    \cup Clause("it ends when the window is closed", Seen(r) /\ r.close > 0 /\ r.close <= Len(r.hand), N = r.close)
    \cup Clause("every state is recorded, once and in order", r.kind = "recorder",
                /\ \A n \in 1..N : r.steps[n].shown = IF n = N /\ Closed(r) THEN 0 ELSE 1
                /\ \A n \in 1..N : r.steps[n].shown = 1 => REq(r.steps[n].told, r.steps[n].t))
    \cup Clause("nothing is shown without a screen", ~Seen(r), \A n \in 1..N : r.steps[n].shown = 0)
    \cup Clause("the picture shows the present state", \E n \in 1..N : r.steps[n].shown > 0,
                \A n \in 1..N : r.steps[n].shown > 0 => r.steps[n].picture = r.steps[n].wanted)
    \cup Clause("what is shown is not ahead of real time", r.kind = "screen",
                \A n \in 1..N : (n = N /\ Closed(r)) \/ (r.steps[n].t \ominus r.t0) \preceq (r.steps[n].ended \oplus r.slack))
    \cup Clause("the run waits no longer than that", TRUE,
                \A n \in 1..N : LET s == r.steps[n]  done == s.began \oplus s.cost IN
                    s.ended \preceq (RMax(done, IF r.kind = "screen" THEN s.t \ominus r.t0 ELSE done) \oplus r.slack))
    \cup Clause("frames are shown at the animation rate", r.kind = "screen",
                \A n \in 1..N : IF n = N /\ Closed(r) THEN r.steps[n].shown = 0
                                ELSE /\ r.steps[n].shown <= 1
                                     /\ (LastShown(r, n) = {} => r.steps[n].shown = 1)
                                     /\ (LastShown(r, n) # {} /\ r.slack \prec RAbs(Gap(r, n) \ominus r.anim) =>
                                            (r.steps[n].shown = 1 <=> r.anim \preceq Gap(r, n))))
    \cup Clause("the time is printed if asked for", N > 0 /\ ended, r.printed = r.print)
    \cup Clause("the run is a behaviour of the model", r.beh # <<>>,
                /\ Len(r.beh) = N
                /\ \A n \in 1..N : /\ r.beh[n].shown = (r.steps[n].shown = 1)
                                   /\ REq(r.steps[n].began, RMul(r.tick, RInt(r.beh[n].began)))
                                   /\ REq(r.steps[n].ended, RMul(r.tick, RInt(r.beh[n].ended))))

----------------------------------------------------------------------------
(* A picture of a body or of a joint.  r.pixels[k]: [q, color, near], near *)
(* the colors of the pixels around it.                                     *)
At(px) == <<RInt(px.q[1]), RInt(px.q[2])>>
BodyPicture(r) ==
    LET b == OnScreen(r.body, r.scale) IN
    UNION {LET px == r.pixels[k]  q == At(px)  c == px.color IN
           Clause("the body's color is where the body is", c = "b", Allowed(b, r.th, q, c))
           \cup Clause("marks are where the body is and as it is turned", c = "m", Allowed(b, r.th, q, c))
           \cup Clause("a filled body is filled", c = "w" /\ r.th = 0, Allowed(b, r.th, q, c))
           \cup Clause("no other color is used", TRUE, c \in {"b", "m", "w"})
           \cup Clause("the outline is drawn", Outlined(b, q) /\ px.inner,
                       "b" \in {px.near[i] : i \in 1..Len(px.near)})
           \cup Clause("the mark is drawn", Marked(b, r.th, q) /\ px.inner, "m" \in {px.near[i] : i \in 1..Len(px.near)})
           : k \in 1..Len(r.pixels)}
JointPicture(r) ==
    UNION {LET px == r.pixels[k]  d == JointDist(r.joint, r.scale, At(px)) IN
           Clause("a joint is shown where it is", px.color = "j", d \preceq RInt(IF r.joint.kind = "fixed" THEN 4 ELSE 9))
           \cup Clause("the sign of a joint is drawn", d \preceq R1 /\ px.inner, "j" \in {px.near[i] : i \in 1..Len(px.near)})
           : k \in 1..Len(r.pixels)}

Verdict(r) ==
    CASE r.k = "rec" -> RecClauses(r)
      [] r.k = "run" -> RunClauses(r)
      [] r.k = "body" -> BodyPicture(r)
      [] r.k = "joint" -> JointPicture(r)
      [] OTHER -> {}
Init == JudgeInit
Next == JudgeNext(Verdict)
=============================================================================
