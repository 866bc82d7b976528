------------------------------ MODULE Versions -----------------------------
(* Versions: major.minor or major.minor.patch, the patch followed by any     *)
(* text.  A missing patch stands for any patch.  Texts are code points;      *)
(* numbers have at most nine digits.                                         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt

NoPatch == -1
Ver(a, b, p, t) == [a |-> a, b |-> b, p |-> p, t |-> t]
Nothing3 == Ver(0, 0, 0, <<>>)
Nothing2 == Ver(0, 0, NoPatch, <<>>)
Digit(x) == x \in 48..57
Digits(s) == s # <<>> /\ \A i \in DOMAIN s : Digit(s[i])
Number(s) == FoldLeft(LAMBDA n, x : 10 * n + (x - 48), 0, s)
\* the places of the first two points
Points(s) == LET all == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = 46) IN SubSeq(all, 1, IF Len(all) < 2 THEN Len(all) ELSE 2)
\* how many digits a text starts with
Lead(s) == LET bad == {i \in DOMAIN s : ~Digit(s[i])} IN IF bad = {} THEN Len(s) ELSE Min(bad) - 1
Parse(s) ==
  LET pts == Points(s)
      first == IF Len(pts) = 0 THEN s ELSE SubSeq(s, 1, pts[1] - 1)
  IN CASE Len(pts) = 0 -> Nothing3
       [] Len(pts) = 1 -> LET second == SubSeq(s, pts[1] + 1, Len(s))
                          IN IF Digits(first) /\ Digits(second) THEN Ver(Number(first), Number(second), NoPatch, <<>>) ELSE Nothing2
       [] OTHER -> LET second == SubSeq(s, pts[1] + 1, pts[2] - 1)
                       third == SubSeq(s, pts[2] + 1, Len(s))
                       k == Lead(third)
                   IN IF Digits(first) /\ Digits(second)
                      THEN Ver(Number(first), Number(second), Number(SubSeq(third, 1, k)), SubSeq(third, k + 1, Len(third)))
                      ELSE Nothing3
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
Text(v) == Decimal(v.a) \o <<46>> \o Decimal(v.b) \o (IF v.p = NoPatch THEN <<>> ELSE <<46>> \o Decimal(v.p))
\* the text with what follows the patch: 1.2.3 <beta>
Report(v) == Text(v) \o (IF v.t = <<>> THEN <<>> ELSE <<32, 60>> \o v.t \o <<62>>)

SameBranch(v, w) == v.a = w.a /\ v.b = w.b
Free(v, w) == v.p = NoPatch \/ w.p = NoPatch
Later(v, w) == v.a > w.a \/ (v.a = w.a /\ v.b > w.b) \/ (SameBranch(v, w) /\ ~Free(v, w) /\ v.p > w.p)
NotEarlier(v, w) == Later(v, w) \/ (SameBranch(v, w) /\ (Free(v, w) \/ v.p = w.p))
Alike(v, w) == v = w
\* versions of the branch not later than v; the nearest is one no other is later than
Fitting(v, ws) == {i \in DOMAIN ws : SameBranch(v, ws[i]) /\ NotEarlier(v, ws[i])}
NearestOk(v, ws, k) == IF Fitting(v, ws) = {} THEN k = 0
                       ELSE k \in Fitting(v, ws) /\ \A i \in Fitting(v, ws) : ~Later(ws[i], ws[k])
=============================================================================
