------------------------------ MODULE Histogram ------------------------------
(***************************************************************************)
(* Histograms (src/util/histogram.rs): each is the samples added to it.    *)
(* Samples are numbers of quarters, and everything is a number of Big.tla. *)
(***************************************************************************)
EXTENDS Big, FiniteSets
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC      \* TLCEval: a value worked out once
VARIABLE hists          \* number -> samples

HInit(n) == hists = [i \in 1 .. n |-> <<>>]
HAdd(i, x) == hists' = [hists EXCEPT ![i] = Append(@, x)]
HMerge(i, j) == hists' = [hists EXCEPT ![i] = @ \o hists[j]]
HClear(i) == hists' = [hists EXCEPT ![i] = <<>>]

\* the ends of the buckets: 1 to 9, then sixteen in each power of ten; the last bucket has no end
Steps == <<10, 12, 14, 16, 18, 20, 25, 30, 35, 40, 45, 50, 60, 70, 80, 90>>
RECURSIVE Tens(_)
Tens(k) == IF k = 0 THEN 1 ELSE 10 * Tens(k - 1)
Limits == [i \in 1 .. 153 |-> IF i <= 9 THEN Big(i) ELSE BMul(Big(Steps[((i - 10) % 16) + 1]), Big(Tens((i - 10) \div 16)))]
Quarters(x) == BMul(x, <<4>>)
Ends == [i \in 1 .. 153 |-> Quarters(Limits[i])]
\* the bucket (1 to 154) of a sample: as many ends are not above it
RECURSIVE Search(_, _, _)
Search(x, lo, hi) == IF lo > hi THEN lo ELSE LET m == (lo + hi) \div 2 IN IF BLE(Ends[m], x) THEN Search(x, m + 1, hi) ELSE Search(x, lo, m - 1)
Bucket(x) == Search(x, 1, 153)
LeftEnd(b) == IF b = 1 THEN <<>> ELSE Limits[b - 1]

Least(s) == FoldLeft(LAMBDA m, x : IF BLE(x, m) THEN x ELSE m, s[1], s)
Greatest(s) == FoldLeft(LAMBDA m, x : IF BLE(x, m) THEN m ELSE x, <<>>, s)
Sum(s) == FoldLeft(BAdd, <<>>, s)
Squares(s) == FoldLeft(LAMBDA n, x : BAdd(n, BMul(x, x)), <<>>, s)

\* the median times q, in quarters: the middle of the samples, as if they lay evenly in its bucket
\* s: samples, bs: the bucket of each; a number and what it is to be divided by
Median(s, bs) ==
    LET n == Len(s)
        used == {bs[i] : i \in 1 .. n}
        upto == TLCEval([b \in used |-> Cardinality({i \in 1 .. n : bs[i] <= b})])
        b == CHOOSE x \in used : 2 * upto[x] >= n /\ \A y \in used : 2 * upto[y] >= n => x <= y
        before == Cardinality({i \in 1 .. n : bs[i] < b})
        count == upto[b] - before
        q == Big(2 * count)
        \* left + (right - left) * (n - 2 before) / (2 count)
        r == BAdd(BMul(Quarters(LeftEnd(b)), q), BMul(Quarters(BSub(Limits[b], LeftEnd(b))), Big(n - 2 * before)))
        lo == BMul(Least(s), q)
        hi == BMul(Greatest(s), q)
    IN  <<IF b = 154 THEN hi ELSE IF BLE(r, lo) THEN lo ELSE IF BLE(hi, r) THEN hi ELSE r, q, b>>

NaN == <<-1>>
Half53 == <<992, 5474, 1992, 9007>>          \* 2^53 = 9007199254740992
\* what printing histogram i shows; a unit in the last place is left to rounding
Rows(bs, n, rows) ==
    LET used == SetToSortSeq({bs[i] : i \in 1 .. n}, <)
        count(b) == Cardinality({i \in 1 .. n : bs[i] = b})
        upto(b) == Cardinality({i \in 1 .. n : bs[i] <= b})
        N == Big(n)
        Row(r, b) ==
            /\ r[1] = LeftEnd(b)
            /\ IF b <= 153 THEN r[2] = Limits[b] ELSE Len(r[2]) = 50
            /\ r[3] = Big(count(b))
            /\ Near(BMul(r[4], N), Big(100000 * count(b)), N)
            /\ Near(BMul(r[5], N), Big(100000 * upto(b)), N)
            /\ Near(BMul(r[6], Big(2 * n)), Big(40 * count(b)), N)
    IN  Len(rows) = Len(used) /\ \A k \in DOMAIN used : Row(rows[k], used[k])

Shown(i, e) ==
    LET s == hists[i]
        n == Len(s)
        N == Big(n)
        bs == TLCEval([k \in 1 .. n |-> Bucket(s[k])])
        sum == Sum(s)
        sq == Squares(s)
        med == Median(s, bs)
        \* sixteen times the variance, times n n
        var == BSub(BMul(sq, N), BMul(sum, sum))
        one == BMul(N, N)
    IN  /\ e.count = N
        /\ Rows(bs, n, e.rows)
        /\ IF n = 0 THEN e.avg = <<>> /\ e.dev = <<>> /\ e.max = <<>> /\ e.med = NaN /\ Len(e.min) = 51
           ELSE /\ e.min = BMul(Least(s), <<2500>>) /\ e.max = BMul(Greatest(s), <<2500>>)
                /\ Near(BMul(e.avg, N), BMul(sum, <<2500>>), N)
                /\ e.med # NaN /\ Near(BMul(e.med, med[2]), BMul(med[1], <<2500>>), med[2])
                /\ BLE(e.min, e.med) /\ BLE(e.med, e.max)
                \* where double precision has the variance exactly
                /\ BCmp(BMul(sq, N), Half53) < 0 =>
                    /\ e.dev # NaN
                    /\ LET d == BMul(BMul(e.dev, e.dev), one)
                           v == BMul(var, <<625>>)     \* 10000 / 16
                           tol == BMul(BAdd(BMul(e.dev, <<2>>), <<1>>), one)
                       IN  Near(d, v, tol)
HShow(i, e) == TRUE = Shown(i, e) /\ UNCHANGED hists
=============================================================================
