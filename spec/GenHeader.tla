----------------------------- MODULE GenHeader ------------------------------
(* The family of headers for replay, without hash and what follows; and     *)
(* every way to spoil one parameter of a dictionary.                        *)
EXTENDS HeaderScen, Json, IOUtils
Tuples == UNION {{<<v, ids, k, d>> : ids \in Selections(v), k \in {0, 1}, d \in 1..Len(Dicts)} : v \in {3, 4}}
Used == {t \in Tuples : t[4] = 1 \/ 11 \in t[2]}
Fam == {HeaderHex(Mk(t[1], t[2], t[3], Dicts[t[4]])) : t \in Used}

Retype(vd, i, t) == [vd EXCEPT ![i] = <<t, @[2], @[3]>>]
Rename(vd, i, n) == [vd EXCEPT ![i] = <<@[1], n, @[3]>>]
Reval(vd, i, x) == [vd EXCEPT ![i] = <<@[1], @[2], x>>]
Spoiled(vd) ==
    UNION {  {Retype(vd, i, t) : t \in {1, 4, 5, 8, 12, 13, 24, 66, 255}}
        \union {Rename(vd, i, n) : n \in {"x", "x2455554964", "x72", "x5200", "x20", "xff", "xc3", "xeda080", "xf4908080", "xc3a9", "xe282ac", "xf09f9880", "xc0af"}}
        \union {Reval(vd, i, x) : x \in {"", "00", "01", "02", "0102", "01020304", "0102030405060708", S16, S32, "ff", "c3a9", "eda080"}}
        \union {RemoveAt(vd, i), vd \o <<vd[i]>>}
        : i \in 1..Len(vd)}
SpoiledFam == {HeaderHex(Mk(4, Base4, 0, s)) : s \in UNION {Spoiled(Dicts[d]) : d \in 1..Len(Dicts)}}

\* data of every size for every field
Sized == UNION {{[Mk(v, ids, 0, Dicts[1]) EXCEPT !.fields = [i \in 1..Len(@) |->
                     IF @[i].id = id THEN [id |-> id, data |-> SubSeq(S32 \o S32, 1, 2 * n)] ELSE @[i]]]
                 : v \in {4}, ids \in {{1, 2, 3, 4, 7, 11, 200}, {2, 3, 4, 5, 6, 7}}, n \in 0..33} : id \in {0, 1, 2, 3, 4, 5, 6, 7, 200}}
Sized3 == UNION {{[Mk(3, Base3, 0, <<>>) EXCEPT !.fields = [i \in 1..Len(@) |->
                     IF @[i].id = id THEN [id |-> id, data |-> SubSeq(S32 \o S32, 1, 2 * n)] ELSE @[i]]]
                 : n \in 0..33} : id \in {0} \union Base3}
ASSUME JsonSerialize(IOEnv.OUT, [family |-> SetToSeq(Fam), spoiled |-> SetToSeq(SpoiledFam),
                                 sized |-> SetToSeq({HeaderHex(d) : d \in Sized \union Sized3})])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
