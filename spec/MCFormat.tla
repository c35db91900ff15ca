------------------------------ MODULE MCFormat ------------------------------
(* Every directive over small constants: sanity properties of the rendering, and the generator of the exhaustive table. *)
EXTENDS Format, TLC, Json
VARIABLE d, done
CONSTANT Big
Vals == {<<0, 0, 0, 0>>, <<0, 0, 0, 7>>, <<0, 0, 0, 255>>, <<0, 0, 1, 34464>>, <<65535, 65535, 65535, 65535>>, <<65535, 65535, 65535, 65408>>, <<32768, 0, 0, 0>>, <<4660, 22136, 39612, 57072>>}
Texts == {<<>>, <<65>>, <<97, 98, 99>>}
NumD == { [k |-> k, minus |-> m, zero |-> z, width |-> w, prec |-> -1, mod |-> md, text |-> <<>>, v |-> v] :
            k \in {"d", "i", "u", "x", "X", "o"}, m \in BOOLEAN, z \in BOOLEAN, w \in {-1, 1, 4, 9}, md \in {"", "hh", "h", "l", "ll", "z"}, v \in Vals }
TxtD == { [k |-> k, minus |-> m, zero |-> FALSE, width |-> w, prec |-> p, mod |-> "", text |-> t, v |-> <<0, 0, 0, 0>>] :
            k \in {"s", "S", "SB", "c"}, m \in BOOLEAN, w \in {-1, 1, 3, 8}, p \in {-1, 0, 1, 3}, t \in Texts }
(* combinations the property speaks of *)
Legal(x) == /\ (x.zero => x.width > 0 /\ ~x.minus /\ ~(x.k \in {"d", "i"} /\ IsNeg(Narrow(x.v, x.mod, TRUE))))  \* zero padding of negative numbers is not specified
            /\ (x.k = "o" => ~IsNeg(Narrow(x.v, x.mod, TRUE)))
            /\ (x.mod = "z" => x.k \in {"u", "x", "X"})
            /\ (x.k # "s" => x.prec = -1) /\ (x.k = "s" => x.prec <= Len(x.text))
            /\ (x.k = "c" => Len(x.text) = 1)
Init == d \in { x \in NumD \cup TxtD : Legal(x) } /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED d /\ PrintT(ToJson(d))
Spec == Init /\ [][Next]_<<d, done>>
WidthHolds == Len(Render1(d)) = (IF d.width > Len(Body(d)) THEN d.width ELSE Len(Body(d)))
BodyInside == Contains(Render1(d), Body(d))
OnlyPadding == Without(Render1(d), {32, 48}) = Without(Body(d), {32, 48})
RoundTrip == (d.k \in {"u", "x", "X"} /\ d.mod \in {"l", "ll", "z"}) => Value(Map(Body(d), HexVal), IF d.k = "u" THEN 10 ELSE 16) = d.v
=============================================================================
