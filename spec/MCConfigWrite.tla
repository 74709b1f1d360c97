--------------------------- MODULE MCConfigWrite ---------------------------
(* Writing entries as "key = value" lines, with comments in between, and     *)
(* reading them back gives the same entries: all small blocks.               *)
EXTENDS ConfigFile
CONSTANTS Keys_, Values_, Descrs
VARIABLE cfg
Init == cfg = <<>>
Next == \E k \in Keys_ \ DOMAIN cfg, v \in Values_, d \in Descrs : cfg' = (k :> <<v, d>>) @@ cfg
Spec == Init /\ [][Next]_cfg
RECURSIVE Out(_)
Out(K) == IF K = {} THEN <<>>
          ELSE LET k == CHOOSE x \in K : TRUE
               IN (IF cfg[k][2] = "" THEN <<>> ELSE <<"", "# " \o cfg[k][2]>>)
                  \o <<k \o " = " \o Trim(cfg[k][1]), "# defined - f:1">> \o Out(K \ {k})
RoundTrip == LET s == [FInit EXCEPT !.files = "@/f" :> Out(DOMAIN cfg)]
                 x == Read(s, "@/f", <<>>)
             IN x.out = {"ok"} /\ KV(x.cfg) = {<<k, Trim(cfg[k][1])>> : k \in DOMAIN cfg}
============================================================================
