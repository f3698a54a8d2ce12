------------------------------- MODULE Digest -------------------------------
(* Digest authentication: nonces issued by the process and credentials offered for them.
   Credentials are symbolic: for each ingredient of the digest it is known what the header
   says (f) and what the peer computed the response over (g).  Hash functions are free:
   two responses are equal only if everything that goes into them is equal. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VT == 32000                                 \* lifetime of a nonce, ms
Algs == {"none", "MD5", "MD5-sess", "SHA-256", "SHA-256-sess", "SHA-512-256", "SHA-512-256-sess"}
Sess == {"MD5-sess", "SHA-256-sess", "SHA-512-256-sess"}
Kind(a) == IF a = "none" THEN "MD5" ELSE a          \* algorithm absent means MD5
Qops == {"none", "auth", "auth-int"}
\* iss: id -> [t, algs (kinds)]
Init0 == [iss |-> <<>>, t |-> 0]
Issue(s, id, algs, t) == [s EXCEPT !.iss = (id :> [t |-> t, algs |-> {Kind(a) : a \in algs}]) @@ @]
\* may the nonce (issued as id, then altered as tam says) be accepted for these algorithms?
Genuine(s, id, tam) == id \in DOMAIN s.iss /\ tam = "no"
Good(s, id, tam, algs, t) ==
  /\ Genuine(s, id, tam)
  /\ t >= s.iss[id].t /\ t - s.iss[id].t <= VT
  /\ \A a \in algs : Kind(a) \in s.iss[id].algs
\* does the response follow from the password and the header, method and body at hand?
\* c.f: header fields (or "" when missing), c.g: what the peer used, c.here: method, body and password known to the verifier
Need == {"user", "realm", "nonce", "uri", "resp"}
Complete(c) == /\ c.parses /\ \A x \in Need : c.f[x] # "" /\ c.f.alg \in Algs /\ (c.f.alg \in Sess => c.f.cnonce # "")
Counted(f) == f.qop # "none" /\ f.nc # "" /\ f.cnonce # ""
Over(f, m, b, p) ==        \* what a response is computed over
  [alg |-> Kind(f.alg), user |-> f.user, realm |-> f.realm, pw |-> p,
   sess |-> IF f.alg \in Sess THEN <<f.nonce, f.cnonce>> ELSE <<>>,
   meth |-> m, uri |-> f.uri, body |-> IF f.qop = "auth-int" THEN <<b>> ELSE <<>>,
   nonce |-> f.nonce, cnt |-> IF Counted(f) THEN <<f.nc, f.cnonce, f.qop>> ELSE <<>>]
Answers(c) == /\ c.rtam = "no"
              /\ Over(c.f, c.meth, c.body, c.pw) = Over(c.g, c.g.meth, c.g.body, c.g.pw)
Accept(s, c, t) ==
  /\ Complete(c) /\ c.f.qop \in Qops
  /\ Good(s, c.id, c.tam, {c.f.alg}, t)
  /\ Answers(c)
\* client side: can a challenge be answered, and with which quality of protection?
Usable(qops) == SelectSeq(qops, LAMBDA q : q \in {"auth", "auth-int"})
Support(alg, qops) ==
  IF Len(qops) > 0 THEN (IF Usable(qops) = <<>> THEN [ok |-> FALSE, qop |-> "none"] ELSE [ok |-> alg \in Algs, qop |-> Head(Usable(qops))])
  ELSE [ok |-> alg \in {"none", "MD5"}, qop |-> "none"]         \* the newer algorithms need qop
=============================================================================
