---------------------------- MODULE MapFindOps ----------------------------
(* what mapFind answers: a total function of (content, key, default)          *)
EXTENDS Integers
Has(f, k) == k \in DOMAIN f
Find(f, k, d) == IF Has(f, k) THEN f[k] ELSE d
Opt(f, k) == IF Has(f, k) THEN <<1, f[k]>> ELSE <<0, -1>>
=============================================================================
