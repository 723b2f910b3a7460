------------------------------- MODULE Status -------------------------------
(* Statuses (src/util/status.rs): a kind, by its number, and a message. *)
EXTENDS Integers, Sequences

\* what a status prints before its message (bytes)
Prefix == <<
    <<79, 75>>,
    <<78, 111, 116, 70, 111, 117, 110, 100, 58, 32>>,
    <<67, 111, 114, 114, 117, 112, 116, 105, 111, 110, 58, 32>>,
    <<78, 111, 116, 32, 105, 109, 112, 108, 101, 109, 101, 110, 116, 101, 100, 58, 32>>,
    <<73, 110, 118, 97, 108, 105, 100, 32, 97, 114, 103, 117, 109, 101, 110, 116, 58, 32>>,
    <<73, 79, 32, 101, 114, 114, 111, 114, 58, 32>>,
    <<119, 97, 108, 32, 98, 97, 100, 32, 114, 101, 99, 111, 114, 100>>,
    <<114, 101, 112, 101, 97, 116, 101, 100, 32, 114, 101, 99, 111, 114, 100>>>>
Colon == <<58, 32>>
\* what a kind alone prints
KindText(k) == Prefix[k + 1] \o (IF k \in {6, 7} THEN Colon ELSE <<>>)
Join(a, b) == IF b = <<>> THEN a ELSE a \o Colon \o b

Kind(mk, c) ==
    CASE mk \in {"ok", "default"} -> 0
      [] mk = "not_found" -> 1
      [] mk \in {"corruption", "corruption_string", "poison"} -> 2
      [] mk = "not_supported" -> 3
      [] mk = "invalid_argument" -> 4
      [] mk \in {"io_error", "io", "io_os", "io_kind"} -> 5   \* whatever kind of I/O error it is
      [] mk = "repeated_record" -> 7
      [] mk \in {"wrapper_str", "wrapper", "wrappers"} -> c
Message(mk, c, a, b) ==
    CASE mk \in {"ok", "default"} -> <<>>
      [] mk \in {"not_found", "corruption", "corruption_string", "not_supported", "invalid_argument", "io_error", "wrappers"} -> Join(a, b)
      [] mk = "poison" -> <<80, 111, 105, 115, 111, 110, 69, 114, 114, 111, 114>>
      [] mk \in {"io", "io_os", "io_kind", "repeated_record"} -> a
      [] mk \in {"wrapper_str", "wrapper"} -> IF c = 0 THEN <<>> ELSE a
Text(k, m) == Prefix[k + 1] \o (IF k = 0 THEN <<>> ELSE m)
\* the predicates: ok, not found, corruption, not supported, invalid argument, I/O error
Predicates(k) == [i \in 1 .. 6 |-> IF i = k + 1 THEN 1 ELSE 0]
=============================================================================
