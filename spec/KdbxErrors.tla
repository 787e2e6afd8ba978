----------------------------- MODULE KdbxErrors -----------------------------
(***************************************************************************)
(* Which error tells what went wrong.                                      *)
(*                                                                         *)
(* A fault is [f |-> what is wrong, x |-> which one].  A fault of a file is *)
(* found during a span of its reading:                                     *)
(*                                                                         *)
(*   1 magic number  2 file type  3 version  4 header  5 the rest is there *)
(*   6 keys are made  7 keys are right  8 content                          *)
(*                                                                         *)
(* Reading stops at the fault it finds first, and says which that was, so  *)
(* a fault is not reported when another one has to be found before it.     *)
(* The reports of a fault are <<call, kind, which one>>.                   *)
(* The order in which faults of a save are found is up to the library.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Parts == <<"magic", "type", "version", "header", "hash", "hmac", "data">>
PartStep(p) == CASE p = "magic" -> 1 [] p = "type" -> 2 [] p = "version" -> 3 [] p \in {"header", "hash"} -> 4 [] OTHER -> 5

Span(v, a) ==
    CASE a.f = "magic" -> <<1, 1>>
      [] a.f = "type" -> <<2, 2>>
      [] a.f = "version" -> <<3, 3>>
      \* the reading can run ahead of what is looked at
      [] a.f = "fail" -> <<1, PartStep(a.at)>>
      [] a.f = "cut" /\ a.at # "data" -> <<1, PartStep(a.at)>>
      \* what version 3 tells about the content in the header can be looked at with either
      [] a.f \in {"missing", "size"} /\ v = 3 /\ a.x \in {"8", "9", "10"} -> <<4, 8>>
      [] a.f \in {"missing", "size", "dict", "param", "sum"} -> <<4, 4>>
      [] a.f \in {"kdf", "kdf param"} -> <<6, 6>>
      [] a.f \in {"credentials", "hmac"} -> <<7, 7>>
      [] a.f \in {"cipher", "iv", "compression"} -> <<6, 8>>
      [] a.f = "stream" /\ v = 3 -> <<6, 8>>
      [] OTHER -> <<8, 8>>

\* settings nothing can be read with: there is no error of their own for all of them, but they are not
\* a matter of credentials, of key derivation, of the inner stream or of the XML
Unreadable == {<<"unlock", k, "">> : k \in {"decrypt", "unread", "header", "other"}}
\* damage is met where the content is decrypted or, if it is near the start, where the inner header is read
Damage(v) == {<<"unlock", "decrypt", "">>} \union (IF v = 4 THEN {<<"unlock", "unread", "">>} ELSE {})

Reports(v, a) ==
    CASE a.f = "magic" -> {<<"open", "not keepass", "">>}
      [] a.f = "type" -> {<<"open", "not kdbx", "">>}
      [] a.f = "version" -> {<<"open", "version", a.x>>}
      [] a.f = "cut" /\ a.at = "data" -> Damage(v)
      [] a.f = "cut" -> {<<"open", "io", "UnexpectedEof">>}
      [] a.f = "fail" -> {<<"open", "io", a.x>>}
      [] a.f = "missing" /\ v = 3 /\ a.x \in {"8", "9", "10"} -> {<<"open", "missing", a.x>>, <<"unlock", "missing", a.x>>}
      [] a.f = "missing" /\ a.x \in {"5", "6"} -> {<<"open", "missing", a.x>>, <<"open", "missing", "11">>}
      [] a.f = "missing" -> {<<"open", "missing", a.x>>}
      [] a.f = "size" /\ v = 3 /\ a.x = "10" -> {<<"open", "malformed", "10">>, <<"unlock", "malformed", "10">>}
      [] a.f = "size" -> {<<"open", "malformed", a.x>>}
      [] a.f = "dict" -> {<<"open", "malformed", "11">>}
      [] a.f = "param" /\ a.x = "$UUID" -> {<<"open", "malformed", "11">>, <<"open", "param", "$UUID">>}
      [] a.f = "param" -> {<<"open", "param", a.x>>}
      [] a.f = "sum" -> {<<"open", "checksum", "">>}
      [] a.f = "kdf" -> {<<"unlock", "keygen", "unsupported">>}
      [] a.f = "kdf param" -> {<<"unlock", "keygen", "unsupported">>, <<"unlock", "keygen", "failed">>}
      [] a.f = "credentials" -> {<<"unlock", IF v = 3 THEN "start bytes" ELSE "hmac", "">>}
      [] a.f = "hmac" -> {<<"unlock", "hmac", "">>}
      [] a.f \in {"cipher", "iv", "compression"} -> Unreadable
      [] a.f \in {"block", "packed"} -> Damage(v)
      [] a.f = "inner missing" -> {<<"unlock", "missing inner", a.x>>}
      [] a.f = "stream" -> {<<"unlock", "inner stream", "">>}
      [] a.f = "xml" -> {<<"unlock", "xml", a.x>>}
      \* saving
      [] a.f = "no key" -> {<<"save", "missing keys", "">>}
      [] a.f = "sink" -> {<<"save", "io", a.x>>}
      [] a.f = "text" -> {<<"save", "xml", "">>}
      [] a.f = "save stream" -> {<<"save", "inner stream", "">>}
      [] a.f \in {"save cipher", "save iv", "save compression"} -> {<<"save", k, "">> : k \in {"other", "settings"}}
      [] a.f = "key kdf" -> {<<"key", "keygen", "unsupported">>}
      [] a.f = "key kdf param" -> {<<"key", "keygen", "unsupported">>, <<"key", "keygen", "failed">>}
      \* opening by name
      [] a.f = "absent" -> {<<"open", "io", "NotFound">>}

Saving == {"no key", "sink", "text", "save stream", "save cipher", "save iv", "save compression", "key kdf", "key kdf param", "absent"}
SpanOf(v, a) == IF a.f \in Saving THEN (IF a.f \in {"key kdf", "key kdf param"} THEN <<1, 1>> ELSE <<2, 2>>) ELSE Span(v, a)

\* faults that can be found without finding another one before
First(v, fs) == {a \in fs : \A b \in fs : SpanOf(v, b)[2] >= SpanOf(v, a)[1]}
Allowed(v, fs) == IF fs = {} THEN {<<"none", "ok", "">>} ELSE UNION {Reports(v, a) : a \in First(v, fs)}
=============================================================================
