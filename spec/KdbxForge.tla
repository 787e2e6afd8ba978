------------------------------ MODULE KdbxForge -----------------------------
(***************************************************************************)
(* Malformed input.  A file is built in layers, each inside the next:      *)
(*                                                                         *)
(*   version 4   xml < payload (inner header, xml) < packed (compression)  *)
(*               < padded < cipher < blocks (HMAC) < file                  *)
(*   version 3   xml < packed < hashed (start bytes, hashed blocks)        *)
(*               < padded < cipher < file                                  *)
(*   both        dict (parameters) < header < signed (hash, HMAC) < file   *)
(*                                                                         *)
(* A forgery changes one or several layers; everything outside a changed   *)
(* layer is made after the change, so its hashes, HMACs and encryption are *)
(* right and a reader gets as far as the changed layer.  ForgeTerm marks   *)
(* the layers of a file; Changes(at) are the changes at a place of a layer.*)
(*                                                                         *)
(* In a document the changes are those of its tree: an element dropped,    *)
(* repeated, emptied, renamed, wrapped, moved, or with other text or       *)
(* attributes.                                                             *)
(*                                                                         *)
(* Whatever the input is, reading it must end with a result or an error    *)
(* (Outcome) and within the memory of MemOpen, MemUnlock and MemXml.       *)
(***************************************************************************)
EXTENDS KdbxFormat

TLayer(name, t) == <<"layer", name, t>>

LayersOf(v) == IF v = 4 THEN {"xml", "payload", "packed", "padded", "cipher", "blocks", "dict", "header", "signed", "file"}
               ELSE {"xml", "packed", "hashed", "padded", "cipher", "header", "file"}

FField(A, f) ==
    IF f.id = 11 THEN TLet("vd", TLayer("dict", VDictTerm(A)), TCat(<<TU8(11), TLen32(TRef("vd")), TRef("vd")>>))
    ELSE FieldTerm(A, f)
FHeader(A) ==
    TLayer("header", TCat(<<THex(Magic), TU16(A.minor), TU16(A.v)>>
                          \o [i \in 1..Len(A.fields) |-> FField(A, A.fields[i])]))

FEnc(D, plain) ==
    LET cipher == FieldData(D.fields, 2)
        iv == FieldData(D.fields, 7)
        key == TSha256(TCat(<<Seed(D), TRef("m")>>))
    IN  TLayer("cipher",
          IF cipher = CipherAes THEN TCbc("aes256", key, THex(iv), TLayer("padded", TPad(plain)))
          ELSE IF cipher = CipherTwofish THEN TCbc("twofish", key, THex(iv), TLayer("padded", TPad(plain)))
          ELSE TChaCha(key, THex(iv), TLayer("padded", plain)))
FPack(D, t) == TLayer("packed", PackTerm(D, t))

\* D gives the keys, A (the same, or one with other fields) the header and inner header that are written
ForgeTerm(D, A, xml) ==
    TLet("h", FHeader(A),
    TLet("m", MasterTerm(KdfView(D), D.cr),
      IF D.v = 4
      THEN TLet("k", TSha512(TCat(<<Seed(D), TRef("m"), THex("01")>>)),
             TLayer("file",
               TCat(<<TRef("h"),
                      TLayer("signed", TCat(<<TSha256(TRef("h")), THmac(BlockKey(THex("ffffffffffffffff")), TRef("h"))>>)),
                      TLayer("blocks",
                        TChunks(FEnc(D, FPack(D, TLayer("payload", TCat(<<InnerTerm(A), TLayer("xml", xml)>>)))),
                                D.sizes, Block4, Block4))>>)))
      ELSE TLayer("file",
             TCat(<<TRef("h"),
                    FEnc(D, TLayer("hashed",
                              TCat(<<THex(FieldData(D.fields, 9)),
                                     TChunks(FPack(D, TLayer("payload", TLayer("xml", xml))), D.sizes, Block3, End3)>>)))>>))))

\* changes at offset `at` of a layer (numbers are little-endian everywhere)
Numbers == {"ffffffff", "ffffff7f", "00000010", "00000000", "01000000", "ffffffffffffffff", "0000000000000080"}
Changes(at) ==
    {[t |-> "flip", at |-> at, bit |-> b] : b \in {0, 5, 7}}
    \union {[t |-> "set", at |-> at, hex |-> h] : h \in {"00", "ff", "20", "ffff"} \union Numbers}
    \union {[t |-> "insert", at |-> at, hex |-> h] : h \in {"00", "ff", "0000000000", "05ffffffff", "3c"}}
    \union {[t |-> "delete", at |-> at, n |-> n] : n \in {1, 2, 4, 5, 16}}
    \union {[t |-> "copy", at |-> at, n |-> n, to |-> at] : n \in {1, 5, 36}}
    \union {[t |-> "trunc", at |-> at]}
\* changes near the end
EndChanges(at) ==
    {[t |-> "set", at |-> at, end |-> TRUE, hex |-> h] : h \in {"00", "01", "0f", "10", "11", "ff"}}
    \union {[t |-> "trunc", at |-> at, end |-> TRUE]}
    \union {[t |-> "insert", at |-> at, end |-> TRUE, hex |-> h] : h \in {"00", "ff"}}
\* other data altogether
Replacements ==
    {[t |-> "all", hex |-> h, n |-> n] : h \in {"00", "ff", "0d0a", "3c", "02ffffffff", "1f8b08"}, n \in {0, 1, 3, 16, 36, 400}}
    \union {[t |-> "append", hex |-> h, n |-> n] : h \in {"00", "ff", "5a"}, n \in {1, 4, 15, 16, 17, 36, 5000}}

---------------------------------------------------------------------------
(* Documents *)
RECURSIVE NodePaths(_)
NodePaths(node) ==
    IF node.t # "el" THEN {<<>>}
    ELSE {<<>>} \union UNION {{<<i>> \o p : p \in NodePaths(node.c[i])} : i \in 1..Len(node.c)}

RECURSIVE NodeAt(_, _)
NodeAt(node, p) == IF p = <<>> THEN node ELSE NodeAt(node.c[p[1]], Tail(p))
RECURSIVE PutAt(_, _, _)
\* the node at p becomes a sequence of nodes (p is not the root)
PutAt(node, p, new) ==
    IF Len(p) = 1 THEN [node EXCEPT !.c = SubSeq(@, 1, p[1] - 1) \o new \o SubSeq(@, p[1] + 1, Len(@))]
    ELSE [node EXCEPT !.c[p[1]] = PutAt(@, Tail(p), new)]

KnownNames == {"KeePassFile", "Meta", "Root", "Group", "Entry", "String", "Key", "Value", "Times", "UUID", "Name", "History",
               "CustomData", "Item", "MemoryProtection", "ExpiryTime", "Expires", "UsageCount", "DatabaseName", "ProtectTitle"}
BadTexts == {"x", "x20", "x2d31", "x3939393939393939393939393939393939393939", "x41", "x41413d3d", "x414141414141413d",
             "x41414141414141414141413d", "x2f2f2f2f2f2f2f2f2f2f383d", "x2f2f2f2f2f2f2f2f2f2f733d", "x4141414141414141414941414141", "x4e614e",
             "x2b3236323134342d30312d30315430303a30303a30305a", "x2d393939392d30312d30315430303a30303a30305a",
             "x303030302d30302d30305430303a30303a30305a", "xc3a9c3a9", "x2121212121", "x74727565"}
Attrs == {<< <<"Protected", "x54727565">> >>, << <<"Protected", "x74727565">> >>, << <<"Protected", "x">> >>,
          << <<"Protected", "x46616c7365">> >>, << <<"Protected", "x54727565">>, <<"Protected", "x54727565">> >>}
Mutations ==
    {<<"drop">>, <<"dup">>, <<"empty">>, <<"wrap">>, <<"last">>, <<"stray">>}
    \union {<<"rename", n>> : n \in KnownNames}
    \union {<<"inside", n>> : n \in KnownNames}
    \union {<<"text", t>> : t \in BadTexts}
    \union {<<"attr", a>> : a \in Attrs}
Mutate(doc, p, m) ==
    LET node == NodeAt(doc, p)
        tag == m[1]
    IN  IF tag = "drop" THEN PutAt(doc, p, <<>>)
        ELSE IF tag = "dup" THEN PutAt(doc, p, <<node, node>>)
        ELSE IF tag = "stray" THEN PutAt(doc, p, <<Text("x7878"), node, Text("x7979")>>)
        ELSE IF tag = "last"        \* moved to the end of the document
        THEN [PutAt(doc, p, <<>>) EXCEPT !.c = @ \o <<node>>]
        ELSE IF node.t # "el" THEN doc
        ELSE IF tag = "empty" THEN PutAt(doc, p, <<[node EXCEPT !.c = <<>>, !.short = TRUE]>>)
        ELSE IF tag = "wrap" THEN PutAt(doc, p, <<El(node.n, <<node>>)>>)
        ELSE IF tag = "rename" THEN PutAt(doc, p, <<[node EXCEPT !.n = m[2]]>>)
        ELSE IF tag = "inside" THEN PutAt(doc, p, <<[node EXCEPT !.c = @ \o <<El(m[2], <<>>)>>]>>)
        ELSE IF tag = "text" THEN PutAt(doc, p, <<[node EXCEPT !.c = <<Text(m[2])>>]>>)
        ELSE PutAt(doc, p, <<[node EXCEPT !.a = m[2]]>>)

---------------------------------------------------------------------------
(* Requirements on a run; sizes and memory in KiB *)
Outcome == {"ok", "err"}
\* what a reader may keep: some buffers, and what it has read in some other form
Buffers == 8192
MemOpen(size) == Buffers + 32 * size
MemXml(size) == Buffers + 256 * size
MemUnlock(size, plain, kdf) == Buffers + 32 * size + kdf + 256 * plain
Costly == 65536
=============================================================================
