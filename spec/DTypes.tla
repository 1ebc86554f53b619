-------------------------------- MODULE DTypes --------------------------------
(* Data types by name: what a name means, and what is told about the type.
   A type is [kind: "i" integer, "f" floating point, "u" custom, "" nothing said;
   bytes of one number, signed, cx: two numbers each, dim] *)
EXTENDS Integers, Sequences, FiniteSets
None == [kind |-> "none", bytes |-> 0, signed |-> FALSE, cx |-> FALSE]
I(b, s) == [kind |-> "i", bytes |-> b, signed |-> s, cx |-> FALSE]
F(b) == [kind |-> "f", bytes |-> b, signed |-> FALSE, cx |-> FALSE]
X(t) == [t EXCEPT !.cx = TRUE]
Fixed(w) ==
    CASE w \in {"int8", "sint8"} -> I(1, TRUE) [] w = "uint8" -> I(1, FALSE)
      [] w \in {"int16", "sint16"} -> I(2, TRUE) [] w = "uint16" -> I(2, FALSE)
      [] w \in {"int32", "sint32"} -> I(4, TRUE) [] w = "uint32" -> I(4, FALSE)
      [] w \in {"int64", "sint64"} -> I(8, TRUE) [] w = "uint64" -> I(8, FALSE)
      [] w = "float32" -> F(4) [] w = "float64" -> F(8)
      [] OTHER -> None
FixedNames == {"int8", "sint8", "uint8", "int16", "sint16", "uint16", "int32", "sint32", "uint32", "int64", "sint64", "uint64", "float32", "float64"}
Meaning(w) ==
    CASE w \in FixedNames -> Fixed(w)
      [] \E x \in FixedNames : w = "complex_" \o x -> X(Fixed(CHOOSE x \in FixedNames : w = "complex_" \o x))
      [] w \in {"char", "schar", "byte", "octet", "signed char"} -> I(1, TRUE)
      [] w \in {"uchar", "unsigned char"} -> I(1, FALSE)
      [] w \in {"short", "sshort"} -> I(2, TRUE)
      [] w \in {"ushort", "unsigned short"} -> I(2, FALSE)
      [] w \in {"int", "sint"} -> I(4, TRUE)
      [] w \in {"uint", "unsigned int"} -> I(4, FALSE)
      [] w \in {"long", "slong", "long long", "slong long", "longlong", "slonglong", "llong", "sllong"} -> I(8, TRUE)
      [] w \in {"ulong", "ulong long", "ulonglong", "ullong", "unsigned long"} -> I(8, FALSE)
      [] w = "float" -> F(4) [] w = "double" -> F(8)
      [] w = "complex64" -> X(F(4)) [] w = "complex128" -> X(F(8))
      [] w = "custom" -> [kind |-> "u", bytes |-> 1, signed |-> FALSE, cx |-> FALSE]
      [] w \in {"", "unspecified"} -> [kind |-> "", bytes |-> 1, signed |-> FALSE, cx |-> FALSE]
      [] OTHER -> None

ElemSize(t) == IF t.cx THEN 2 * t.bytes ELSE t.bytes
Bits(b) == CASE b = 1 -> "8" [] b = 2 -> "16" [] b = 4 -> "32" [] OTHER -> "64"
NameOf(t) == (IF t.cx THEN "complex_" ELSE "") \o
             CASE t.kind = "i" -> (IF t.signed THEN "int" ELSE "uint") \o Bits(t.bytes)
               [] t.kind = "f" -> "float" \o Bits(t.bytes)
               [] t.kind = "u" -> "custom" [] OTHER -> "unspecified"
===============================================================================
