------------------------------- MODULE MCDTypes -------------------------------
(* every name: the name told for a type means that type again, and no two types share one *)
EXTENDS DTypes
Words == FixedNames \cup {"complex_" \o x : x \in FixedNames} \cup {"char", "schar", "byte", "octet", "signed char", "uchar", "unsigned char", "short", "sshort", "ushort", "unsigned short", "int", "sint", "uint", "unsigned int",
          "long", "slong", "long long", "slong long", "longlong", "slonglong", "llong", "sllong", "ulong", "ulong long", "ulonglong", "ullong", "unsigned long", "float", "double", "complex64", "complex128", "custom", "", "unspecified"}
VARIABLES a, b
Init == a \in Words /\ b \in Words
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
RoundTrip == Meaning(a) # None /\ Meaning(NameOf(Meaning(a))) = Meaning(a)
Distinct == NameOf(Meaning(a)) = NameOf(Meaning(b)) <=> Meaning(a) = Meaning(b)
Sized == ElemSize(Meaning(a)) \in {1, 2, 4, 8, 16}
===============================================================================
