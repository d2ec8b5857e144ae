-------------------------------- MODULE Tree --------------------------------
(* The source tree the generator writes, and the libraries that can be built from it. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

AmChar == <<"s", "p", "d", "f", "g", "h", "i", "k", "l", "m", "n", "o", "q">>

\* the routine of the quartet (a b | c d) for derivative order der
Routine(der, a, b, c, d) ==
  (IF der = 0 THEN "ostei_" ELSE "ostei_deriv1_") \o
  AmChar[a + 1] \o "_" \o AmChar[b + 1] \o "_" \o AmChar[c + 1] \o "_" \o AmChar[d + 1]

\* every routine a library limited to angular momentum l and order der has to have
Routines(der, l) ==
  {Routine(o, a, b, c, d) : o \in 0..der, a \in 0..l, b \in 0..l, c \in 0..l, d \in 0..l}

Elems(s) == {s[i] : i \in DOMAIN s}

-----------------------------------------------------------------------------
(* One generated tree: e.l, e.d the limits asked for; e.files the generated sources;
   e.lists the file lists [d, l, names]; e.decl the prototypes found in the generated headers. *)

ListOf(e, d, l) == LET i == CHOOSE j \in DOMAIN e.lists : e.lists[j].d = d /\ e.lists[j].l = l
                   IN Elems(e.lists[i].names)

TreeOK(e) ==
  LET files == Elems(e.files)
      limits == {<<e.lists[i].d, e.lists[i].l>> : i \in DOMAIN e.lists}
  IN /\ limits = (0..e.d) \X (0..e.l)                      \* one list for every limit
     /\ Len(e.lists) = Cardinality(limits)
     /\ \A i \in DOMAIN e.lists : Elems(e.lists[i].names) \subseteq files
     /\ ListOf(e, e.d, e.l) = files                        \* nothing generated in vain
     /\ Routines(e.d, e.l) \subseteq Elems(e.decl)
     /\ Cardinality(Elems(e.decl)) = Len(e.decl)           \* each declared once

-----------------------------------------------------------------------------
(* Closure of the file lists: e.objs are the compiled sources [file, defs, refs] and e.base, per
   limit, the part of the library that is not generated. *)

DepsOK(e) ==
  \A i \in DOMAIN e.lists :
    LET d == e.lists[i].d
        l == e.lists[i].l
        names == Elems(e.lists[i].names)
        objs == {e.objs[j] : j \in {k \in DOMAIN e.objs : e.objs[k].file \in names}}
        b == e.base[CHOOSE j \in DOMAIN e.base : e.base[j].d = d /\ e.base[j].l = l]
        defs == UNION {Elems(o.defs) : o \in objs} \cup Elems(b.defs)
        RECURSIVE Sum(_)
        Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Len(x.defs) + Sum(S \ {x})
        Unresolved == (UNION {Elems(o.refs) : o \in objs} \cup Elems(b.refs)) \ defs
    IN /\ Routines(d, l) \subseteq defs                    \* a routine for every quartet
       /\ Unresolved = {} \/ ~PrintT(<<"unresolved", d, l, Unresolved>>)
       /\ Cardinality(defs) = Sum(objs) + Len(b.defs)      \* none defined twice

-----------------------------------------------------------------------------
(* Building with the limits e.der, e.am out of a tree generated for e.d, e.l *)

BuildOK(e) ==
  LET within == e.der <= e.d /\ e.am <= e.l
  IN /\ e.configured = within
     /\ within => /\ e.gotder = e.der /\ e.gotam = e.am      \* what the library says about itself
                  /\ e.built /\ e.unresolved = <<>>

(* A run of create.py: e.failed generator programs failed; e.rc its exit status *)
RunOK(e) == (e.rc = 0) = (e.failed = 0)
=============================================================================
