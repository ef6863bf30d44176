--------------------------- MODULE ForeignWriter ---------------------------
(***************************************************************************)
(* Every way of writing a well-formed Fleece document, not only the way    *)
(* this library's encoder writes it.                                       *)
(*                                                                         *)
(* A writer appends values to the data d in any order: scalars in any of   *)
(* their encodings, references to references, and collections, narrow or   *)
(* wide, whose slots hold small values or references to anything already   *)
(* written.  At any point it can make something it wrote the root.         *)
(*                                                                         *)
(* Checked exhaustively (ForeignSmall.cfg), this shows that the format     *)
(* definition in FleeceFormat is complete and sound for this writer: every *)
(* document it can write is WellFormed and means (Tree) what was written.  *)
(* Simulated (ForeignSim.cfg), it generates documents for the real reader. *)
(***************************************************************************)
EXTENDS FleeceFormat, Json

CONSTANTS Atoms,     \* scalars which can be written: a set of <<bytes, tree>>
          Tiny,      \* those which can be put directly in slots (up to 4 bytes)
          SK,        \* the shared keys
          Goals,     \* how many values a document can have
          Sizes,     \* how many elements or entries a collection can have
          Pads,      \* the possible padding bytes
          Emit      \* print the documents

VARIABLES d,      \* the data written
          items,  \* values written: [off, tree, coll]
          goal,   \* values to be written
          b,      \* the collection being put together: <<>> or <<[dict, wide, long, size, slots, trees, last]>>
          done

vars == <<d, items, goal, b, done>>

(***************************************************************************)
(* Encodings                                                               *)
(***************************************************************************)
Short(n) == LET m == IF n < 0 THEN n + 4096 ELSE n IN <<m \div 256, m % 256>>
IntE(unsigned, bytes) ==
  <<<<16 + 8 * unsigned + Len(bytes) - 1>> \o bytes,
    IF unsigned = 1 THEN FromUnsignedLE(bytes) ELSE FromSignedLE(bytes)>>
FloatE(bytes) == <<<<32, 0>> \o bytes, AsSgl(FromF32(bytes))>>
Double32E(bytes) == <<<<36, 0>> \o bytes, FromF32(bytes)>>
\* decoded as a double, which a 64-bit value is in any case
Double64E(bytes) == <<<<44, 0>> \o bytes, FromF64(bytes)>>
DoubleE(bytes) == <<<<40, 0>> \o bytes, FromF64(bytes)>>
ShortE(n) == <<Short(n), FromSmall(n)>>
StrE(s) == <<<<64 + Len(s)>> \o s, <<"str", s>>>>
DataE(s) == <<<<80 + Len(s)>> \o s, <<"data", s>>>>
\* with an explicit length, in as many bytes as there are in v
StrLongE(v, s) == <<<<79>> \o v \o s, <<"str", s>>>>
DataLongE(v, s) == <<<<95>> \o v \o s, <<"data", s>>>>

Specials == { <<<<48, 0>>, <<"null">>>>, <<<<60, 0>>, <<"undef">>>>,
              <<<<52, 0>>, <<"bool", FALSE>>>>, <<<<56, 0>>, <<"bool", TRUE>>>> }

\* an inline empty collection
EmptyColls == { <<<<96, 0>>, <<"arr", <<>>>>>>, <<<<112, 0>>, <<"dict", <<>>>>>>,
                <<<<104, 0>>, <<"arr", <<>>>>>>, <<<<120, 0>>, <<"dict", <<>>>>>> }

Fill(n, x) == [i \in 1..n |-> x]

BigAtoms ==
  Specials
  \cup {ShortE(n) : n \in {-2048, -2047, -256, -1, 0, 1, 255, 2047}}
  \cup {IntE(0, <<x>>) : x \in {0, 1, 127, 128, 255}}
  \cup {IntE(1, <<x>>) : x \in {0, 127, 128, 255}}
  \cup {IntE(u, <<0, x>>) : u \in {0, 1}, x \in {0, 127, 128, 255}}
  \cup {IntE(u, Append(Fill(n, 255), x)) : u \in {0, 1}, n \in {2, 3, 4, 5, 6, 7}, x \in {0, 127, 128, 255}}
  \cup {IntE(u, Append(Fill(n, 0), x)) : u \in {0, 1}, n \in {2, 5, 7}, x \in {0, 1, 128}}
  \cup {IntE(0, <<1, 2, 3, 4, 5, 6, 7, 8>>), IntE(1, <<1, 2, 3, 4, 5, 6, 7, 200>>), IntE(0, <<57, 48, 0, 0>>)}
  \cup {FloatE(f) : f \in {<<0, 0, 128, 63>>, <<0, 0, 0, 128>>, <<0, 0, 128, 127>>, <<1, 0, 0, 0>>,
                           <<219, 15, 73, 192>>, <<0, 0, 192, 127>>}}
  \cup {Double32E(f) : f \in {<<0, 0, 128, 63>>, <<0, 0, 0, 128>>, <<0, 0, 128, 255>>, <<205, 204, 204, 61>>}}
  \cup {DoubleE(f) : f \in {<<0, 0, 0, 0, 0, 0, 240, 63>>, <<24, 45, 68, 84, 251, 33, 9, 192>>,
                            <<0, 0, 0, 0, 0, 0, 248, 127>>, <<255, 255, 255, 255, 255, 255, 239, 127>>,
                            <<1, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 128>>}}
  \cup {Double64E(f) : f \in {<<0, 0, 0, 0, 0, 0, 240, 63>>, <<24, 45, 68, 84, 251, 33, 9, 192>>, <<0, 0, 128, 63, 0, 0, 128, 63>>}}
  \cup {StrE(s) : s \in {<<>>, <<97>>, <<98, 99>>, <<195, 169>>, <<97, 98, 99, 100, 101>>, Fill(14, 120), <<97, 0, 98>>}}
  \cup {StrLongE(<<Len(s)>>, s) : s \in {<<>>, <<97>>, <<98, 99, 100>>, Fill(15, 121), Fill(127, 122)}}
  \cup {StrLongE(<<128 + 1, 0>>, <<97>>), StrLongE(<<128 + 3, 128, 0>>, <<102, 111, 111>>),
        StrLongE(<<128, 1>>, Fill(128, 119)), StrLongE(<<128 + 72, 2>>, Fill(328, 118))}
  \cup {DataE(s) : s \in {<<>>, <<0>>, <<255, 254>>, Fill(14, 7)}}
  \cup {DataLongE(<<Len(s)>>, s) : s \in {<<>>, <<0>>, Fill(16, 200)}}
  \cup {DataLongE(<<128 + 2, 128, 128, 0>>, <<1, 2>>)}

BigTiny == {e \in BigAtoms : Len(e[1]) <= 4} \cup EmptyColls
\* documents of a single small value
InlineRoots == {e \in Tiny : Len(e[1]) = 2}

SmallAtoms == {<<<<48, 0>>, <<"null">>>>, ShortE(-1), IntE(1, <<200>>), StrE(<<98, 99>>), StrLongE(<<1>>, <<97>>)}
SmallTiny == {ShortE(7), StrE(<<97>>), StrE(<<>>), <<<<96, 0>>, <<"arr", <<>>>>>>, IntE(0, <<0, 128>>)}
SmallSK == <<<<107>>>>
BigSK == <<<<97, 98>>, <<107, 101, 121>>, <<98>>, <<122, 122, 122>>>>
NoPrint == FALSE
DoPrint == TRUE
ZeroPad == {0}
TwoPads == {0, 255}

(***************************************************************************)
(* Writing                                                                 *)
(***************************************************************************)
Padded(bytes, pad) == IF Len(bytes) % 2 = 0 THEN bytes ELSE Append(bytes, pad)

NarrowPtr(from, to) == LET o == (from - to) \div 2 IN <<128 + o \div 256, o % 256>>
WidePtr(from, to) == LET o == (from - to) \div 2 IN <<128, o \div 65536, (o \div 256) % 256, o % 256>>

Init == d = <<>> /\ items = <<>> /\ b = <<>> /\ done = FALSE /\ goal \in Goals

Item(bytes, tree) == [off |-> Len(d), tree |-> tree, coll |-> FALSE]

WriteScalar ==
  /\ b = <<>> /\ Len(items) < goal
  /\ \E e \in Atoms : \E pad \in (IF Len(e[1]) % 2 = 1 THEN Pads ELSE {0}) :
       /\ d' = d \o Padded(e[1], pad)
       /\ items' = Append(items, Item(e[1], e[2]))
  /\ UNCHANGED <<b, done, goal>>

\* A reference which other references can lead to: always 4 bytes.
WriteRef ==
  /\ b = <<>> /\ Len(items) < goal
  /\ \E i \in DOMAIN items :
       /\ d' = d \o WidePtr(Len(d), items[i].off)
       /\ items' = Append(items, [off |-> Len(d), tree |-> items[i].tree, coll |-> items[i].coll])
  /\ UNCHANGED <<b, done, goal>>

Begin ==
  /\ b = <<>> /\ Len(items) < goal
  /\ \E dict \in BOOLEAN, wide \in BOOLEAN, long \in BOOLEAN, size \in Sizes :
       b' = <<[dict |-> dict, wide |-> wide, long |-> long, size |-> size, slots |-> <<>>, trees |-> <<>>, last |-> <<>>]>>
  /\ UNCHANGED <<d, items, done, goal>>

\* A slot is <<"v", bytes>> or <<"p", item number>>; references are fixed when the collection is closed.
SlotsFor(wide) == {<<"v", e>> : e \in {x \in Tiny : Len(x[1]) <= IF wide THEN 4 ELSE 2}}
                  \cup {<<"p", i>> : i \in DOMAIN items}
SlotTreeOf(s) == IF s[1] = "v" THEN s[2][2] ELSE items[s[2]].tree

AddElement ==
  /\ b # <<>> /\ ~b[1].dict /\ Len(b[1].slots) < b[1].size
  /\ \E s \in SlotsFor(b[1].wide) :
       b' = <<[b[1] EXCEPT !.slots = Append(@, s), !.trees = Append(@, SlotTreeOf(s))]>>
  /\ UNCHANGED <<d, items, done, goal>>

KeySlots(wide) ==
  {<<s, <<"str", SlotTreeOf(s)[2]>>, SlotTreeOf(s)[2]>> : s \in {x \in SlotsFor(wide) : SlotTreeOf(x)[1] = "str"}}
  \cup {<<<<"v", <<Short(n - 1), <<>>>>>>, <<"sk", n - 1>>, SK[n]>> : n \in DOMAIN SK}

AddEntry ==
  /\ b # <<>> /\ b[1].dict /\ Len(b[1].slots) < 2 * b[1].size
  /\ \E k \in KeySlots(b[1].wide) :
       /\ IF b[1].last = <<>> THEN TRUE ELSE KeyLess(b[1].last[1], k[2])
       \* a key must not be in the dict both shared and as a string
       /\ \A i \in DOMAIN b[1].trees : b[1].trees[i][1] # k[3]
       /\ \E s \in SlotsFor(b[1].wide) :
            b' = <<[b[1] EXCEPT !.slots = @ \o <<k[1], s>>,
                                !.trees = Append(@, <<k[3], SlotTreeOf(s)>>), !.last = <<k[2]>>]>>
  /\ UNCHANGED <<d, items, done, goal>>

End ==
  /\ b # <<>>
  \* the last few keys may be such that nothing can follow them
  /\ IF b[1].dict THEN Len(b[1].slots) > 0 \/ b[1].size = 0 ELSE Len(b[1].slots) = b[1].size
  /\ LET c == b[1]
         n == IF c.dict THEN Len(c.slots) \div 2 ELSE Len(c.slots)
         w == IF c.wide THEN 4 ELSE 2
         tag == (IF c.dict THEN 112 ELSE 96) + (IF c.wide THEN 8 ELSE 0)
         head == IF c.long THEN <<tag + 7, 255, n + 128, 0>> ELSE <<tag, n>>
         first == Len(d) + Len(head)
         Place(i) == LET p == first + (i - 1) * w
                         s == c.slots[i]
                     IN  IF s[1] = "v" THEN SubSeq(s[2][1] \o <<0, 0, 0, 0>>, 1, w)
                         ELSE IF c.wide THEN WidePtr(p, items[s[2]].off)
                         ELSE NarrowPtr(p, items[s[2]].off)
         body[i \in 0..Len(c.slots)] == IF i = 0 THEN <<>> ELSE body[i - 1] \o Place(i)
     IN  /\ d' = d \o head \o body[Len(c.slots)]
         /\ items' = Append(items, [off |-> Len(d), coll |-> TRUE,
                                    tree |-> <<IF c.dict THEN "dict" ELSE "arr", c.trees>>])
  /\ b' = <<>>
  /\ UNCHANGED <<done, goal>>

\* The root: a reference at the end, possibly to a reference.
Root(i, far) == IF far THEN d \o WidePtr(Len(d), items[i].off) \o NarrowPtr(Len(d) + 4, Len(d))
                ELSE d \o NarrowPtr(Len(d), items[i].off)
Good(doc, tree) == WellFormed(doc, SK) /\ Tree(doc, SK) = tree

Finish ==
  /\ b = <<>> /\ ~done /\ Len(items) = goal
  /\ \/ \E i \in {k \in DOMAIN items : items[k].coll \/ k = goal}, far \in BOOLEAN :
          /\ d' = Root(i, far)
          /\ Assert(Good(d', items[i].tree), <<"format definition disagrees with the writer", d', items[i].tree>>)
     \* a document which is a single small value
     \/ \E e \in InlineRoots : goal = 0 /\ d' = e[1] /\ Assert(Good(d', e[2]), <<"inline root", d'>>)
  /\ Emit => PrintT(ToJson([d |-> d', sk |-> SK]))
  /\ done' = TRUE
  /\ UNCHANGED <<items, b, goal>>

Next == ~done /\ (WriteScalar \/ WriteRef \/ Begin \/ AddElement \/ AddEntry \/ End \/ Finish)

Spec == Init /\ [][Next]_vars

=============================================================================
