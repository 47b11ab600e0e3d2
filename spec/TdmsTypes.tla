------------------------------ MODULE TdmsTypes ------------------------------
(***************************************************************************)
(* The TDMS type table: code, width and byte-swap unit of every type, the  *)
(* types a channel may be read as, and the byte image of a token.          *)
(***************************************************************************)
EXTENDS Integers, Sequences

(* name |-> code, width in bytes, swap unit (bytes reversed together) *)
Ty(c, w, u) == [code |-> c, size |-> w, unit |-> u]
TypeTable ==
  [ Void |-> Ty(0,0,1),   I8  |-> Ty(1,1,1),  I16 |-> Ty(2,2,2),  I32 |-> Ty(3,4,4),
    I64  |-> Ty(4,8,8),   U8  |-> Ty(5,1,1),  U16 |-> Ty(6,2,2),  U32 |-> Ty(7,4,4),
    U64  |-> Ty(8,8,8),   F32 |-> Ty(9,4,4),  F64 |-> Ty(10,8,8), Ext |-> Ty(11,10,10),
    F64U |-> Ty(26,8,8),  ExtU |-> Ty(27,10,10), F32U |-> Ty(25,4,4),
    Bool |-> Ty(33,1,1),  Time |-> Ty(68,16,16), Fixed |-> Ty(79,8,8),
    Str  |-> Ty(32,0,1),
    C64  |-> Ty(524300,8,4), C128 |-> Ty(1048589,16,8) ]
TypeNames == DOMAIN TypeTable
SizeOf(t) == TypeTable[t].size

(* the type under which a stored property type is reported *)
Reported(t) == CASE t = "F32U" -> "F32" [] t = "F64U" -> "F64" [] t = "ExtU" -> "Ext" [] OTHER -> t

(* sample types that can be written, and read into *)
WriteTypes == {"I8","I16","I32","I64","U8","U16","U32","U64","F32","F64","Bool","Ext","Time","C64","C128"}
(* stored types that can hold samples of known width and be read *)
DataTypes == WriteTypes \cup {"F32U","F64U","ExtU"}

(* stored types acceptable for a requested type *)
Compatible(req) ==
  CASE req = "F32"  -> {"F32","F32U"}
    [] req = "F64"  -> {"F64","F64U"}
    [] req = "Ext"  -> {"Ext","ExtU"}
    [] req = "Bool" -> {"Bool","U8"}
    [] OTHER -> {req}

(* number of distinct values of a type that a token can select (0: all tokens) *)
Modulus(t) == CASE t = "Bool" -> 2
                [] SizeOf(t) = 1 -> 256
                [] SizeOf(t) = 2 -> 65536
                [] OTHER -> 0

(* Token -> bytes, little endian *)
TokByte(k, j) == CASE j = 0 -> k % 256
                   [] j = 1 -> (k \div 256) % 256
                   [] j = 2 -> (k \div 65536) % 256
                   [] j = 3 -> (k \div 16777216) % 256
Pat(i) == (37 * (i - 1)) % 256
(* Some tokens of the wider types stand for the values that arithmetic or     *)
(* formatting would not preserve: zeros, ones, negative zero, a signalling    *)
(* NaN, the least number, infinity, a NaN with a payload                      *)
Special == 2130706432
Specials == 7
SpecialLE(t, j) ==
  LET u == TypeTable[t].unit
  IN  [i \in 1..SizeOf(t) |->
        LET q == ((i - 1) % u) + 1
        IN  CASE j = 0 -> 0
              [] j = 1 -> 255
              [] j = 2 -> IF q = u THEN 128 ELSE 0
              [] j = 3 -> IF q = u THEN 127 ELSE IF q = u - 1 THEN (IF u = 4 THEN 160 ELSE 244) ELSE 0
              [] j = 4 -> IF q = 1 THEN 1 ELSE 0
              [] j = 5 -> IF q = u THEN 127 ELSE IF q = u - 1 THEN (IF u = 4 THEN 128 ELSE 240) ELSE 0
              [] j = 6 -> IF q = u THEN 255 ELSE IF q = u - 1 THEN 248 ELSE IF q = 1 THEN 1 ELSE 0]
TokBytesLE(t, k) ==
  IF t = "Bool" THEN <<k % 2>>
  ELSE IF SizeOf(t) >= 8 /\ k >= Special /\ k < Special + Specials THEN SpecialLE(t, k - Special)
  ELSE [i \in 1..SizeOf(t) |-> (TokByte(k, (i - 1) % 4) + Pat(i)) % 256]

(* reverse each swap unit: little endian image <-> big endian image *)
Swap(t, b) == LET u == TypeTable[t].unit
              IN  [i \in 1..Len(b) |-> b[((i - 1) \div u) * u + u - ((i - 1) % u)]]
TokBytes(t, k, be) == IF be THEN Swap(t, TokBytesLE(t, k)) ELSE TokBytesLE(t, k)

(* bytes -> token, or Foreign (-2) when the bytes are no token image;       *)
(* Pat(i + 4) - Pat(i) = 148 modulo 256                                      *)
BytesTok(t, b, be) ==
  LET le == IF be THEN Swap(t, b) ELSE b
      w  == Len(le)
  IN  IF t = "Bool" THEN (IF le[1] \in {0,1} THEN le[1] ELSE -2)
      ELSE IF w = 1 THEN le[1]
      ELSE IF w = 2 THEN le[1] + 256 * ((le[2] + 219) % 256)
      ELSE LET d4 == (le[4] + 145) % 256
           IN  IF d4 >= 128 \/ \E i \in 5..w : le[i] # (le[i - 4] + 148) % 256
               THEN IF w >= 8 /\ \E j \in 0..(Specials - 1) : le = SpecialLE(t, j)
                    THEN Special + CHOOSE j \in 0..(Specials - 1) : le = SpecialLE(t, j)
                    ELSE -2
               ELSE le[1] + 256 * ((le[2] + 219) % 256) + 65536 * ((le[3] + 182) % 256) + 16777216 * d4

(* the token seen when a stored token is read as the requested type *)
ReadTok(req, stored, k) ==
  IF req = "Bool" /\ stored = "U8" /\ k >= 0 THEN (IF k % 256 = 0 THEN 0 ELSE 1) ELSE k
=============================================================================
