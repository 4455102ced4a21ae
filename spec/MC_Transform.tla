---------------------------- MODULE MC_Transform ----------------------------
(***************************************************************************)
(* A point taken through a chain of transforms step by step is where the   *)
(* product of the matrices takes it, and the matrices of the named         *)
(* transforms are those of their maps.  The state machine extends the      *)
(* chain by one step at a time, as concatenateMatrices() does.             *)
(***************************************************************************)
EXTENDS Transform, TLC

CONSTANT MaxLen
H == RDiv(1, 2)
Steps == << ScaleM(2, -1), ShearM(1, 0), ShearM(0, 2), MirrorM(TRUE, FALSE), MirrorM(FALSE, TRUE),
            TranslateM(<<1, 2>>, <<-3, 5>>), RotateM(90, TRUE), RotateM(90, FALSE), RotateM(30, TRUE),
            PerspectiveM(H, 1, 1), <<<<1, 2, 0>>, <<0, 1, 1>>, <<3, 0, 1>>>> >>
Points == << <<0, 0>>, <<1, 0>>, <<-2, 3>>, <<H, -7>> >>

VARIABLES chain,   \* the indices of the steps taken
          prod,    \* their product
          pos      \* the images of Points, step by step; <<>> if undefined
Init == chain = <<>> /\ prod = Ident /\ pos = Points
Extend(s) == /\ Len(chain) < MaxLen
             /\ chain' = Append(chain, s)
             /\ prod' = MatMul(prod, Steps[s])
             /\ pos' = [i \in DOMAIN pos |-> IF pos[i] = <<>> \/ RSign(Row(Homog(pos[i]), Steps[s])[3]) = 0 THEN <<>>
                                             ELSE Step(Steps[s], pos[i])]
Next == \E s \in DOMAIN Steps : Extend(s)

Composes == \A i \in DOMAIN Points :
    pos[i] # <<>> => PNear(Step(prod, Points[i]), pos[i], E12)
\* the order of the steps matters: reversing the chain is a different transform
RECURSIVE Rev(_)
Rev(s) == IF s = <<>> THEN <<>> ELSE Append(Rev(Tail(s)), Head(s))
Ms(c) == [i \in DOMAIN c |-> Steps[c[i]]]
Associates == chain # <<>> => \A i, j \in 1..3 : RNear(Product(Ms(chain))[i][j], prod[i][j], E12)

ASSUME OrderMatters == ~MatEq(Product(<<ScaleM(2, -1), ShearM(1, 0)>>), Product(<<ShearM(1, 0), ScaleM(2, -1)>>))
ASSUME NamedOk == \A i \in DOMAIN Points : LET p == Points[i] IN
    /\ PEq(Step(ScaleM(3, H), p), Scale(p, 3, H))
    /\ PEq(Step(ShearM(3, H), p), Shear(p, 3, H))
    /\ \A x, y \in BOOLEAN : PEq(Step(MirrorM(x, y), p), Mirror(p, x, y))
    /\ PEq(Step(TranslateM(<<4, 5>>, <<-1, 7>>), p), Translate(p, <<4, 5>>, <<-1, 7>>))
    /\ \A d \in {0, 30, 45, 90, 200, -60} : \A c \in BOOLEAN :
        /\ PEq(Step(RotateM(d, c), p), Rotate(p, d, c))
        /\ PNear(Rotate(Rotate(p, d, c), d, ~c), p, E12)
        /\ PNear(RotateAbout(<<3, 4>>, <<3, 4>>, d, c), <<3, 4>>, E12)
        \* a rotation keeps distances and orientation
        /\ RNear(Norm2(Rotate(p, d, c)), Norm2(p), E9)
        /\ RNear(Cross(p, Rotate(p, d, TRUE)), Norm2(p) \otimes SinCos(d)[1], E9)
        \* rotationAbout: to the origin, rotate, back
        /\ PNear(Walk(<<TranslateM(<<3, 4>>, <<0, 0>>), RotateM(d, c), TranslateM(<<0, 0>>, <<3, 4>>)>>, p),
                 RotateAbout(p, <<3, 4>>, d, c), E12)
    /\ Y(Rotate(<<1, 0>>, 90, TRUE)) = 1
    /\ RSign(PerspectiveW(p, H, 1, 2)) # 0 => PEq(Step(PerspectiveM(H, 1, 2), p), Perspective(p, H, 1, 2))
=============================================================================
