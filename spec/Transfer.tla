------------------------------ MODULE Transfer ------------------------------
(* Radiative transfer along one ray, followed from the observer backwards.    *)
(* The ray meets the object at a sequence of encounters.  Each emits at the   *)
(* observing frequency (channel 0) and in the spectral channels 1..Chan,      *)
(* unpolarised or as a Stokes vector, transmits a fraction of what lies       *)
(* behind (0, 1/2 or 1; a Mueller matrix when polarised) and shifts the       *)
(* frequency by a power of two.  All numbers are exact: in units of 2^-Scale. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxEnc, Chan, Emissions, Shifts, Planes
C == 0..Chan
Quant == {"Intensity", "Spectrum", "BinSpectrum", "Q", "U", "V", "Redshift", "Time"}
Stokes == {"Q", "U", "V"}
SpecQ == Stokes \union {"Spectrum", "BinSpectrum"}
\* Mueller matrices, doubled: transparent, grey, opaque, rotation of the plane, two crossed polarisers
Id4 == <<<<2,0,0,0>>, <<0,2,0,0>>, <<0,0,2,0>>, <<0,0,0,2>>>>
Mueller == [m \in {"one", "half", "zero", "rot", "polp", "polm"} |->
   CASE m = "one" -> Id4
     [] m = "half" -> <<<<1,0,0,0>>, <<0,1,0,0>>, <<0,0,1,0>>, <<0,0,0,1>>>>
     [] m = "zero" -> <<<<0,0,0,0>>, <<0,0,0,0>>, <<0,0,0,0>>, <<0,0,0,0>>>>
     [] m = "rot" -> <<<<2,0,0,0>>, <<0,0,-2,0>>, <<0,2,0,0>>, <<0,0,0,2>>>>
     [] m = "polp" -> <<<<1,1,0,0>>, <<1,1,0,0>>, <<0,0,0,0>>, <<0,0,0,0>>>>
     [] m = "polm" -> <<<<1,-1,0,0>>, <<-1,1,0,0>>, <<0,0,0,0>>, <<0,0,0,0>>>>]
Mul(A, B) == [i \in 1..4 |-> [j \in 1..4 |-> A[i][1]*B[1][j] + A[i][2]*B[2][j] + A[i][3]*B[3][j] + A[i][4]*B[4][j]]]
Apply(A, v) == [i \in 1..4 |-> A[i][1]*v[1] + A[i][2]*v[2] + A[i][3]*v[3] + A[i][4]*v[4]]
VARIABLES want, polar, noshift, enc, tau, mat, acc, red, nred
\* want: quantities requested; enc: encounters met so far, nearest first
\* tau[c]: product of the transmissions, in units of 2^-Len(enc); mat[c]: the same for matrices
\* acc[x][c]: what has been accumulated, in units of 2^-(MaxEnc + 4)
vars == <<want, polar, noshift, enc, tau, mat, acc, red, nred>>
Scale == MaxEnc + 4
G(e) == IF noshift THEN 0 ELSE e.s
Pow(b, n) == IF n = 0 THEN 1 ELSE b * (2 ^ (n - 1))
\* emission of encounter e in channel c: different in every channel and Stokes parameter
Em(e, c) == e.em + c * e.em
Sv(e, c) == <<4 * Em(e, c), e.em * (c + 2), -e.em, 2 * e.em * c>>
\* contribution of an amount x, attenuated by n encounters, shifted by power p of g
Add(x, n, p, e) == x * 2 ^ (Scale - n + p * G(e))
Opaque == /\ \A c \in C : tau[c] = 0
          /\ polar => \A c \in 1..Chan : mat[c] = Mueller["zero"]
Names == {"Intensity", "Spectrum", "BinSpectrum", "Q", "U", "V"}
Range4(x) == CASE x = "Spectrum" -> 1 [] x = "Q" -> 2 [] x = "U" -> 3 [] x = "V" -> 4 [] OTHER -> 0
Gain(x, c, e) ==
   LET n == Len(enc) IN
   CASE x = "Intensity" -> IF c = 0 THEN Add(tau[0] * Em(e, 0), n, 3, e) ELSE 0
     [] x = "BinSpectrum" -> IF c = 0 THEN 0 ELSE Add(tau[c] * Em(e, c), n, 4, e)
     [] x = "Spectrum" /\ ~polar -> IF c = 0 THEN 0 ELSE Add(tau[c] * Em(e, c), n, 3, e)
     [] OTHER -> IF c = 0 \/ ~polar THEN 0 ELSE Add(Apply(mat[c], Sv(e, c))[Range4(x)], n, 3, e)
Meet(e) == /\ enc' = Append(enc, e)
           /\ acc' = [x \in Names |-> [c \in C |-> acc[x][c] + Gain(x, c, e)]]
           /\ tau' = [c \in C |-> tau[c] * e.tr[c]]
           /\ mat' = [c \in 1..Chan |-> Mul(mat[c], Mueller[e.m[c]])]
           /\ UNCHANGED <<want, polar, noshift>>
           \* redshift and date are those of the last encounter met before the ray is stopped
           /\ red' = IF Opaque THEN red ELSE G(e)
           /\ nred' = IF Opaque THEN nred ELSE Len(enc) + 1
\* before any encounter the matrices are the identity: half of the doubled one
IdM == <<<<1,0,0,0>>, <<0,1,0,0>>, <<0,0,1,0>>, <<0,0,0,1>>>>
Start(w, p, n) == /\ want = w /\ polar = p /\ noshift = n /\ enc = <<>>
                  /\ tau = [c \in C |-> 1] /\ mat = [c \in 1..Chan |-> IdM]
                  /\ acc = [x \in Names |-> [c \in C |-> 0]] /\ red = 0 /\ nred = 0
Wants == {w \in SUBSET Quant : w # {}}
WantOk(w, p) == (w \intersect Stokes # {}) => p
Encounters == [em : Emissions, s : Shifts, tr : [C -> 0..2], m : [1..Chan -> Planes]]
Init == \E p \in BOOLEAN : \E n \in BOOLEAN : Start(Quant \ (IF p THEN {} ELSE Stokes), p, n)
Next == Len(enc) < MaxEnc /\ \E e \in Encounters : Meet(e)
\* what is behind an opaque encounter does not count
BehindOpaque == [][\A c \in C : tau[c] = 0 => (acc'["Intensity"][0] = acc["Intensity"][0] \/ c # 0) /\ acc'["BinSpectrum"][c] = acc["BinSpectrum"][c]]_vars
OpaqueStokes == [][\A c \in 1..Chan : polar /\ mat[c] = Mueller["zero"] => \A x \in Stokes \union {"Spectrum"} : acc'[x][c] = acc[x][c]]_vars
Nonneg == acc["Intensity"][0] >= 0 /\ \A c \in 1..Chan : acc["BinSpectrum"][c] >= 0
\* closed form: sum of emission, product of nearer transmissions, power of the shift
RECURSIVE Near(_, _), Sum(_, _, _)
Near(k, c) == IF k = 1 THEN 1 ELSE Near(k - 1, c) * enc[k - 1].tr[c]
Sum(k, c, p) == IF k = 0 THEN 0 ELSE Sum(k - 1, c, p) + Add(Near(k, c) * Em(enc[k], c), k - 1, p, enc[k])
ClosedForm == acc["Intensity"][0] = Sum(Len(enc), 0, 3) /\ \A c \in 1..Chan : acc["BinSpectrum"][c] = Sum(Len(enc), c, 4)
\* polarised light never exceeds its intensity
Physical == polar => \A c \in 1..Chan : acc["Spectrum"][c] >= 0
EmitEnd == Len(enc) = MaxEnc => PrintT(ToJson(enc))
EncView == enc
View == <<want, polar, noshift, enc>>
=============================================================================
