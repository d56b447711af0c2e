---------------------------- MODULE MapFieldMC ----------------------------
EXTENDS MapField
CONSTANTS Nmax, Cmax
VARIABLES k, ready
Steps(n, lo, st) == [i \in 1..n |-> lo + st * (i - 1) * (i + 1)]
Orders(a, b) == {<<a, b>>, <<b, a>>, <<a, b, "r">>, <<"r", a, b>>, <<b, "r", a>>}
Kinds == {[ax |-> ax, n |-> n, m |-> m, comps |-> c, cell |-> cell, o |-> o, p |-> p] :
            ax \in Orders("phi", "theta"), n \in 2..Nmax, m \in 2..Nmax, c \in 1..Cmax, cell \in BOOLEAN,
            o \in Orders("lon", "lat"), p \in Orders("phi", "theta")}
Fld == LET sz == [i \in 1..Len(k.ax) |-> IF k.ax[i] = "phi" THEN k.n ELSE IF k.ax[i] = "theta" THEN k.m ELSE 2]
           d == [i \in 1..Len(sz) |-> IF k.cell THEN sz[i] - 1 ELSE sz[i]]
       IN  [axes |-> k.ax,
            crd |-> [i \in 1..Len(sz) |-> IF k.ax[i] = "phi" THEN Steps(sz[i], 1000, 20000) ELSE IF k.ax[i] = "theta" THEN Steps(sz[i], 10000, 9000) ELSE Steps(sz[i], 1, 1)],
            unit |-> [i \in 1..Len(sz) |-> "deg"], dim |-> d, comps |-> k.comps, cell |-> k.cell,
            dat |-> [i \in 1..(Prod(d, 1) * k.comps) |-> i]]
Init == ready = FALSE /\ k \in {x \in Kinds : Len(x.ax) = Len(x.o) /\ Len(x.o) = Len(x.p)}
Next == ~ready /\ ready' = TRUE /\ UNCHANGED k
None == [i \in 1..Len(k.o) |-> ""]
Laws == ready => \A f \in {Fld} : \A m \in {Convert(f, Map, k.o, None)} :
    /\ m # Refused
    (* there and back *)
    /\ Convert(m, Sphere, k.ax, None) = f
    /\ Convert(m, Map, k.o, None) = m
    /\ Convert(m, Sphere, k.p, None) = Convert(f, Sphere, k.p, None)
    (* the value in a direction stays in that direction *)
    /\ \A ix \in [1..Len(f.dim) -> 1..Nmax] :
          (\A i \in 1..Len(f.dim) : ix[i] <= f.dim[i]) =>
            LET jx == [j \in 1..Len(k.o) |-> LET i == Where(f.axes, Turned(k.o[j])) IN IF k.o[j] = "lat" THEN f.dim[i] + 1 - ix[i] ELSE ix[i]]
                t == Where(f.axes, "theta")  l == Where(k.o, "lat")
            IN  /\ \A c \in 1..f.comps : At(m, jx, c) = At(f, ix, c)
                /\ Mid(m, l)[jx[l]] = 90000 - Mid(f, t)[ix[t]] \/ f.cell
    (* north and south are mirror images, and together hold every row once *)
    /\ Len(f.dim) = 2 =>
          LET N == Polar(f, <<90000>>, TRUE, FALSE)  Z == Polar(f, <<180000>>, TRUE, FALSE)  Q == Polar(f, <<180000>>, FALSE, FALSE)
          IN  /\ Z.dim = Q.dim /\ Z.crd[2] = Rev([i \in 1..Len(Q.crd[2]) |-> 180000 - Q.crd[2][i]])
              /\ \A i \in 1..Z.dim[1] : \A j \in 1..Z.dim[2] : At(Z, <<i, j>>, 1) = At(Q, <<i, Z.dim[2] + 1 - j>>, 1)
              /\ N # Refused => \A i \in 1..(Len(N.crd[2]) - 1) : N.crd[2][i] < N.crd[2][i + 1]
              /\ LET A == Polar(f, <<180000>>, TRUE, TRUE)
                 IN  A.dim[1] = Z.dim[1] + 1 /\ A.crd[1][A.dim[1] + (IF f.cell THEN 1 ELSE 0)] - 360000 <= A.crd[1][1]
                     /\ \A j \in 1..A.dim[2] : At(A, <<A.dim[1], j>>, 1) = At(A, <<1, j>>, 1)
=============================================================================
