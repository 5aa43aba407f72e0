------------------------------- MODULE Equil -------------------------------
(* Placing two fluids by depth.  Depths are whole numbers growing downwards  *)
(* (twice the depth in metres, so the contact may lie between or on cells);  *)
(* pressures are twice the pressure.  R = [lo |-> density below the contact, *)
(* hi |-> density above it], K # 0 when densities grow with pressure: then   *)
(* the density at p is R * (K + c * p) / K.                                  *)
EXTENDS Integers, Sequences, FiniteSets

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Below(z, woc) == z > woc
\* how much of the way from the contact down to z, or up from it
Under(z, woc) == Max(z - woc, 0)
Over(z, woc) == Min(z, woc)
Height(z1, z2, woc, rlo, rhi) == rlo * (Under(z2, woc) - Under(z1, woc)) + rhi * (Over(z2, woc) - Over(z1, woc))
\* constant densities
Static(z, z0, p0, g, woc, R) == p0 + g * Height(z0, z, woc, R.lo, R.hi)
\* growing densities: the difference between two depths lies between those
\* computed with the densities at either pressure (2 per cent and the mixing
\* of both fluids' gradients within 1/100 of the column at the contact)
Weight(R, K, p2) == [lo |-> R.lo * (2 * K + R.clo * p2), hi |-> R.hi * (2 * K + R.chi * p2)]
Slack(x) == x \div 50
Balanced(a, b, g, woc, R, K, blur) ==     \* a, b = <<z, 2p>>, a above b
    LET wa == Weight(R, K, a[2])  wb == Weight(R, K, b[2])
        low == g * Height(a[1], b[1], woc, wa.lo, wa.hi)  high == g * Height(a[1], b[1], woc, wb.lo, wb.hi)
        d == 2 * K * (b[2] - a[2])
    IN low - Slack(low) - 2 * K * blur <= d /\ d <= high + Slack(high) + 2 * K * blur
\* pressure of a face between cells at distances d
Between(p1, d1, p2, d2) == p1 * d2 + p2 * d1          \* times (d1 + d2)
=============================================================================
