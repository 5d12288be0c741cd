----------------------------- MODULE ReversePoa ----------------------------
(* Reverse transposition: the horizontal irradiance whose Erbs-Driesse        *)
(* decomposition and Perez-Driesse transposition give a plane irradiance.     *)
(* Poa is the forward model; the estimate is judged by a sign change of       *)
(* Poa - target around it, never by how the search walks there.               *)
EXTENDS SkyDiffuse
D == INSTANCE Decomp
\* w has surface_tilt, surface_azimuth, solar_zenith, solar_azimuth, dni_extra, albedo and perhaps airmass
Poa(w, g) ==
  LET kt == D!Kt(g, w.solar_zenith, w.dni_extra, "0.065", "1")
      s == D!Split(g, w.solar_zenith, D!DriesseDf(kt), kt, "87")
      a == w @@ [ghi |-> g, dni |-> s.dni, dhi |-> s.dhi]
      b == Beam(w.surface_tilt, w.surface_azimuth, w.solar_zenith, w.solar_azimuth, s.dni)
  IN  (b ++ PerezDriesse(WithAm(a)).total) ++ Ground(w.surface_tilt, g, w.albedo)
High(w) == RMax("10", "1.25" ** (w.dni_extra ** CosD(w.solar_zenith)))
Halvings == 25
Pow2 == [k \in 0..Halvings |-> ToString(2^k)]
=============================================================================
