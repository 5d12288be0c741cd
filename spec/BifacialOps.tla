----------------------------- MODULE BifacialOps -----------------------------
(* Infinite-sheds and ANTS-2D: irradiance on both sides of interior rows.     *)
EXTENDS Views

Horizon(a) == [dhi |-> a.dhi, dni |-> a.dni, dni_extra |-> a.dni_extra, solar_zenith |-> a.solar_zenith,
               solar_azimuth |-> a.solar_azimuth, surface_tilt |-> "0", surface_azimuth |-> "180"]
Normal(a) == [Horizon(a) EXCEPT !.surface_tilt = a.solar_zenith, !.surface_azimuth = a.solar_azimuth]
\* circumsolar light is moved from the diffuse to the beam component
Split(a, model) ==
  IF model = "isotropic" THEN [dni |-> a.dni, dhi |-> a.dhi]
  ELSE LET am == IF "airmass" \in DOMAIN a THEN a.airmass ELSE KastenYoung(a.solar_zenith)
           C(w) == CASE model = "haydavies" -> HayDavies(w).circ
                     [] model = "perez" -> Perez(w @@ [airmass |-> am], "allsitescomposite1990").circ
                     [] OTHER -> PerezDriesse(w @@ [airmass |-> am]).circ
       IN  [dni |-> a.dni ++ C(Normal(a)), dhi |-> a.dhi -- C(Horizon(a))]

RowsFor(hp, deg) == RToInt(RCeil(hp // TanD(deg)))

\* ----- infinite sheds ------------------------------------------------------------
\* a.gcr, a.height, a.pitch, a.albedo; one side
ShedsSide(a, model, iam) ==
  LET s == Split(a, model)
      phi == Deg(RAtan(CosD(a.solar_azimuth -- a.surface_azimuth) ** TanD(a.solar_zenith)))
      hp == a.height // a.pitch
      lit == Lit(a.surface_tilt, phi, a.gcr, "1" ** a.gcr, "0", "1", 10)
      gsky == GroundSkyMean(a.surface_tilt, a.gcr, hp, "0", "1", RowsFor(hp, "5"), a.n)
      gnd == a.albedo ** ((lit ** (a.ghi -- s.dhi)) ++ (gsky ** s.dhi))
      FG(x) == RowGround(a.surface_tilt, a.gcr, x)
      pg == gnd ** Mean(FG, "0", "1", 24)
      ps == s.dhi ** RowSkyMean(a.surface_tilt, a.gcr, "0", "1")
      front == Aoi(a.surface_tilt, a.surface_azimuth, a.solar_zenith, a.solar_azimuth) \prec "90"
      \* beyond the rows a ray at phi first meets the facing row
      reach == a.gcr ** ((SinD(a.surface_tilt) ** TanD(phi)) ++ CosD(a.surface_tilt))
      f == IF ~front THEN "?" ELSE IF reach \preceq "1" THEN "0" ELSE "1" -- ("1" // reach)
      pd == IF ~front THEN "0" ELSE (Beam(a.surface_tilt, a.surface_azimuth, a.solar_zenith, a.solar_azimuth, s.dni) ** ("1" -- f)) ** iam
  IN  [poa_direct |-> pd, poa_sky_diffuse |-> ps, poa_ground_diffuse |-> pg, poa_diffuse |-> ps ++ pg,
       poa_global |-> pd ++ (ps ++ pg), shaded_fraction |-> f]
BackOf(a) == [a EXCEPT !.surface_tilt = "180" -- @, !.surface_azimuth = RMod("180" ++ @, "360")]
Sheds(a, k) ==
  LET f == ShedsSide(a, k.model, k.iam_front)  b == ShedsSide(BackOf(a), k.model, k.iam_back)
  IN  [poa_front |-> f.poa_global, poa_front_direct |-> f.poa_direct, poa_front_diffuse |-> f.poa_diffuse,
       poa_front_sky_diffuse |-> f.poa_sky_diffuse, poa_front_ground_diffuse |-> f.poa_ground_diffuse,
       shaded_fraction_front |-> f.shaded_fraction,
       poa_back |-> b.poa_global, poa_back_direct |-> b.poa_direct, poa_back_diffuse |-> b.poa_diffuse,
       poa_back_sky_diffuse |-> b.poa_sky_diffuse, poa_back_ground_diffuse |-> b.poa_ground_diffuse,
       shaded_fraction_back |-> b.shaded_fraction,
       poa_global |-> f.poa_global ++ (((b.poa_global ** k.bifaciality) ** ("1" ++ k.shade_factor)) ** ("1" ++ k.transmission_factor))]

\* ----- ANTS-2D ---------------------------------------------------------------------
Wrap(x) == RMod(x ++ "180", "360") -- "180"
\* quantities in the frame in which the terrain is level
Level(a, k) ==
  LET s == Split(a, k.model)
      flat == k.axis_tilt \doteq "0" /\ k.cross_axis_slope \doteq "0"
      cas == k.cross_axis_slope
      sun == Dot(TrackerNormal(cas, k.axis_tilt, k.axis_azimuth), Dir(a.solar_zenith, a.solar_azimuth))
  IN  [dni |-> s.dni, dhi |-> s.dhi, phi |-> PSZA(a.solar_zenith, a.solar_azimuth, k.axis_tilt, k.axis_azimuth) -- cas,
       rot |-> IF flat THEN a.tracker_rotation ELSE Wrap(a.tracker_rotation -- cas),
       gcr |-> k.gcr ** CosD(cas),
       hp |-> ((k.height ** (CosD(k.axis_tilt) ** CosD(cas))) // k.pitch) ** CosD(cas),
       ghi |-> IF flat THEN a.ghi ELSE s.dhi ++ (s.dni ** RMax(sun, "0"))]
\* light on ground segment j: <<direct, diffuse>>
GroundLight(L, gs, j, rows, n) ==
  <<Lit(L.rot, L.phi, L.gcr, L.hp, gs[j][1], gs[j][2], rows) ** (L.ghi -- L.dhi),
    GroundSkyMean(L.rot, L.gcr, L.hp, gs[j][1], gs[j][2], rows, n) ** L.dhi>>
AntsSide(L, rot, cosAoi, x0, x1, gs, light, alb, rows, n) ==
  LET f == ShadedSeg(rot, L.phi, L.gcr, x0, x1)
      pd == IF ~(cosAoi \succ "0") THEN "0" ELSE IF f = "?" THEN "?" ELSE (L.dni ** cosAoi) ** ("1" -- f)
      ps == L.dhi ** RowSkyMean(rot, L.gcr, x0, x1)
      pg == RSum([j \in 1..Len(gs) |->
              (RowGroundSegMean(rot, L.gcr, L.hp, x0, x1, gs[j][1], gs[j][2], rows, n) ** alb[j]) ** (light[j][1] ++ light[j][2])])
  IN  [direct |-> pd, sky |-> ps, ground |-> pg, diffuse |-> ps ++ pg,
       total |-> IF pd = "?" THEN "?" ELSE pd ++ (ps ++ pg), f |-> IF ~(cosAoi \succ "0") THEN "?" ELSE f]
=============================================================================
