------------------------------ MODULE Bifacial ------------------------------
(* Observations of shading.py and bifacial/: element-wise functions, energy   *)
(* conservation of the view factors, segment additivity, and the two models.  *)
EXTENDS BifacialOps, FiniteSets

B1(v) == [y |-> v]
Val(fn, a, k) ==
  CASE fn = "ground_angle" -> B1(GroundAngle(a.surface_tilt, a.gcr, a.slant_height))
    [] fn = "masking_angle" -> B1(LET m == MaskAngle(a.surface_tilt, a.gcr, a.slant_height) IN
                                  IF RAbs(m) \succeq "90" THEN "?" ELSE m)
    [] fn = "masking_angle_passias" -> B1(IF IsNaN(a.surface_tilt) THEN "?" ELSE MaskMean(a.surface_tilt, k.gcr))
    [] fn = "sky_diffuse_passias" -> B1(SinD(a.masking_angle // "2") ^^ "2")
    [] fn = "projected_solar_zenith_angle" -> B1(PSZA(a.solar_zenith, a.solar_azimuth, a.axis_tilt, a.axis_azimuth))
    [] fn = "shaded_fraction1d" ->
         B1(Shaded1D(PSZA(a.solar_zenith, a.solar_azimuth, a.axis_tilt, a.axis_azimuth), a.shaded_row_rotation,
              IF "shading_row_rotation" \in DOMAIN a THEN a.shading_row_rotation ELSE a.shaded_row_rotation,
              a.collector_width, a.pitch, a.surface_to_axis_offset, a.cross_axis_slope))
    [] fn = "direct_martinez" -> B1(Martinez(a.poa_global, a.poa_direct, a.shaded_fraction, a.shaded_blocks, a.total_blocks))
    [] fn = "power_mismatch_deline" ->
         B1((k.c[1] ++ ((k.c[2] ++ (k.c[3] ** a.rmad)) ** a.rmad)) ** (IF k.ff = "None" THEN "1" ELSE k.ff // k.ffref))
    [] fn = "vf_row_sky_2d" -> B1(RowSky(a.surface_tilt, k.gcr, a.x))
    [] fn = "vf_row_ground_2d" -> B1(RowGround(a.surface_tilt, k.gcr, a.x))
    [] fn = "vf_row_sky_2d_integ" -> B1(RowSkyMean(a.surface_tilt, k.gcr, k.x0, k.x1))
    [] fn = "vf_row_ground_2d_integ" -> B1(RowGroundSegMean(a.surface_tilt, k.gcr, k.hp, k.x0, k.x1, k.g0, k.g1, k.rows, k.n))
    [] fn = "vf_ground_sky_2d" -> B1(GroundSky(k.rotation, k.gcr, k.hp, a.x, k.rows))
    [] fn = "vf_ground_sky_2d_integ" -> B1(GroundSkyMean(a.tracker_rotation, k.gcr, k.hp, k.g0, k.g1, k.rows, k.n))
    [] fn = "unshaded_ground_fraction" -> B1(Lit(a.tracker_rotation, a.phi, k.gcr, k.hp, k.g0, k.g1, k.rows))
    [] fn = "infinite_sheds_poa" -> ShedsSide([a EXCEPT !.surface_tilt = @] @@ [gcr |-> k.gcr, height |-> k.height, pitch |-> k.pitch, n |-> k.n], k.model, k.iam)
    [] fn = "infinite_sheds" -> Sheds(a @@ [gcr |-> k.gcr, height |-> k.height, pitch |-> k.pitch, n |-> k.n], k)
    [] OTHER -> [raise |-> "raise"]
Tol(fn) == CASE fn \in {"masking_angle_passias"} -> <<"1e-3", "1e-4">>
             [] fn \in {"vf_ground_sky_2d_integ", "vf_row_ground_2d_integ"} -> <<"2e-3", "3e-3">>
             [] fn \in {"infinite_sheds_poa", "infinite_sheds"} -> <<"2e-3", "0.2">>
             [] fn \in {"vf_row_sky_2d_integ"} -> <<"1e-6", "1e-6">>
             [] OTHER -> <<"1e-7", "1e-9">>
UnitFns == {"vf_row_sky_2d", "vf_row_ground_2d", "vf_row_sky_2d_integ", "vf_row_ground_2d_integ", "vf_ground_sky_2d",
            "vf_ground_sky_2d_integ", "unshaded_ground_fraction", "sky_diffuse_passias", "shaded_fraction1d"}
InUnit(v) == IsNaN(v) \/ (v \succeq "-1e-9" /\ v \preceq "1.000000001")
Sums(o, n) == \A s \in {<<"poa_", "poa_global">>, <<"poa_front_", "poa_front">>, <<"poa_back_", "poa_back">>} :
  LET c(x) == o[s[1] \o x]
  IN  (s[1] \o "sky_diffuse") \in DOMAIN o => \A i \in 1..n :
        /\ RClose(c("diffuse")[i], c("sky_diffuse")[i] ++ c("ground_diffuse")[i], "1e-9", "1e-9")
        /\ RClose(o[s[2]][i], c("direct")[i] ++ c("diffuse")[i], "1e-9", "1e-9")
PointStep(e) ==
  PointClauses(e, Val, Tol)
    \cup (IF e.exc = "" /\ e.fn \in UnitFns THEN Clause(e.fn \o ".outside-0-1", \A i \in 1..Len(e.out.y) : InUnit(e.out.y[i])) ELSE {})
    \cup (IF e.exc = "" /\ e.fn \in {"infinite_sheds", "infinite_sheds_poa"} THEN Clause(e.fn \o ".columns-do-not-add-up", Sums(e.out, e.n)) ELSE {})

\* light leaving the ground and the sky is all accounted for
ConsStep(e) ==
  IF e.exc # "" THEN {"cons.raised-" \o e.exc} ELSE
  Clause("cons.ground", RClose(e.gs ++ (e.gcr ** (e.fg ++ e.bg)), "1", "1e-3", "0"))
    \cup Clause("cons.sky", RClose(e.gs ++ (e.gcr ** (e.fs ++ e.bs)), "1", "1e-3", "0"))
    \cup Clause("cons.row", (e.fs ++ e.fg) \preceq "1.0001" /\ (e.bs ++ e.bg) \preceq "1.0001")
\* a whole is the width-weighted sum (mean) of its parts
AddStep(e) ==
  IF e.exc # "" THEN {"add.raised-" \o e.exc} ELSE
  Clause("add." \o e.what, RClose(e.whole, RSum([i \in 1..Len(e.parts) |-> e.parts[i] ** e.w[i]]), e.tol, e.tol))
\* every irradiance in the output is proportional to the irradiance supplied
ScaleStep(e) ==
  IF e.exc # "" THEN {"scale.raised-" \o e.exc} ELSE
  {"scale." \o e.what \o "." \o c : c \in {x \in DOMAIN e.one :
      ~(Len(e.one[x]) = Len(e.many[x]) /\ \A i \in 1..Len(e.one[x]) :
          RClose(e.many[x][i], IF SStarts(x, "shaded") THEN e.one[x][i] ELSE e.f ** e.one[x][i], "1e-9", "1e-9"))}}

AntsStep(e) ==
  IF e.exc # "" THEN {"ants.raised-" \o e.exc} ELSE
  LET k == e.k  gs == k.ground_segs  rs == k.row_segs
      Exp(t) ==
        LET a == [c \in DOMAIN e.a |-> e.a[c][t]]
            L == Level(a, k)
            rows == IF k.max_rows = 0 THEN RowsFor(L.hp, "4") ELSE k.max_rows
            light == TLCEval([j \in 1..Len(gs) |-> GroundLight(L, gs, j, rows, k.n)])
            alb == [j \in 1..Len(gs) |-> k.albedo[j][t]]
            c == Dot(TrackerNormal(a.tracker_rotation, k.axis_tilt, k.axis_azimuth), Dir(a.solar_zenith, a.solar_azimuth))
        IN  TLCEval([light |-> light,
             front |-> [r \in 1..Len(rs) |-> AntsSide(L, L.rot, c, rs[r][1], rs[r][2], gs, light, alb, rows, k.n)],
             back |-> [r \in 1..Len(rs) |-> AntsSide(L, Wrap(L.rot ++ "180"), RNeg(c), "1" -- rs[r][2], "1" -- rs[r][1], gs, light, alb, rows, k.n)]])
      Names == [direct |-> "_direct", sky |-> "_sky_diffuse", ground |-> "_ground_diffuse", diffuse |-> "_diffuse", total |-> ""]
      Off(v, x) == v # "?" /\ ~RClose(x, v, "5e-3", "0.5")
      One(t) ==
        LET E == Exp(t) IN
        UNION {UNION {{"ants." \o s \o Names[q] \o "@" \o SOfInt(t) : q \in {q \in DOMAIN Names :
                         Off(E[s][r][q], e.out["poa_" \o s \o Names[q]][r][t])}}
                      \cup Clause("ants.shaded_fraction_" \o s, ~Off(E[s][r].f, e.out["shaded_fraction_" \o s][r][t]))
                      \cup Clause("ants." \o s \o "-components", RClose(e.out["poa_" \o s][r][t],
                             RSum(<<e.out["poa_" \o s \o "_direct"][r][t], e.out["poa_" \o s \o "_sky_diffuse"][r][t], e.out["poa_" \o s \o "_ground_diffuse"][r][t]>>), "1e-9", "1e-9"))
                      : r \in 1..Len(rs)} : s \in {"front", "back"}}
        \cup UNION {Clause("ants.ground_direct", ~Off(E.light[j][1], e.ground.ground_direct[j][t]))
                    \cup Clause("ants.ground_diffuse", ~Off(E.light[j][2], e.ground.ground_diffuse[j][t])) : j \in 1..Len(gs)}
  IN  UNION {One(t) : t \in 1..e.n} \cup Clause("ants.inputs-changed", e.kept) \cup Clause("ants.form", e.typed)

SInit(m) == "x"
SStep(m, st, e) ==
  <<st, CASE e.kind = "point" -> PointStep(e) [] e.kind = "cons" -> ConsStep(e) [] e.kind = "add" -> AddStep(e)
          [] e.kind = "scale" -> ScaleStep(e) [] OTHER -> AntsStep(e)>>
=============================================================================
