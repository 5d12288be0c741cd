---------------------------- MODULE SkyDiffuse ----------------------------
(* Irradiance on a tilted plane: beam, sky diffuse models, ground reflection *)
(* and their sum.                                                             *)
EXTENDS SolarGeometry, TLC

PerezTable == [
   allsitescomposite1990 |-> <<<<"-0.008", "0.588", "-0.062", "-0.06", "0.072", "-0.022">>,
     <<"0.13", "0.683", "-0.151", "-0.019", "0.066", "-0.029">>,
     <<"0.33", "0.487", "-0.221", "0.055", "-0.064", "-0.026">>,
     <<"0.568", "0.187", "-0.295", "0.109", "-0.152", "-0.014">>,
     <<"0.873", "-0.392", "-0.362", "0.226", "-0.462", "0.001">>,
     <<"1.132", "-1.237", "-0.412", "0.288", "-0.823", "0.056">>,
     <<"1.06", "-1.6", "-0.359", "0.264", "-1.127", "0.131">>,
     <<"0.678", "-0.327", "-0.25", "0.156", "-1.377", "0.251">>>>,
   allsitescomposite1988 |-> <<<<"-0.018", "0.705", "-0.071", "-0.058", "0.102", "-0.026">>,
     <<"0.191", "0.645", "-0.171", "0.012", "0.009", "-0.027">>,
     <<"0.44", "0.378", "-0.256", "0.087", "-0.104", "-0.025">>,
     <<"0.756", "-0.121", "-0.346", "0.179", "-0.321", "-0.008">>,
     <<"0.996", "-0.645", "-0.405", "0.26", "-0.59", "0.017">>,
     <<"1.098", "-1.29", "-0.393", "0.269", "-0.832", "0.075">>,
     <<"0.973", "-1.135", "-0.378", "0.124", "-0.258", "0.149">>,
     <<"0.689", "-0.412", "-0.273", "0.199", "-1.675", "0.237">>>>,
   sandiacomposite1988 |-> <<<<"-0.196", "1.084", "-0.006", "-0.114", "0.18", "-0.019">>,
     <<"0.236", "0.519", "-0.18", "-0.011", "0.02", "-0.038">>,
     <<"0.454", "0.321", "-0.255", "0.072", "-0.098", "-0.046">>,
     <<"0.866", "-0.381", "-0.375", "0.203", "-0.403", "-0.049">>,
     <<"1.026", "-0.711", "-0.426", "0.273", "-0.602", "-0.061">>,
     <<"0.978", "-0.986", "-0.35", "0.28", "-0.915", "-0.024">>,
     <<"0.748", "-0.913", "-0.236", "0.173", "-1.045", "0.065">>,
     <<"0.318", "-0.757", "0.103", "0.062", "-1.698", "0.236">>>>,
   usacomposite1988 |-> <<<<"-0.034", "0.671", "-0.059", "-0.059", "0.086", "-0.028">>,
     <<"0.255", "0.474", "-0.191", "0.018", "-0.014", "-0.033">>,
     <<"0.427", "0.349", "-0.245", "0.093", "-0.121", "-0.039">>,
     <<"0.756", "-0.213", "-0.328", "0.175", "-0.304", "-0.027">>,
     <<"1.02", "-0.857", "-0.385", "0.28", "-0.638", "-0.019">>,
     <<"1.05", "-1.344", "-0.348", "0.28", "-0.893", "0.037">>,
     <<"0.974", "-1.507", "-0.37", "0.154", "-0.568", "0.109">>,
     <<"0.744", "-1.817", "-0.256", "0.246", "-2.618", "0.23">>>>,
   france1988 |-> <<<<"0.013", "0.764", "-0.1", "-0.058", "0.127", "-0.023">>,
     <<"0.095", "0.92", "-0.152", "0.0", "0.051", "-0.02">>,
     <<"0.464", "0.421", "-0.28", "0.064", "-0.051", "-0.002">>,
     <<"0.759", "-0.009", "-0.373", "0.201", "-0.382", "0.01">>,
     <<"0.976", "-0.4", "-0.436", "0.271", "-0.638", "0.051">>,
     <<"1.176", "-1.254", "-0.462", "0.295", "-0.975", "0.129">>,
     <<"1.106", "-1.563", "-0.398", "0.301", "-1.442", "0.212">>,
     <<"0.934", "-1.501", "-0.271", "0.42", "-2.917", "0.249">>>>,
   phoenix1988 |-> <<<<"-0.003", "0.728", "-0.097", "-0.075", "0.142", "-0.043">>,
     <<"0.279", "0.354", "-0.176", "0.03", "-0.055", "-0.054">>,
     <<"0.469", "0.168", "-0.246", "0.048", "-0.042", "-0.057">>,
     <<"0.856", "-0.519", "-0.34", "0.176", "-0.38", "-0.031">>,
     <<"0.941", "-0.625", "-0.391", "0.188", "-0.36", "-0.049">>,
     <<"1.056", "-1.134", "-0.41", "0.281", "-0.794", "-0.065">>,
     <<"0.901", "-2.139", "-0.269", "0.118", "-0.665", "0.046">>,
     <<"0.107", "0.481", "0.143", "-0.111", "-0.137", "0.234">>>>,
   elmonte1988 |-> <<<<"0.027", "0.701", "-0.119", "-0.058", "0.107", "-0.06">>,
     <<"0.181", "0.671", "-0.178", "-0.079", "0.194", "-0.035">>,
     <<"0.476", "0.407", "-0.288", "0.054", "-0.032", "-0.055">>,
     <<"0.875", "-0.218", "-0.403", "0.187", "-0.309", "-0.061">>,
     <<"1.166", "-1.014", "-0.454", "0.211", "-0.41", "-0.044">>,
     <<"1.143", "-2.064", "-0.291", "0.097", "-0.319", "0.053">>,
     <<"1.094", "-2.632", "-0.259", "0.029", "-0.422", "0.147">>,
     <<"0.155", "1.723", "0.163", "-0.131", "-0.019", "0.277">>>>,
   osage1988 |-> <<<<"-0.353", "1.474", "0.057", "-0.175", "0.312", "0.009">>,
     <<"0.363", "0.218", "-0.212", "0.019", "-0.034", "-0.059">>,
     <<"-0.031", "1.262", "-0.084", "-0.082", "0.231", "-0.017">>,
     <<"0.691", "0.039", "-0.295", "0.091", "-0.131", "-0.035">>,
     <<"1.182", "-1.35", "-0.321", "0.408", "-0.985", "-0.088">>,
     <<"0.764", "0.019", "-0.203", "0.217", "-0.294", "-0.103">>,
     <<"0.219", "1.412", "0.244", "0.471", "-2.988", "0.034">>,
     <<"3.578", "22.231", "-10.745", "2.426", "4.892", "-5.687">>>>,
   albuquerque1988 |-> <<<<"0.034", "0.501", "-0.094", "-0.063", "0.106", "-0.044">>,
     <<"0.229", "0.467", "-0.156", "-0.005", "-0.019", "-0.023">>,
     <<"0.486", "0.241", "-0.253", "0.053", "-0.064", "-0.022">>,
     <<"0.874", "-0.393", "-0.397", "0.181", "-0.327", "-0.037">>,
     <<"1.193", "-1.296", "-0.501", "0.281", "-0.656", "-0.045">>,
     <<"1.056", "-1.758", "-0.374", "0.226", "-0.759", "0.034">>,
     <<"0.901", "-4.783", "-0.109", "0.063", "-0.97", "0.196">>,
     <<"0.851", "-7.055", "-0.053", "0.06", "-2.833", "0.33">>>>,
   capecanaveral1988 |-> <<<<"0.075", "0.533", "-0.124", "-0.067", "0.042", "-0.02">>,
     <<"0.295", "0.497", "-0.218", "-0.008", "0.003", "-0.029">>,
     <<"0.514", "0.081", "-0.261", "0.075", "-0.16", "-0.029">>,
     <<"0.747", "-0.329", "-0.325", "0.181", "-0.416", "-0.03">>,
     <<"0.901", "-0.883", "-0.297", "0.178", "-0.489", "0.008">>,
     <<"0.591", "-0.044", "-0.116", "0.235", "-0.999", "0.098">>,
     <<"0.537", "-2.402", "0.32", "0.169", "-1.971", "0.31">>,
     <<"-0.805", "4.546", "1.072", "-0.258", "-0.95", "0.753">>>>,
   albany1988 |-> <<<<"0.012", "0.554", "-0.076", "-0.052", "0.084", "-0.029">>,
     <<"0.267", "0.437", "-0.194", "0.016", "0.022", "-0.036">>,
     <<"0.42", "0.336", "-0.237", "0.074", "-0.052", "-0.032">>,
     <<"0.638", "-0.001", "-0.281", "0.138", "-0.189", "-0.012">>,
     <<"1.019", "-1.027", "-0.342", "0.271", "-0.628", "0.014">>,
     <<"1.149", "-1.94", "-0.331", "0.322", "-1.097", "0.08">>,
     <<"1.434", "-3.994", "-0.492", "0.453", "-2.376", "0.117">>,
     <<"1.007", "-2.292", "-0.482", "0.39", "-3.368", "0.229">>>>
  ]
Albedos == ("urban" :> "0.18") @@ ("grass" :> "0.20") @@ ("fresh grass" :> "0.26") @@ ("soil" :> "0.17") @@ ("sand" :> "0.40")
  @@ ("snow" :> "0.65") @@ ("fresh snow" :> "0.75") @@ ("asphalt" :> "0.12") @@ ("concrete" :> "0.30") @@ ("aluminum" :> "0.85")
  @@ ("copper" :> "0.74") @@ ("fresh steel" :> "0.35") @@ ("dirty steel" :> "0.08") @@ ("sea" :> "0.06")

\* water surfaces: colour and wave roughness coefficients (Dvoracek)
Waters == ("clear_water_no_waves" :> <<"0.13", "0.29">>) @@ ("clear_water_ripples_up_to_2.5cm" :> <<"0.16", "0.7">>)
  @@ ("clear_water_ripples_larger_than_2.5cm_occasional_whitecaps" :> <<"0.23", "1.25">>) @@ ("clear_water_frequent_whitecaps" :> <<"0.3", "2">>)
  @@ ("green_water_ripples_up_to_2.5cm" :> <<"0.22", "0.7">>) @@ ("muddy_water_no_waves" :> <<"0.19", "0.29">>)

\* relative airmass of the Perez model (Kasten and Young 1989)
KastenYoung(z) == IF z \succ "90" THEN NaN
                  ELSE "1" // (CosD(z) ++ ("0.50572" ** (("6.07995" ++ ("90" -- z)) ^^ "-1.6364")))

SkyView(tilt) == ("1" ++ CosD(tilt)) // "2"
GroundView(tilt) == ("1" -- CosD(tilt)) // "2"
Ground(tilt, ghi, albedo) == (ghi ** albedo) ** GroundView(tilt)
Direct(aoi, dni) == RMax(dni ** CosD(aoi), "0")
CosInc(w) == RMax(Projection(w.surface_tilt, w.surface_azimuth, w.solar_zenith, w.solar_azimuth), "0")
\* ratio of beam on the plane to beam on the horizontal, limited near the horizon
Rb(w) == CosInc(w) // RMax(CosD(w.solar_zenith), "0.01745")

\* every model returns its parts; the total is their sum unless stated
Isotropic(w) == [total |-> w.dhi ** SkyView(w.surface_tilt), iso |-> w.dhi ** SkyView(w.surface_tilt)]

Klucher(w) ==
  LET F == IF w.ghi \doteq "0" /\ w.dhi \doteq "0" THEN "0"
           ELSE "1" -- ((w.dhi // w.ghi) ** (w.dhi // w.ghi))
      st == SinD("0.5" ** w.surface_tilt)  sz == SinD(w.solar_zenith)
      ci == CosInc(w)
      hb == "1" ++ (F ** (st ^^ "3"))
      cs == "1" ++ ((F ** (ci ** ci)) ** ((sz ** sz) ** sz))
  IN  IF (w.ghi \doteq "0" /\ ~(w.dhi \doteq "0")) \/ IsNaN(w.ghi) THEN [total |-> "?"]
      ELSE [total |-> ((w.dhi ** SkyView(w.surface_tilt)) ** hb) ** cs]

HayDaviesRb(w, rb) ==
  LET AI == w.dni // w.dni_extra
      iso == RMax((w.dhi ** ("1" -- AI)) ** SkyView(w.surface_tilt), "0")
      cs == RMax((w.dhi ** AI) ** rb, "0")
  IN  [total |-> iso ++ cs, iso |-> iso, circ |-> cs]
HayDavies(w) == HayDaviesRb(w, Rb(w))

Reindl(w) ==
  LET AI == w.dni // w.dni_extra
      HB == RMax(w.dni ** CosD(w.solar_zenith), "0")
      ratio == IF w.ghi \doteq "0" THEN "0" ELSE HB // w.ghi
      s == SinD(w.surface_tilt // "2")
      t1 == ("1" -- AI) ** SkyView(w.surface_tilt)
      t2 == AI ** Rb(w)
      t3 == (t1 ** RSqrt(ratio)) ** ((s ** s) ** s)
  IN  [total |-> w.dhi ** RSum(<<t1, t2, t3>>), iso |-> w.dhi ** t1, circ |-> w.dhi ** t2, horizon |-> w.dhi ** t3]

King(w) == [total |-> RMax((w.dhi ** SkyView(w.surface_tilt)) ++
             ((w.ghi ** (("0.012" ** w.solar_zenith) -- "0.04")) ** GroundView(w.surface_tilt)), "0")]

Kappa3(z) == "1.041" ** ((Rad(z) ** Rad(z)) ** Rad(z))
\* sky clearness of Perez and its bin 1..8 (0: undefined)
Clearness(w) == (((w.dhi ++ w.dni) // w.dhi) ++ Kappa3(w.solar_zenith)) // ("1" ++ Kappa3(w.solar_zenith))
Bin(e) == IF IsNaN(e) \/ e \prec "0" THEN 0
          ELSE CASE e \prec "1.065" -> 1 [] e \prec "1.23" -> 2 [] e \prec "1.5" -> 3 [] e \prec "1.95" -> 4
                 [] e \prec "2.8" -> 5 [] e \prec "4.5" -> 6 [] e \prec "6.2" -> 7 [] OTHER -> 8
PerezSum(w, F1, F2) ==
  LET t1 == ("1" -- F1) ** SkyView(w.surface_tilt)
      t2 == (F1 ** CosInc(w)) // RMax(CosD(w.solar_zenith), CosD("85"))
      t3 == F2 ** SinD(w.surface_tilt)
  IN  [total |-> RMax(w.dhi ** RSum(<<t1, t2, t3>>), "0"),
       iso |-> w.dhi ** t1, circ |-> w.dhi ** t2, horizon |-> w.dhi ** t3]
Zero3 == [total |-> "0", iso |-> "0", circ |-> "0", horizon |-> "0"]
Perez(w, model) ==
  LET c == PerezTable[model]
      b == Bin(Clearness(w))  z == Rad(w.solar_zenith)
      delta == (w.dhi ** w.airmass) // w.dni_extra
      R == c[b]
      F1 == RMax(RSum(<<R[1], R[2] ** delta, R[3] ** z>>), "0")
      F2 == RSum(<<R[4], R[5] ** delta, R[6] ** z>>)
      p == PerezSum(w, F1, F2)
  IN  IF IsNaN(w.airmass) THEN Zero3                        \* sun below the horizon
      ELSE IF w.dhi \doteq "0" /\ w.dni \doteq "0" THEN [total |-> "?", iso |-> "?", circ |-> "?", horizon |-> "?"]
      ELSE IF b = 0 THEN [total |-> NaN, iso |-> NaN, circ |-> NaN, horizon |-> NaN]
      ELSE IF p.total \doteq "0" THEN Zero3 ELSE p

\* Perez-Driesse: coefficients are quadratic splines of the continuous clearness zeta
Knots == <<"0", "0", "0", "0.061", "0.187", "0.333", "0.487", "0.643", "0.778", "0.839", "1", "1", "1">>
PDCoef == <<
 <<"-0.053", "-0.008", "0.131", "0.328", "0.557", "0.861", "1.212", "1.099", "0.544", "0.544">>,
 <<"0.529", "0.588", "0.77", "0.471", "0.241", "-0.323", "-1.239", "-1.847", "0.157", "0.157">>,
 <<"-0.028", "-0.062", "-0.167", "-0.216", "-0.3", "-0.355", "-0.444", "-0.365", "-0.213", "-0.213">>,
 <<"-0.071", "-0.06", "-0.026", "0.069", "0.086", "0.24", "0.305", "0.275", "0.118", "0.118">>,
 <<"0.061", "0.072", "0.106", "-0.105", "-0.085", "-0.467", "-0.797", "-1.132", "-1.455", "-1.455">>,
 <<"-0.019", "-0.022", "-0.032", "-0.028", "-0.012", "-0.008", "0.047", "0.124", "0.292", "0.292">>>>
Span(x) == CHOOSE k \in 3..10 : (k = 3 \/ Knots[k] \preceq x) /\ (k = 10 \/ x \prec Knots[k + 1])
Spline(j, x) ==
  LET k == Span(x)  c == PDCoef[j]
      W(i, d) == (x -- Knots[i]) // (Knots[i + d] -- Knots[i])      \* de Boor weights
      Mix(u, v, a) == (("1" -- a) ** u) ++ (a ** v)
      d1 == Mix(c[k - 2], c[k - 1], W(k - 1, 2))
      d2 == Mix(c[k - 1], c[k], W(k, 2))
  IN  IF IsNaN(x) THEN NaN ELSE Mix(d1, d2, W(k, 1))
Zeta(w) == LET z0 == IF w.dhi \doteq "0" THEN "0" ELSE w.dni // (w.dhi ++ w.dni)
           IN  z0 // ("1" -- (Kappa3(w.solar_zenith) ** (z0 -- "1")))
PerezDriesse(w) ==
  LET am == IF w.solar_zenith \succeq "90" THEN KastenYoung("90") ELSE w.airmass
      delta == (w.dhi ** am) // w.dni_extra
      x == Zeta(w)  z == Rad(w.solar_zenith)
      F1 == RClip(RSum(<<Spline(1, x), Spline(2, x) ** delta, Spline(3, x) ** z>>), "0", "0.9")
      F2 == RSum(<<Spline(4, x), Spline(5, x) ** delta, Spline(6, x) ** z>>)
      p == PerezSum(w, F1, F2)
  IN  IF p.total \doteq "0" THEN Zero3 ELSE p

WithAm(w) == IF "airmass" \in DOMAIN w THEN w ELSE w @@ [airmass |-> KastenYoung(w.solar_zenith)]
\* parts of the named sky model, or raise
NeedsExtra == {"haydavies", "reindl", "perez", "perez-driesse"}
SkyModels == {"isotropic", "klucher", "haydavies", "reindl", "king", "perez", "perez-driesse"}
\* relative airmass defaults to kastenyoung1989 in both Perez variants
SkyParts(model, w, pm) ==
  CASE model = "isotropic" -> Isotropic(w) [] model = "klucher" -> Klucher(w) [] model = "haydavies" -> HayDavies(w)
    [] model = "reindl" -> Reindl(w) [] model = "king" -> King(w) [] model = "perez" -> Perez(WithAm(w), pm)
    [] model = "perez-driesse" -> PerezDriesse(WithAm(w))
Rejected(model, w, comp) ==
  model \notin SkyModels \/ (model \in NeedsExtra /\ "dni_extra" \notin DOMAIN w) \/ (comp = "yes" /\ model \in {"klucher", "king"})
PartCols(p) == (IF "iso" \in DOMAIN p THEN [poa_isotropic |-> p.iso] ELSE <<>>)
            @@ (IF "circ" \in DOMAIN p THEN [poa_circumsolar |-> p.circ] ELSE <<>>)
            @@ (IF "horizon" \in DOMAIN p THEN [poa_horizon |-> p.horizon] ELSE <<>>)
Comps(p, comp) == IF comp = "yes" THEN [poa_sky_diffuse |-> p.total] @@ PartCols(p) ELSE [y |-> p.total]
Q(x, y) == IF y = "?" THEN "?" ELSE x
Total(direct, sky, gnd) ==
  IF sky = "?" THEN [poa_direct |-> direct, poa_ground_diffuse |-> gnd]
  ELSE [poa_direct |-> direct, poa_sky_diffuse |-> sky, poa_ground_diffuse |-> gnd,
        poa_diffuse |-> sky ++ gnd, poa_global |-> (direct ++ sky) ++ gnd]
=============================================================================
