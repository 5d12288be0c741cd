---------------------------- MODULE AtmosphereMC ----------------------------
EXTENDS Atmosphere, IOUtils, TLC
VARIABLE c
Zs == {"0", "0.5", "30", "60", "75", "85", "89", "89.9", "90", "90.0001", "120", "NaN"}
Mag == <<"6.112", "17.62", "243.12">>
Mag2 == <<"6.1094", "17.625", "243.04">>
Init ==
  \/ \E p \in {"101325", "90000", "50000", "110000", "1000"} : c = [fn |-> "pres2alt", a |-> [pressure |-> p], k |-> <<>>]
  \/ \E h \in {"0", "-400", "1500", "8848", "20000"} : c = [fn |-> "alt2pres", a |-> [altitude |-> h], k |-> <<>>]
  \/ \E am \in {"1", "1.5", "38", "NaN"}, p \in {"101325", "80000", "d"} : c = [fn |-> "get_absolute_airmass", a |-> IF p = "d" THEN [airmass_relative |-> am] ELSE [airmass_relative |-> am, pressure |-> p], k |-> <<>>]
  \/ \E z \in Zs, m \in AirmassModels \cup {"KastenYoung1989", "nope"} : c = [fn |-> "get_relative_airmass", a |-> [zenith |-> z], k |-> [model |-> m]]
  \/ \E t \in {"-30", "0", "15", "40"}, r \in {"0", "0.1", "20", "60", "100"} :
       \/ c = [fn |-> "gueymard94_pw", a |-> [temp_air |-> t, relative_humidity |-> r], k |-> <<>>]
       \/ \E m \in {Mag, Mag2} : r # "0" /\ c = [fn |-> "tdew_from_rh", a |-> [temp_air |-> t, relative_humidity |-> r], k |-> [coeff |-> m]]
  \/ \E t \in {"-30", "0", "15", "40"}, d \in {"-40", "0", "14.9", "40"}, m \in {Mag, Mag2} : c = [fn |-> "rh_from_tdew", a |-> [temp_air |-> t, temp_dew |-> d], k |-> [coeff |-> m]]
  \/ \E a \in {"0", "0.1", "0.5"}, b \in {"0", "0.08", "0.4"} : c = [fn |-> "bird_hulstrom80_aod_bb", a |-> [aod380 |-> a, aod500 |-> b], k |-> <<>>]
  \/ \E am \in {"1", "1.5", "3", "8"}, w \in {"0.1", "1.5", "5"}, a \in {"0", "0.1", "0.4"} : c = [fn |-> "kasten96_lt", a |-> [airmass_absolute |-> am, precipitable_water |-> w, aod_bb |-> a], k |-> <<>>]
  \/ \E a \in {"0", "0.1", "0.4"}, l \in {"380", "500", "700"}, al \in {"1.14", "0", "2"}, l1 \in {"700", "550"} : c = [fn |-> "angstrom_aod_at_lambda", a |-> [aod0 |-> a, lambda0 |-> l], k |-> [alpha |-> al, lambda1 |-> l1]]
  \/ \E a \in {"0.1", "0.4"}, b \in {"0.05", "0.3"} : c = [fn |-> "angstrom_alpha", a |-> [aod1 |-> a, aod2 |-> b], k |-> [lambda1 |-> "380", lambda2 |-> "700"]]
  \/ \E v \in {"0", "3.5", "20", "-1", "NaN"}, h0 \in {"2", "10"}, h1 \in {"10", "80"}, ex \in {"None", "0.143", "0"}, s \in {"None", "bogus"} \cup DOMAIN Hellmann :
       c = [fn |-> "windspeed_powerlaw", a |-> [wind_speed_reference |-> v], k |-> [height_reference |-> h0, height_desired |-> h1, exponent |-> ex, surface_type |-> s]]
Next == UNCHANGED c
AmOne == (c.fn = "get_relative_airmass" /\ c.a.zenith = "0" /\ c.k.model \in AirmassModels) => RClose(RelAirmass("0", c.k.model), "1", "1e-3", "1e-3")
AmGrows == (c.fn = "get_relative_airmass" /\ c.k.model \in AirmassModels \ {"youngirvine1967"} /\ "1" \preceq c.a.zenith /\ c.a.zenith \prec "89.5") =>
            RelAirmass(c.a.zenith, c.k.model) \prec RelAirmass(c.a.zenith ++ "0.4", c.k.model)
DewInverse == c.fn = "tdew_from_rh" => Near(RhFromTdew(c.a.temp_air, TdewFromRh(c.a.temp_air, c.a.relative_humidity, c.k.coeff), c.k.coeff), c.a.relative_humidity)
AltInverse == c.fn = "alt2pres" => RClose(PresToAlt(AltToPres(c.a.altitude)), c.a.altitude, "1e-4", "0.2")
AodInverse == (c.fn = "angstrom_aod_at_lambda" /\ c.a.aod0 # "0" /\ c.a.lambda0 # c.k.lambda1) =>
   Near(Alpha(c.a.aod0, c.a.lambda0, AodAt(c.a.aod0, c.a.lambda0, c.k.alpha, c.k.lambda1), c.k.lambda1), c.k.alpha)
PwFloor == c.fn = "gueymard94_pw" => "0.1" \preceq Pwat(c.a.temp_air, c.a.relative_humidity)
Emit == VEmit(IOEnv.VOUT, c)
=============================================================================
