----------------------------- MODULE WebTables -----------------------------
(* Names, addresses and units of the services pvlib reads.                  *)
EXTENDS R64, Integers, Sequences
KindOf(f) ==
  CASE f = "get_merra2" -> "many" [] f = "get_solaranywhere" -> "job" [] f = "get_era5" -> "job2" [] f = "get_bsrn" -> "ftp"
    [] f \in {"get_surfrad", "get_solrad", "get_srml"} -> "files" [] OTHER -> "single"
Acis == {"get_acis_prism", "get_acis_nrcc", "get_acis_mpe", "get_acis_station_data"}
Meteonorm == {"get_meteonorm_forecast_basic", "get_meteonorm_forecast_precision", "get_meteonorm_observation_realtime", "get_meteonorm_observation_training", "get_meteonorm_tmy"}
Solcast == {"get_solcast_tmy", "get_solcast_historic", "get_solcast_forecast", "get_solcast_live"}
Psm4 == {"get_nsrdb_psm4_aggregated", "get_nsrdb_psm4_tmy", "get_nsrdb_psm4_conus", "get_nsrdb_psm4_full_disc", "get_nsrdb_psm4_polar", "get_nsrdb_psm4_polar_tmy"}
Home(f) ==
  CASE f \in {"get_acis_prism", "get_acis_nrcc", "get_acis_mpe"} -> "https://data.rcc-acis.org/GridData"
    [] f = "get_acis_station_data" -> "https://data.rcc-acis.org/StnData"
    [] f = "get_acis_available_stations" -> "https://data.rcc-acis.org/StnMeta"
    [] f \in Meteonorm -> "https://api.meteonorm.com/v1/"
    [] f = "get_solargis" -> "https://solargis.info/ws/rest/datadelivery/request"
    [] f = "get_nasa_power" -> "https://power.larc.nasa.gov/api/temporal/hourly/point"
    [] f \in Solcast -> "https://api.solcast.com.au/data/"
    [] f = "get_era5" -> "https://cds.climate.copernicus.eu/api/retrieve/v1/"
    [] f = "get_solaranywhere" -> "https://service.solaranywhere.com/api/v2"
    [] f \in Psm4 -> "https://developer.nlr.gov/api/nsrdb/v2/solar/"
    [] f \in {"get_pvgis_hourly", "get_pvgis_tmy", "get_pvgis_horizon"} -> "https://re.jrc.ec.europa.eu/api/"
    [] f = "get_cams" -> "api.soda-solardata.com"
    [] f = "read_midc_raw_data_from_nrel" -> "https://midcdmz.nlr.gov/apps/data_api.pl"
    [] f = "get_surfrad" -> "https://gml.noaa.gov/aftp/data/radiation/surfrad/"
    [] f = "get_solrad" -> "https://gml.noaa.gov/aftp/data/radiation/solrad/"
    [] f = "get_srml" -> "http://solardata.uoregon.edu/download/Archive/"
    [] f = "get_bsrn" -> "ftp.bsrn.awi.de"
    [] OTHER -> ""
EndPoint(f) ==
  CASE f = "get_meteonorm_forecast_basic" -> "forecast/basic" [] f = "get_meteonorm_forecast_precision" -> "forecast/precision"
    [] f = "get_meteonorm_observation_realtime" -> "observation/realtime" [] f = "get_meteonorm_observation_training" -> "observation/training"
    [] f = "get_meteonorm_tmy" -> "climate/tmy"
    [] f = "get_solcast_tmy" -> "tmy/radiation_and_weather" [] f = "get_solcast_historic" -> "historic/radiation_and_weather"
    [] f = "get_solcast_forecast" -> "forecast/radiation_and_weather" [] f = "get_solcast_live" -> "live/radiation_and_weather"
    [] f = "get_nsrdb_psm4_aggregated" -> "nsrdb-GOES-aggregated-v4-0-0-download.csv" [] f = "get_nsrdb_psm4_tmy" -> "nsrdb-GOES-tmy-v4-0-0-download.csv"
    [] f = "get_nsrdb_psm4_conus" -> "nsrdb-GOES-conus-v4-0-0-download.csv" [] f = "get_nsrdb_psm4_full_disc" -> "nsrdb-GOES-full-disc-v4-0-0-download.csv"
    [] f = "get_nsrdb_psm4_polar" -> "nsrdb-polar-v4-0-0-download.csv" [] f = "get_nsrdb_psm4_polar_tmy" -> "nsrdb-polar-tmy-v4-0-0-download.csv"
    [] f = "get_pvgis_hourly" -> "seriescalc" [] f = "get_pvgis_tmy" -> "tmy" [] f = "get_pvgis_horizon" -> "printhorizon"
    [] OTHER -> ""
\* services whose url argument replaces the whole address, and those where it is the base
Whole(f) == f \in Psm4 \cup Acis \cup {"get_acis_available_stations", "get_solargis", "get_nasa_power"}
Address(f, url) == IF url # "" /\ Whole(f) THEN url ELSE (IF url = "" THEN Home(f) ELSE url) \o EndPoint(f)
\* ---- service name |-> pvlib name
AcisMap == << <<"pcpn", "precipitation">>, <<"maxt", "temp_air_max">>, <<"avgt", "temp_air_average">>, <<"obst", "temp_air_observation">>, <<"mint", "temp_air_min">>,
              <<"cdd", "cooling_degree_days">>, <<"hdd", "heating_degree_days">>, <<"gdd", "growing_degree_days">>, <<"snow", "snowfall">>, <<"snwd", "snowdepth">> >>
MeteoMap == << <<"global_horizontal_irradiance", "ghi">>, <<"diffuse_horizontal_irradiance", "dhi">>, <<"direct_normal_irradiance", "dni">>, <<"direct_horizontal_irradiance", "bhi">>,
               <<"global_clear_sky_irradiance", "ghi_clear">>, <<"diffuse_clear_sky_irradiance", "dhi_clear">>, <<"direct_normal_clear_sky_irradiance", "dni_clear">>, <<"direct_horizontal_clear_sky_irradiance", "bhi_clear">>,
               <<"diffuse_tilted_irradiance", "poa_diffuse">>, <<"direct_tilted_irradiance", "poa_direct">>, <<"global_tilted_irradiance", "poa">>, <<"temperature", "temp_air">>, <<"dew_point_temperature", "temp_dew">> >>
SolargisMap == << <<"GHI", "ghi">>, <<"GHI_C", "ghi_clear">>, <<"GHIc", "ghi_clear">>, <<"DNI", "dni">>, <<"DNI_C", "dni_clear">>, <<"DNIc", "dni_clear">>, <<"DIF", "dhi">>, <<"GTI", "poa_global">>,
                  <<"GTI_C", "poa_global_clear">>, <<"GTIc", "poa_global_clear">>, <<"SE", "solar_elevation">>, <<"SA", "solar_azimuth">>, <<"TEMP", "temp_air">>, <<"TD", "temp_dew">>, <<"AP", "pressure">>,
                  <<"RH", "relative_humidity">>, <<"WS", "wind_speed">>, <<"WD", "wind_direction">>, <<"INC", "aoi">>, <<"PWAT", "precipitable_water">> >>
NasaMap == << <<"ALLSKY_SFC_SW_DWN", "ghi">>, <<"ALLSKY_SFC_SW_DIFF", "dhi">>, <<"ALLSKY_SFC_SW_DNI", "dni">>, <<"ALLSKY_SRF_ALB", "albedo">>, <<"ALLSKY_SFC_LW_DWN", "longwave_down">>,
              <<"CLRSKY_SFC_SW_DIFF", "dhi_clear">>, <<"CLRSKY_SFC_SW_DNI", "dni_clear">>, <<"CLRSKY_SFC_SW_DWN", "ghi_clear">>, <<"PS", "pressure">>, <<"RH2M", "relative_humidity">>, <<"T2M", "temp_air">>,
              <<"T2MDEW", "temp_dew">>, <<"TQV", "precipitable_water">>, <<"TOA_SW_DWN", "ghi_extra">>, <<"WS2M", "wind_speed_2m">>, <<"WS10M", "wind_speed">> >>
SolcastMap == << <<"air_temp", "temp_air">>, <<"surface_pressure", "pressure">>, <<"dewpoint_temp", "temp_dew">>, <<"gti", "poa_global">>, <<"wind_speed_10m", "wind_speed">>, <<"wind_direction_10m", "wind_direction">>,
                 <<"azimuth", "solar_azimuth">>, <<"precipitable_water", "precipitable_water">>, <<"zenith", "solar_zenith">>, <<"clearsky_dhi", "dhi_clear">>, <<"clearsky_dni", "dni_clear">>, <<"clearsky_ghi", "ghi_clear">>,
                 <<"clearsky_gti", "poa_global_clear">> >>
MerraMap == << <<"SWGDN", "ghi">>, <<"SWGDNCLR", "ghi_clear">>, <<"ALBEDO", "albedo">>, <<"LWGNT", "longwave_net">>, <<"LWGAB", "longwave_down">>, <<"T2M", "temp_air">>, <<"PS", "pressure">>, <<"TOTEXTTAU", "aod550">>, <<"TQV", "precipitable_water">> >>
Era5Map == << <<"d2m", "temp_dew">>, <<"t2m", "temp_air">>, <<"sp", "pressure">>, <<"ssrd", "ghi">>, <<"fdir", "bhi">>, <<"tp", "precipitation">>, <<"strd", "longwave_down">> >>
Era5Ask == << <<"2m_dewpoint_temperature", "temp_dew">>, <<"2m_temperature", "temp_air">>, <<"surface_pressure", "pressure">>, <<"surface_solar_radiation_downwards", "ghi">>,
              <<"total_sky_direct_solar_radiation_at_surface", "bhi">>, <<"total_precipitation", "precipitation">>, <<"surface_thermal_radiation_downwards", "longwave_down">> >>
SaMap == << <<"GlobalHorizontalIrradiance_WattsPerMeterSquared", "ghi">>, <<"DirectNormalIrradiance_WattsPerMeterSquared", "dni">>, <<"DiffuseHorizontalIrradiance_WattsPerMeterSquared", "dhi">>, <<"AmbientTemperature_DegreesC", "temp_air">>,
            <<"WindSpeed_MetersPerSecond", "wind_speed">>, <<"RelativeHumidity_Percent", "relative_humidity">>, <<"ClearSkyGHI_WattsPerMeterSquared", "ghi_clear">>, <<"ClearSkyDNI_WattsPerMeterSquared", "dni_clear">>,
            <<"ClearSkyDHI_WattsPerMeterSquared", "dhi_clear">>, <<"Albedo_Unitless", "albedo">> >>
Psm4Ask == << <<"clearsky_ghi", "ghi_clear">>, <<"clearsky_dhi", "dhi_clear">>, <<"clearsky_dni", "dni_clear">>, <<"solar_zenith_angle", "solar_zenith">>, <<"air_temperature", "temp_air">>, <<"dew_point", "temp_dew">>,
              <<"surface_pressure", "pressure">>, <<"surface_albedo", "albedo">>, <<"total_precipitable_water", "precipitable_water">> >>
MapOf(f) == CASE f \in Acis -> AcisMap [] f \in Meteonorm -> MeteoMap [] f = "get_solargis" -> SolargisMap [] f = "get_nasa_power" -> NasaMap [] f \in Solcast -> SolcastMap
              [] f = "get_merra2" -> MerraMap [] f = "get_era5" -> Era5Map [] f = "get_solaranywhere" -> SaMap [] OTHER -> <<>>
AskOf(f) == CASE f \in Psm4 -> Psm4Ask [] f = "get_era5" -> Era5Ask [] f \in {"get_nasa_power"} \cup Meteonorm -> MapOf(f) [] OTHER -> <<>>
There(M, n) == LET h == {i \in 1..Len(M) : M[i][1] = n} IN IF h = {} THEN n ELSE M[CHOOSE i \in h : TRUE][2]
Back(M, n) == LET h == {i \in 1..Len(M) : M[i][2] = n} IN IF h = {} THEN n ELSE M[CHOOSE i \in h : TRUE][1]
\* ---- missing markers and units
Nine == {"GHI", "GHIc", "DNI", "DNIc", "DIF", "GTI", "KT", "PAR", "PREC", "PWAT", "SDWE", "SFWE"}
Eq(x, y) == RIsNum(x) /\ RIsNum(y) /\ REq(x, y)
Gone(f, n, x, fill) ==
  CASE f \in Acis \ {"get_acis_station_data"} -> Eq(x, "-999")
    [] f = "get_acis_station_data" -> x = "M"
    [] f = "get_solargis" -> n \in Nine /\ Eq(x, "-9")
    [] f \in {"get_nasa_power", "get_merra2"} -> Eq(x, fill)
    [] OTHER -> x = "null"
Unit(f, n, x) ==
  CASE f = "get_solargis" -> (CASE n = "SA" -> RAdd(x, "180") [] n = "AP" -> RMul(x, "100") [] n = "PWAT" -> RDiv(x, "10") [] OTHER -> x)
    [] f = "get_nasa_power" -> (CASE n = "PS" -> RMul(x, "1000") [] n = "TQV" -> RDiv(x, "10") [] OTHER -> x)
    [] f \in Solcast -> (CASE n = "surface_pressure" -> RMul(x, "100") [] n = "azimuth" -> RMod(RNeg(x), "360") [] n = "precipitable_water" -> RDiv(x, "10") [] OTHER -> x)
    [] f = "get_merra2" -> IF n = "T2M" THEN RSub(x, "273.15") ELSE x
    [] f = "get_era5" -> (CASE n \in {"d2m", "t2m", "sst", "skt"} -> RSub(x, "273.15") [] n \in {"ssrd", "fdir", "strd"} -> RDiv(x, "3600") [] n = "tp" -> RMul(x, "100") [] OTHER -> x)
    [] OTHER -> x
=============================================================================
