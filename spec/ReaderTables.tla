---------------------------- MODULE ReaderTables ----------------------------
(* Column names of each file format and the pvlib names they are documented to map to. *)
Names(f) ==
  CASE f = "tmy3" -> <<"ETR (W/m^2)", "GHI (W/m^2)", "GHI source", "DNI (W/m^2)", "DHI (W/m^2)", "ETRN (W/m^2)", "Dry-bulb (C)", "Dew-point (C)", "RHum (%)", "Pressure (mbar)", "Wdir (degrees)", "Wspd (m/s)", "Alb (unitless)", "Pwat (cm)">>
    [] f = "tmy2" -> <<"year", "month", "day", "hour", "ETR", "ETRN", "GHI", "GHISource", "GHIUncertainty", "DNI", "DNISource", "DNIUncertainty", "DHI", "DHISource", "DHIUncertainty", "GHillum", "GHillumSource", "GHillumUncertainty", "DNillum", "DNillumSource", "DNillumUncertainty", "DHillum", "DHillumSource", "DHillumUncertainty", "Zenithlum", "ZenithlumSource", "ZenithlumUncertainty", "TotCld", "TotCldSource", "TotCldUncertainty", "OpqCld", "OpqCldSource", "OpqCldUncertainty", "DryBulb", "DryBulbSource", "DryBulbUncertainty", "DewPoint", "DewPointSource", "DewPointUncertainty", "RHum", "RHumSource", "RHumUncertainty", "Pressure", "PressureSource", "PressureUncertainty", "Wdir", "WdirSource", "WdirUncertainty", "Wspd", "WspdSource", "WspdUncertainty", "Hvis", "HvisSource", "HvisUncertainty", "CeilHgt", "CeilHgtSource", "CeilHgtUncertainty", "PresentWeather", "Pwat", "PwatSource", "PwatUncertainty", "AOD", "AODSource", "AODUncertainty", "SnowDepth", "SnowDepthSource", "SnowDepthUncertainty", "LastSnowfall", "LastSnowfallSource", "LastSnowfallUncertaint">>
    [] f = "epw" -> <<"year", "month", "day", "hour", "minute", "data_source_unct", "temp_air", "temp_dew", "relative_humidity", "atmospheric_pressure", "etr", "etrn", "ghi_infrared", "ghi", "dni", "dhi", "global_hor_illum", "direct_normal_illum", "diffuse_horizontal_illum", "zenith_luminance", "wind_direction", "wind_speed", "total_sky_cover", "opaque_sky_cover", "visibility", "ceiling_height", "present_weather_observation", "present_weather_codes", "precipitable_water", "aerosol_optical_depth", "snow_depth", "days_since_last_snowfall", "albedo", "liquid_precipitation_depth", "liquid_precipitation_quantity">>
    [] f = "surfrad" -> <<"year", "jday", "month", "day", "hour", "minute", "dt", "zen", "dw_solar", "dw_solar_flag", "uw_solar", "uw_solar_flag", "direct_n", "direct_n_flag", "diffuse", "diffuse_flag", "dw_ir", "dw_ir_flag", "dw_casetemp", "dw_casetemp_flag", "dw_dometemp", "dw_dometemp_flag", "uw_ir", "uw_ir_flag", "uw_casetemp", "uw_casetemp_flag", "uw_dometemp", "uw_dometemp_flag", "uvb", "uvb_flag", "par", "par_flag", "netsolar", "netsolar_flag", "netir", "netir_flag", "totalnet", "totalnet_flag", "temp", "temp_flag", "rh", "rh_flag", "windspd", "windspd_flag", "winddir", "winddir_flag", "pressure", "pressure_flag">>
    [] f = "solrad" -> <<"year", "julian_day", "month", "day", "hour", "minute", "decimal_time", "solar_zenith", "ghi", "ghi_flag", "dni", "dni_flag", "dhi", "dhi_flag", "uvb", "uvb_flag", "uvb_temp", "uvb_temp_flag", "std_dw_psp", "std_direct", "std_diffuse", "std_uvb">>
    [] f = "msn" -> <<"year", "julian_day", "month", "day", "hour", "minute", "decimal_time", "solar_zenith", "ghi", "ghi_flag", "dni", "dni_flag", "dhi", "dhi_flag", "uvb", "uvb_flag", "uvb_temp", "uvb_temp_flag", "dpir", "dpir_flag", "dpirc", "dpirc_flag", "dpird", "dpird_flag", "std_dw_psp", "std_direct", "std_diffuse", "std_uvb", "std_dpir", "std_dpirc", "std_dpird">>
    [] f = "crn" -> <<"WBANNO", "UTC_DATE", "UTC_TIME", "LST_DATE", "LST_TIME", "CRX_VN", "LONGITUDE", "LATITUDE", "AIR_TEMPERATURE", "PRECIPITATION", "SOLAR_RADIATION", "SR_FLAG", "SURFACE_TEMPERATURE", "ST_TYPE", "ST_FLAG", "RELATIVE_HUMIDITY", "RH_FLAG", "SOIL_MOISTURE_5", "SOIL_TEMPERATURE_5", "WETNESS", "WET_FLAG", "WIND_1_5", "WIND_FLAG">>
    [] f = "bsrn" -> <<"day", "minute", "ghi", "ghi_std", "ghi_min", "ghi_max", "dni", "dni_std", "dni_min", "dni_max", "empty", "empty", "empty", "empty", "empty", "dhi", "dhi_std", "dhi_min", "dhi_max", "lwd", "lwd_std", "lwd_min", "lwd_max", "temp_air", "relative_humidity", "pressure">>
    [] f = "bsrn3" -> <<"day", "minute", "gri", "gri_std", "gri_min", "gri_max", "lwu", "lwu_std", "lwu_min", "lwu_max", "net_radiation", "net_radiation_std", "net_radiation_min", "net_radiation_max">>
    [] f = "bsrn5" -> <<"day", "minute", "uva_global", "uva_global_std", "uva_global_min", "uva_global_max", "uvb_direct", "uvb_direct_std", "uvb_direct_min", "uvb_direct_max", "empty", "empty", "empty", "empty", "empty", "empty", "uvb_global", "uvb_global_std", "uvb_global_min", "uvb_global_max", "uvb_diffuse", "uvb_diffuse_std", "uvb_diffuse_min", "uvb_diffuse_max", "uvb_reflected", "uvb_reflected_std", "uvb_reflected_min", "uvb_reflected_max">>
    [] f = "psm4" -> <<"Year", "Month", "Day", "Hour", "Minute", "GHI", "DHI", "DNI", "Clearsky GHI", "Clearsky DHI", "Clearsky DNI", "AOD", "GaAs (Bauhuis et al., 2009)", "Temperature", "Dew Point", "Relative Humidity", "Pressure", "Wind Speed", "Wind Direction", "Surface Albedo", "Precipitable Water", "Solar Zenith Angle", "Cloud Type", "Fill Flag">>
    [] f = "pvgis" -> <<"P", "G(i)", "Gb(i)", "Gd(i)", "Gr(i)", "H_sun", "T2m", "WS10m", "Int">>
    [] f = "pvgistmy" -> <<"T2m", "RH", "G(h)", "Gb(n)", "Gd(h)", "IR(h)", "WS10m", "WD10m", "SP">>
    [] f = "cams" -> <<"TOA", "Clear sky GHI", "Clear sky BHI", "Clear sky DHI", "Clear sky BNI", "GHI", "BHI", "DHI", "BNI", "Reliability", "sza", "GHI no corr", "BHI no corr", "DHI no corr", "BNI no corr">>
    [] f = "sa" -> <<"Global Horizontal Irradiance (GHI) W/m2", "Direct Normal Irradiance (DNI) W/m2", "AmbientTemperature (deg C)", "WindSpeed (m/s)", "Relative Humidity (%)", "Clear Sky GHI", "Clear Sky DNI", "Clear Sky DHI", "Diffuse Horizontal Irradiance (DIF) W/m2", "Albedo", "Snow Depth (m)", "DataVersion">>
Mapped(f, n) ==
  CASE f = "tmy3" -> (CASE n = "GHI (W/m^2)" -> "ghi"
        [] n = "ETR (W/m^2)" -> "ghi_extra"
        [] n = "DNI (W/m^2)" -> "dni"
        [] n = "ETRN (W/m^2)" -> "dni_extra"
        [] n = "DHI (W/m^2)" -> "dhi"
        [] n = "Pressure (mbar)" -> "pressure"
        [] n = "Wdir (degrees)" -> "wind_direction"
        [] n = "Wspd (m/s)" -> "wind_speed"
        [] n = "Dry-bulb (C)" -> "temp_air"
        [] n = "Dew-point (C)" -> "temp_dew"
        [] n = "RHum (%)" -> "relative_humidity"
        [] n = "Alb (unitless)" -> "albedo"
        [] n = "Pwat (cm)" -> "precipitable_water" [] OTHER -> n)
    [] f = "surfrad" -> (CASE n = "zen" -> "solar_zenith"
        [] n = "dw_solar" -> "ghi"
        [] n = "dw_solar_flag" -> "ghi_flag"
        [] n = "direct_n" -> "dni"
        [] n = "direct_n_flag" -> "dni_flag"
        [] n = "diffuse" -> "dhi"
        [] n = "diffuse_flag" -> "dhi_flag"
        [] n = "temp" -> "temp_air"
        [] n = "temp_flag" -> "temp_air_flag"
        [] n = "windspd" -> "wind_speed"
        [] n = "windspd_flag" -> "wind_speed_flag"
        [] n = "winddir" -> "wind_direction"
        [] n = "winddir_flag" -> "wind_direction_flag"
        [] n = "rh" -> "relative_humidity"
        [] n = "rh_flag" -> "relative_humidity_flag" [] OTHER -> n)
    [] f = "crn" -> (CASE n = "LONGITUDE" -> "longitude"
        [] n = "LATITUDE" -> "latitude"
        [] n = "AIR_TEMPERATURE" -> "temp_air"
        [] n = "SOLAR_RADIATION" -> "ghi"
        [] n = "SR_FLAG" -> "ghi_flag"
        [] n = "RELATIVE_HUMIDITY" -> "relative_humidity"
        [] n = "RH_FLAG" -> "relative_humidity_flag"
        [] n = "WIND_1_5" -> "wind_speed"
        [] n = "WIND_FLAG" -> "wind_speed_flag" [] OTHER -> n)
    [] f = "psm4" -> (CASE n = "GHI" -> "ghi"
        [] n = "DHI" -> "dhi"
        [] n = "DNI" -> "dni"
        [] n = "Clearsky GHI" -> "ghi_clear"
        [] n = "Clearsky DHI" -> "dhi_clear"
        [] n = "Clearsky DNI" -> "dni_clear"
        [] n = "Solar Zenith Angle" -> "solar_zenith"
        [] n = "Temperature" -> "temp_air"
        [] n = "Dew Point" -> "temp_dew"
        [] n = "Relative Humidity" -> "relative_humidity"
        [] n = "Pressure" -> "pressure"
        [] n = "Wind Speed" -> "wind_speed"
        [] n = "Wind Direction" -> "wind_direction"
        [] n = "Surface Albedo" -> "albedo"
        [] n = "Precipitable Water" -> "precipitable_water"
        [] n = "AOD" -> "aod" [] OTHER -> n)
    [] f = "pvgis" -> (CASE n = "G(i)" -> "poa_global"
        [] n = "Gb(i)" -> "poa_direct"
        [] n = "Gd(i)" -> "poa_sky_diffuse"
        [] n = "Gr(i)" -> "poa_ground_diffuse"
        [] n = "H_sun" -> "solar_elevation"
        [] n = "T2m" -> "temp_air"
        [] n = "WS10m" -> "wind_speed" [] OTHER -> n)
    [] f = "pvgistmy" -> (CASE n = "G(h)" -> "ghi"
        [] n = "Gb(n)" -> "dni"
        [] n = "Gd(h)" -> "dhi"
        [] n = "T2m" -> "temp_air"
        [] n = "RH" -> "relative_humidity"
        [] n = "SP" -> "pressure"
        [] n = "WS10m" -> "wind_speed"
        [] n = "WD10m" -> "wind_direction" [] OTHER -> n)
    [] f = "cams" -> (CASE n = "TOA" -> "ghi_extra"
        [] n = "Clear sky GHI" -> "ghi_clear"
        [] n = "Clear sky BHI" -> "bhi_clear"
        [] n = "Clear sky DHI" -> "dhi_clear"
        [] n = "Clear sky BNI" -> "dni_clear"
        [] n = "GHI" -> "ghi"
        [] n = "BHI" -> "bhi"
        [] n = "DHI" -> "dhi"
        [] n = "BNI" -> "dni"
        [] n = "sza" -> "solar_zenith" [] OTHER -> n)
    [] f = "sa" -> (CASE n = "Global Horizontal Irradiance (GHI) W/m2" -> "ghi"
        [] n = "Direct Normal Irradiance (DNI) W/m2" -> "dni"
        [] n = "Diffuse Horizontal Irradiance (DIF) W/m2" -> "dhi"
        [] n = "AmbientTemperature (deg C)" -> "temp_air"
        [] n = "WindSpeed (m/s)" -> "wind_speed"
        [] n = "Relative Humidity (%)" -> "relative_humidity"
        [] n = "Clear Sky GHI" -> "ghi_clear"
        [] n = "Clear Sky DNI" -> "dni_clear"
        [] n = "Clear Sky DHI" -> "dhi_clear"
        [] n = "Albedo" -> "albedo" [] OTHER -> n)
    [] OTHER -> n
=============================================================================
