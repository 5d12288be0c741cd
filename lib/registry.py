"""Public functions documented as numeric: argument ranges for property C25."""
import numpy as np
import pandas as pd
from pvlib import albedo, atmosphere, clearsky, iam, irradiance, inverter, pvarray, pvsystem, shading, singlediode, snow, solarposition, spectrum, temperature, tracking, transformer, tools
from pvlib.bifacial import utils, infinite_sheds, loss_models

# argument: (low, high, special values...)
R = {
    'solar_zenith': (0, 120, 0, 90, 87), 'zenith': (0, 120, 0, 90, 88), 'apparent_zenith': (0, 120, 0, 90), 'solar_azimuth': (0, 360, 0, 180, 360),
    'surface_tilt': (0, 180, 0, 90, 180), 'surface_azimuth': (0, 360, 0, 180), 'aoi': (-10, 180, 0, 90), 'solar_elevation': (-20, 90, 0),
    'ghi': (0, 1300, 0), 'dhi': (0, 500, 0), 'dni': (0, 1100, 0), 'dni_extra': (1300, 1420), 'dni_clear': (0, 1100, 0), 'ghi_clear': (0, 1200, 0),
    'poa_global': (0, 1300, 0), 'poa_direct': (0, 1100, 0), 'poa_diffuse': (0, 500, 0), 'poa_sky_diffuse': (0, 400, 0), 'poa_ground_diffuse': (0, 200, 0),
    'airmass': (1, 12), 'airmass_relative': (1, 30), 'airmass_absolute': (.6, 12), 'relative_airmass': (1, 12), 'pressure': (50000, 105000), 'altitude': (-100, 8000),
    'precipitable_water': (.05, 9), 'aod380': (.01, .6), 'aod500': (.01, .6), 'aod700': (.01, .6), 'aod_bb': (.01, .5), 'ozone': (.2, .5), 'linke_turbidity': (1.5, 7),
    'albedo': (0, .9, 0), 'temp_air': (-30, 50), 'temp_dew': (-30, 40), 'relative_humidity': (5, 100), 'wind_speed': (0, 20, 0), 'temp_cell': (-20, 80, 25), 'temp_mod': (-20, 80),
    'effective_irradiance': (0, 1300, 0), 'doy': (1, 366), 'dayofyear': (1, 366), 'clearness_index': (0, 1.5, 0), 'clearsky_index': (.01, 1.5),
    'photocurrent': (5, 10), 'saturation_current': (1e-10, 1e-8), 'resistance_series': (.05, .6), 'resistance_shunt': (50, 2000), 'nNsVth': (1.0, 2.5),
    'voltage': (0, 20, 0), 'current': (-1, 9, 0), 'diode_voltage': (-3, 45), 'v_dc': (0, 700, 0), 'p_dc': (0, 400, 0), 'pdc': (0, 400, 0),
    'snow_coverage': (0, 1, 0, 1), 'gcr': (.1, .9), 'slant_height': (0, 1, 0), 'masking_angle': (0, 80, 0), 'measured': (0, 1000),
    'axis_tilt': (0, 60, 0), 'axis_azimuth': (0, 360, 180), 'tracker_theta': (-90, 90, 0), 'poa': (0, 1300, 0), 'rotation': (-80, 80, 0),
}
SDM = ['photocurrent', 'saturation_current', 'resistance_series', 'resistance_shunt', 'nNsVth']
SAPM = dict(C4=.99, C5=.01, Aisc=.0005, Bvoco=-.13, Mbvoc=0., Bvmpo=-.13, Mbvmp=0., N=1.17, Cells_in_Series=60, IXO=8.5, IXXO=5.8, FD=.9, C0=1.01, C1=-.01, C2=.19, C3=-8.,
            C6=1.1, C7=-.1, Isco=9., Impo=8.4, Voco=37., Vmpo=30., Aimp=.0002, A0=.93, A1=.06, A2=-.008, A3=.0004, A4=-7e-6, B0=1., B1=-.002, B2=.0003, B3=-1e-5, B4=2e-7, B5=-1e-9)
DES = dict(alpha_sc=.004, a_ref=1.6, I_L_ref=8.9, I_o_ref=1e-9, R_sh_ref=300., R_s=.3)
SANDIA = dict(Paco=300., Pdco=312., Vdco=400., Pso=2., C0=-2e-5, C1=-3e-5, C2=-1e-3, C3=-4e-4, Pnt=.1)
ADR = dict(Pacmax=300., Pnom=315., Vnom=400., Vmin=200., Vmax=600., Vdcmax=650., MPPTHi=600., MPPTLow=200., Pnt=.1, ADRCoefficients=[.01, 1e-4, -1e-4, .02, 1e-3, 1e-4, .01, 1e-3, 1e-4])
T3 = None
REG = {}


def add(f, args, kw=None, name=None, **o):
    """args: names, or {name: range}; o: tol, cols, plain (returns arrays for Series), scalar=False (no scalar form),
    mixed (arguments that may be scalar while others are arrays), series=False, nan (arguments that may be NaN)"""
    a = {x: R[x] for x in args} if not isinstance(args, dict) else {x: (R[x] if v is None else R[v] if isinstance(v, str) else v) for x, v in args.items()}
    n = name or f.__module__.split('.')[-1] + '.' + f.__name__
    assert n not in REG, n
    REG[n] = dict(f=f, args=a, kw=kw or {}, **o)


def L(s):
    return s.split()


add(albedo.inland_water_dvoracek, ['solar_elevation'], dict(surface_condition='clear_water_no_waves'))
add(atmosphere.alt2pres, ['altitude'])
add(atmosphere.pres2alt, ['pressure'])
add(atmosphere.angstrom_alpha, dict(aod1='aod500', aod2='aod700'), dict(lambda1=500., lambda2=700.))
add(atmosphere.angstrom_aod_at_lambda, dict(aod0='aod500', alpha=(.5, 2)), dict(lambda0=500.))
add(atmosphere.bird_hulstrom80_aod_bb, L('aod380 aod500'))
add(atmosphere.get_absolute_airmass, L('airmass_relative pressure'))
for m in 'simple kasten1966 youngirvine1967 kastenyoung1989 gueymard1993 young1994 pickering2002 gueymard2003'.split():
    add(atmosphere.get_relative_airmass, ['zenith'], dict(model=m), name='get_relative_airmass.' + m)
add(atmosphere.gueymard94_pw, L('temp_air relative_humidity'))
add(atmosphere.kasten96_lt, L('airmass_absolute precipitable_water aod_bb'))
add(atmosphere.rh_from_tdew, L('temp_air temp_dew'))
add(atmosphere.tdew_from_rh, L('temp_air relative_humidity'))
add(atmosphere.windspeed_powerlaw, dict(wind_speed_reference='wind_speed'), dict(height_reference=10, height_desired=3, exponent=.2))
add(clearsky.bird, L('zenith airmass_relative aod380 aod500 precipitable_water ozone pressure dni_extra albedo'))
add(clearsky.haurwitz, ['apparent_zenith'], scalar=False, array=False)
add(clearsky.ineichen, dict(apparent_zenith=None, airmass_absolute=None, linke_turbidity=None, dni_extra=None), dict(altitude=500, perez_enhancement=False))
add(clearsky.ineichen, dict(apparent_zenith=None, airmass_absolute=None, linke_turbidity=None, dni_extra=None), dict(altitude=500, perez_enhancement=True), name='clearsky.ineichen_perez')
add(clearsky.simplified_solis, dict(apparent_elevation='solar_elevation', aod700=None, precipitable_water=None, pressure=None, dni_extra=None))
add(iam.ashrae, ['aoi'])
add(iam.martin_ruiz, ['aoi'])
add(iam.martin_ruiz_diffuse, ['surface_tilt'])
add(iam.physical, ['aoi'])
add(iam.physical, ['aoi'], dict(n_ar=1.3), name='iam.physical_ar')
add(iam.schlick, ['aoi'])
add(iam.schlick_diffuse, dict(surface_tilt=(0, 179.5, 0, 90)))
add(iam.sapm, ['aoi'], dict(module=SAPM))
add(iam.interp, ['aoi'], dict(theta_ref=[0, 30, 60, 90], iam_ref=[1, .98, .8, 0.]))
for m in 'ashrae physical martin_ruiz sapm schlick'.split():
    add(iam.marion_diffuse, dict(surface_tilt=(0, 90, 0, 90)), dict(model=m, **({'module': SAPM} if m == 'sapm' else {})), name='iam.marion_diffuse_' + m)
PL = L('surface_tilt surface_azimuth solar_zenith solar_azimuth')
add(irradiance.aoi, PL)
add(irradiance.aoi_projection, PL)
add(irradiance.beam_component, PL + ['dni'])
add(irradiance.boland, dict(ghi=None, solar_zenith=None, datetime_or_doy='doy'))
add(irradiance.erbs, dict(ghi=None, zenith=None, datetime_or_doy='doy'))
add(irradiance.erbs_driesse, dict(ghi=None, zenith=None, datetime_or_doy='doy'))
add(irradiance.erbs_driesse, dict(ghi=None, zenith=None, dni_extra=None), name='irradiance.erbs_driesse_extra')
add(irradiance.orgill_hollands, dict(ghi=None, zenith=None, datetime_or_doy='doy'))
add(irradiance.louche, dict(ghi=None, solar_zenith=None, datetime_or_doy='doy'))
add(irradiance.disc, dict(ghi=None, solar_zenith=None, datetime_or_doy='doy', pressure=None))
add(irradiance.campbell_norman, dict(zenith=None, transmittance=(.3, .8), pressure=None, dni_extra=None))
add(irradiance.clearness_index, dict(ghi=None, solar_zenith=None, extra_radiation='dni_extra'))
add(irradiance.clearness_index_zenith_independent, L('clearness_index airmass'))
add(irradiance.clearsky_index, L('ghi ghi_clear'))
add(irradiance.diffuse_par_spitters, dict(daily_solar_zenith=(0, 89.9, 0), global_diffuse_fraction=(0, 1, 0)))
add(irradiance.dni, L('ghi dhi zenith dni_clear'), scalar=False, array=False)
add(irradiance.get_extra_radiation, dict(datetime_or_doy='doy'), dict(method='spencer'), name='get_extra_radiation.spencer')
add(irradiance.get_extra_radiation, dict(datetime_or_doy='doy'), dict(method='asce'), name='get_extra_radiation.asce')
add(irradiance.get_ground_diffuse, L('surface_tilt ghi albedo'))
SK = PL + L('dni ghi dhi dni_extra airmass')
for m in 'isotropic klucher haydavies reindl king perez perez-driesse'.split():
    add(irradiance.get_sky_diffuse, SK, dict(model=m), name='get_sky_diffuse.' + m)
    add(irradiance.get_total_irradiance, SK + ['albedo'], dict(model=m), name='get_total_irradiance.' + m)
add(irradiance.isotropic, L('surface_tilt dhi'))
add(irradiance.king, L('surface_tilt dhi ghi solar_zenith'))
add(irradiance.klucher, L('surface_tilt surface_azimuth dhi ghi solar_zenith solar_azimuth'))
HD = L('surface_tilt surface_azimuth dhi dni dni_extra solar_zenith solar_azimuth')
for comp in (False, True):
    s = '_components' if comp else ''
    k = dict(return_components=comp)
    add(irradiance.haydavies, HD, k, name='irradiance.haydavies' + s)
    add(irradiance.reindl, HD + ['ghi'], k, name='irradiance.reindl' + s)
    add(irradiance.perez, HD + ['airmass'], k, name='irradiance.perez' + s)
    add(irradiance.perez_driesse, HD + ['airmass'], k, name='irradiance.perez_driesse' + s)
add(irradiance.perez_driesse, HD, name='irradiance.perez_driesse_noam')
add(irradiance.poa_components, L('aoi dni poa_sky_diffuse poa_ground_diffuse'))
add(irradiance.ghi_from_poa_driesse_2023, PL + L('poa_global dni_extra albedo'), tol=2e-2)
add(irradiance.complete_irradiance, L('solar_zenith ghi dhi'), name='complete_irradiance.dni', scalar=False, array=False)
add(irradiance.complete_irradiance, L('solar_zenith dni dhi'), name='complete_irradiance.ghi', scalar=False, array=False)
add(irradiance.complete_irradiance, L('solar_zenith ghi dni'), name='complete_irradiance.dhi', scalar=False, array=False)
add(inverter.sandia, L('v_dc p_dc'), dict(inverter=SANDIA))
add(inverter.adr, L('v_dc p_dc'), dict(inverter=ADR))
add(inverter.pvwatts, ['pdc'], dict(pdc0=300.))
add(pvarray.pvefficiency_adr, dict(effective_irradiance=(1, 1300), temp_cell=None), dict(k_a=1., k_d=-6., tc_d=.02, k_rs=.05, k_rsh=.1))
add(pvarray.huld, dict(effective_irradiance=None, temp_mod=None), dict(pdc0=300., cell_type='csi'))
add(pvarray.batzelis, dict(effective_irradiance=(0, 1300), temp_cell=None), dict(v_mp=30., i_mp=8.4, v_oc=37., i_sc=9., alpha_sc=.004, beta_voc=-.12))
add(pvsystem.calcparams_desoto, L('effective_irradiance temp_cell'), DES)
add(pvsystem.calcparams_cec, L('effective_irradiance temp_cell'), dict(DES, Adjust=10.))
add(pvsystem.calcparams_pvsyst, L('effective_irradiance temp_cell'), dict(alpha_sc=.004, gamma_ref=1.05, mu_gamma=-.0003, I_L_ref=8.9, I_o_ref=1e-9, R_sh_ref=300., R_sh_0=1000., R_s=.3, cells_in_series=60))
add(pvsystem.dc_ohmic_losses, dict(current='photocurrent'), dict(resistance=.1))
add(pvsystem.pvwatts_dc, L('effective_irradiance temp_cell'), dict(pdc0=300., gamma_pdc=-.004))
add(pvsystem.pvwatts_dc, L('effective_irradiance temp_cell'), dict(pdc0=300., gamma_pdc=-.004, k=.01), name='pvsystem.pvwatts_dc_k')
add(pvsystem.sapm, L('effective_irradiance temp_cell'), dict(module=SAPM))
add(pvsystem.sapm_effective_irradiance, L('poa_direct poa_diffuse airmass_absolute aoi'), dict(module=SAPM))
for m in ('lambertw', 'newton', 'brentq', 'chandrupatla'):
    t = 1e-9 if m == 'lambertw' else 1e-5
    o = dict(tol=t, sdm=m)
    add(pvsystem.i_from_v, ['voltage'] + SDM, dict(method=m), name='pvsystem.i_from_v_' + m, **o)
    add(pvsystem.v_from_i, dict(current=(0, 4.5, 0), **{x: None for x in SDM}), dict(method=m), name='pvsystem.v_from_i_' + m, **o)
    add(pvsystem.singlediode, SDM, dict(method=m), name='pvsystem.singlediode_' + m, **o)
    if m != 'lambertw':
        add(pvsystem.max_power_point, SDM, dict(method=m), name='pvsystem.max_power_point_' + m, **o)
        add(singlediode.bishop88_mpp, SDM, dict(method=m), name='singlediode.bishop88_mpp_' + m, **o)
add(singlediode.bishop88, ['diode_voltage'] + SDM, dict(gradients=True))
add(singlediode.bishop88, ['diode_voltage'] + SDM, dict(breakdown_factor=1e-4), name='singlediode.bishop88_breakdown')
add(singlediode.estimate_voc, L('photocurrent saturation_current nNsVth'))
add(singlediode.batzelis, SDM)
add(shading.ground_angle, L('surface_tilt gcr slant_height'))
add(shading.masking_angle, dict(surface_tilt=(0, 90, 0), slant_height=None), dict(gcr=.4))
add(shading.masking_angle_passias, dict(surface_tilt=(0, 90, 0)), dict(gcr=.4))
add(shading.sky_diffuse_passias, ['masking_angle'])
add(shading.projected_solar_zenith_angle, L('solar_zenith solar_azimuth axis_tilt axis_azimuth'))
add(shading.shaded_fraction1d, dict(solar_zenith=(0, 89, 0), solar_azimuth=None, axis_azimuth=None, shaded_row_rotation='rotation', axis_tilt=None), dict(collector_width=2., pitch=5.))
add(shading.direct_martinez, L('poa_global poa_direct') + [], dict(shaded_fraction=.3, shaded_blocks=2, total_blocks=6))
add(shading.direct_martinez, dict(poa_global=None, poa_direct=None, shaded_fraction=(0, 1, 0), shaded_blocks=(0, 6, 0)), dict(total_blocks=6), name='shading.direct_martinez_all')
add(snow.dc_loss_nrel, ['snow_coverage'], dict(num_strings=4))
add(solarposition.declination_cooper69, ['dayofyear'])
add(solarposition.declination_spencer71, ['dayofyear'])
add(solarposition.equation_of_time_pvcdrom, ['dayofyear'])
add(solarposition.equation_of_time_spencer71, ['dayofyear'])
add(solarposition.solar_azimuth_analytical, dict(latitude=(-1.5, 1.5), hourangle=(-3, 3), declination=(-.4, .4), zenith=(.1, 3)))
add(solarposition.solar_zenith_analytical, dict(latitude=(-1.5, 1.5), hourangle=(-3, 3), declination=(-.4, .4)))
add(spectrum.spectral_factor_caballero, L('precipitable_water airmass_absolute aod500'), dict(module_type='multisi'))
add(spectrum.spectral_factor_firstsolar, L('precipitable_water airmass_absolute'), dict(module_type='cdte'))
add(spectrum.spectral_factor_jrc, L('airmass clearsky_index'), dict(module_type='cdte'))
add(spectrum.spectral_factor_polo, L('precipitable_water airmass_absolute aod500 aoi pressure'), dict(module_type='cdte'))
add(spectrum.spectral_factor_pvspec, L('airmass_absolute clearsky_index'), dict(module_type='multisi'))
add(spectrum.spectral_factor_sapm, ['airmass_absolute'], dict(module=SAPM))
W3 = L('poa_global temp_air wind_speed')
add(temperature.faiman, W3)
add(temperature.faiman_rad, dict(poa_global=None, temp_air=None, wind_speed=None, ir_down=(150, 450)))
add(temperature.generic_linear, W3, dict(u_const=11., du_wind=3., module_efficiency=.18, absorptance=.9))
add(temperature.noct_sam, dict(poa_global=(1, 1300), temp_air=None, wind_speed=None, effective_irradiance=(1, 1300)), dict(noct=45., module_efficiency=.18))
add(temperature.noct_sam, W3, dict(noct=45., module_efficiency=.18), name='temperature.noct_sam_plain')
add(temperature.pvsyst_cell, W3)
add(temperature.ross, L('poa_global temp_air'), dict(noct=45.))
add(temperature.sapm_cell, W3, dict(a=-3.5, b=-.06, deltaT=3.))
add(temperature.sapm_cell_from_module, dict(module_temperature='temp_mod', poa_global=None), dict(deltaT=3.))
add(temperature.sapm_module, W3, dict(a=-3.5, b=-.06))
add(tracking.singleaxis, L('apparent_zenith solar_azimuth'), dict(axis_tilt=10, axis_azimuth=170, max_angle=60, gcr=.4))
add(tracking.singleaxis, L('apparent_zenith solar_azimuth'), dict(axis_tilt=0, axis_azimuth=180, max_angle=55, backtrack=False), name='tracking.singleaxis_true')
add(tracking.singleaxis, dict(apparent_zenith=None, solar_azimuth=None), dict(axis_tilt=5, axis_azimuth=190, max_angle=(-70, 40), gcr=.5, cross_axis_tilt=4), name='tracking.singleaxis_slope')
add(tracking.calc_surface_orientation, ['tracker_theta'], dict(axis_tilt=10, axis_azimuth=170))


add(transformer.simple_efficiency, dict(input_power=(10, 900)), dict(no_load_loss=.002, load_loss=.01, transformer_rating=1000.))
add(utils.vf_row_sky_2d, dict(surface_tilt=None), dict(gcr=.4, x=.3))
add(utils.vf_row_ground_2d, dict(surface_tilt=None), dict(gcr=.4, x=.3))
add(utils.vf_row_sky_2d_integ, dict(surface_tilt=None), dict(gcr=.4))
add(infinite_sheds.get_irradiance_poa, dict(surface_tilt=(0, 90, 0), surface_azimuth=None, solar_zenith=(0, 89), solar_azimuth=None, ghi=None, dhi=None, dni=None, albedo=None), dict(gcr=.4, height=2., pitch=5.))
add(infinite_sheds.get_irradiance, dict(surface_tilt=(0, 90, 0), surface_azimuth=None, solar_zenith=(0, 89), solar_azimuth=None, ghi=None, dhi=None, dni=None, albedo=None), dict(gcr=.4, height=2., pitch=5.))
add(loss_models.power_mismatch_deline, dict(rmad=(0, .3, 0)))
for n in 'acosd asind atand'.split():
    add(getattr(tools, n), dict(number=(-1, 1, 0)))
for n in 'cosd sind tand'.split():
    add(getattr(tools, n), dict(angle=(-89, 89, 0)))

for n in REG:
    if n.split('.')[1] in ('boland', 'erbs', 'orgill_hollands', 'louche', 'disc', 'spencer', 'asce', 'solar_azimuth_analytical', 'vf_row_sky_2d_integ') \
            or '_from_' in n and 'system' in n or n == 'singlediode.bishop88_mpp_newton':
        REG[n]['plain'] = True      # documented as returning arrays
    if n.split('.')[1] in ('adr', 'sandia', 'sandia_multi', 'get_irradiance', 'dni') or 'singleaxis' in n or n.startswith('infinite_sheds'):
        REG[n]['nomixed'] = True    # scalars and arrays together are not documented
