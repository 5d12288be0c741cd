"""Calls whose arguments are containers the caller keeps: dicts, lists, tuples, Series, DataFrames, arrays.

LENT[name] = (call, make): make(rng, v) builds the containers of version v ("a" or "b"; same shapes, other content) as a
dict; call(**containers) makes the call.  Every container in it is examined after each call."""
import datetime as dt
import numpy as np
import pandas as pd

N = 6
T = pd.date_range('2021-06-01 09:00', periods=N, freq='1h', tz='Etc/GMT+7')
T1 = pd.date_range('2021-06-01 09:00', periods=90, freq='1min', tz='Etc/GMT+7')
TD = pd.date_range('2021-01-01', periods=48, freq='1h', tz='UTC')
WL = np.array([300., 400., 500., 600., 700., 800., 900., 1000., 1100., 1200.])


def k(v, a, b):
    return a if v == 'a' else b


def arr(rng, v, lo, hi, n=N):
    return np.array([lo + (hi - lo) * rng.random() for _ in range(n)])


def ser(rng, v, lo, hi, index=T):
    return pd.Series(arr(rng, v, lo, hi, len(index)), index=index)


def sapm_module(v):
    m = {'A0': .928, 'A1': .068, 'A2': -.0077, 'A3': .0001, 'A4': -.000002, 'B0': 1., 'B1': -.002438, 'B2': .0003103, 'B3': -1.246e-5, 'B4': 2.112e-7, 'B5': -1.359e-9,
         'C0': 1.01284, 'C1': -.0128398, 'C2': .279317, 'C3': -7.24463, 'C4': .996446, 'C5': .003554, 'C6': 1.15535, 'C7': -.155353,
         'Isco': 5.09115, 'Impo': 4.54629, 'Voco': 59.2608, 'Vmpo': 48.3156, 'Aisc': .000397, 'Aimp': .000181, 'Bvoco': -.21696, 'Mbvoc': 0., 'Bvmpo': -.235488, 'Mbvmp': 0.,
         'N': 1.4032, 'Cells_in_Series': 96, 'IXO': 4.97599, 'IXXO': 3.18803, 'FD': 1, 'A': -3.40641, 'B': -.0842075, 'DTC': 2.7}
    if v == 'b':
        m = {x: y * 1.01 if isinstance(y, float) else y for x, y in m.items()}
    return m


def sandia_inv(v):
    return {'Paco': k(v, 250., 300.), 'Pdco': k(v, 259.52, 310.), 'Vdco': 40., 'Pso': 2.08, 'C0': -4.1e-5, 'C1': -9.1e-5, 'C2': .00049, 'C3': -.013, 'Pnt': .075}


def adr_inv(v):
    return {'Vnom': 386., 'Vmax': 600., 'Vmin': 150., 'Vdcmax': 600., 'MPPTHi': 600., 'MPPTLow': 180., 'Pnom': k(v, 2500., 2600.), 'Pacmax': 2500., 'Pnt': 1.,
            'ADRCoefficients': [.01385, .0152, .00794, .00286, -.01872, -.01305, 0., 0., 0.]}


def box(rng, d):
    """a dict of parameters as the caller may hold it."""
    return rng.choice([lambda: dict(d), lambda: pd.Series(d)])()


def table():
    from pvlib import (irradiance, inverter, pvsystem, spectrum, iam, temperature, snow, soiling, scaling, clearsky, solarposition, shading, singlediode, location,
                       atmosphere, ivtools, bifacial, pvarray, tools, tracking, transformer, modelchain, albedo, irradiance as irr)
    from pvlib.ivtools import sde, sdm, utils
    L = {}

    def add(name, call, make):
        L[name] = (call, make)

    comp = lambda rng, v: {'poa_sky_diffuse': ser(rng, v, 50, 200), 'poa_isotropic': ser(rng, v, 20, 100), 'poa_circumsolar': ser(rng, v, 10, 90), 'poa_horizon': ser(rng, v, 0, 9)}
    add('poa_components.dict', lambda **c: irr.poa_components(**c), lambda rng, v: dict(aoi=ser(rng, v, 0, 120), dni=ser(rng, v, 0, 900), poa_sky_diffuse=comp(rng, v), poa_ground_diffuse=ser(rng, v, 0, 50)))
    add('poa_components.frame', lambda **c: irr.poa_components(**c), lambda rng, v: dict(aoi=ser(rng, v, 0, 120), dni=ser(rng, v, 0, 900), poa_sky_diffuse=pd.DataFrame(comp(rng, v)), poa_ground_diffuse=ser(rng, v, 0, 50)))
    add('poa_components.arrays', lambda **c: irr.poa_components(**c), lambda rng, v: dict(aoi=arr(rng, v, 0, 120), dni=arr(rng, v, 0, 900), poa_sky_diffuse={a: b.values for a, b in comp(rng, v).items()}, poa_ground_diffuse=arr(rng, v, 0, 50)))
    add('inverter.sandia', lambda **c: inverter.sandia(**c), lambda rng, v: dict(v_dc=ser(rng, v, 25, 55), p_dc=ser(rng, v, 0, 300), inverter=box(rng, sandia_inv(v))))
    add('inverter.sandia_multi', lambda **c: inverter.sandia_multi(**c), lambda rng, v: dict(v_dc=rng.choice([list, tuple])([ser(rng, v, 25, 55) for _ in range(2)]), p_dc=rng.choice([list, tuple])([ser(rng, v, 0, 150) for _ in range(2)]), inverter=box(rng, sandia_inv(v))))
    add('inverter.adr', lambda **c: inverter.adr(**c), lambda rng, v: dict(v_dc=arr(rng, v, 100, 650), p_dc=arr(rng, v, 0, 2800), inverter=adr_inv(v)))
    add('inverter.pvwatts_multi', lambda **c: inverter.pvwatts_multi(**c, pdc0=300.), lambda rng, v: dict(pdc=rng.choice([list, tuple])([ser(rng, v, 0, 200) for _ in range(2)])))
    add('inverter.fit_sandia', lambda **c: inverter.fit_sandia(**c, p_ac_0=500., p_nt=.5), lambda rng, v: fit_data(v))
    add('pvsystem.sapm', lambda **c: pvsystem.sapm(**c), lambda rng, v: dict(effective_irradiance=ser(rng, v, 0, 1000), temp_cell=ser(rng, v, 0, 60), module=box(rng, sapm_module(v))))
    add('sapm_effective_irradiance', lambda **c: pvsystem.sapm_effective_irradiance(**c), lambda rng, v: dict(poa_direct=ser(rng, v, 0, 900), poa_diffuse=ser(rng, v, 0, 200), airmass_absolute=ser(rng, v, 1, 8), aoi=ser(rng, v, 0, 90), module=box(rng, sapm_module(v))))
    add('scale_voltage_current_power', lambda **c: pvsystem.scale_voltage_current_power(**c, voltage=3, current=2), lambda rng, v: dict(data=pd.DataFrame({a: arr(rng, v, 1, 40) for a in ('i_sc', 'v_oc', 'i_mp', 'v_mp', 'p_mp', 'i_x', 'i_xx')}, index=T)))
    add('combine_loss_factors', lambda index, losses: pvsystem.combine_loss_factors(index, *losses), lambda rng, v: dict(index=T.copy(), losses=[ser(rng, v, 0, .3), ser(rng, v, 0, .3, T[::2]), ser(rng, v, 0, .3, T[1:4])]))
    add('singlediode', lambda **c: pvsystem.singlediode(**c), lambda rng, v: dict(photocurrent=ser(rng, v, .5, 9), saturation_current=ser(rng, v, 1e-10, 1e-9), resistance_series=ser(rng, v, .1, .5), resistance_shunt=ser(rng, v, 200, 900), nNsVth=ser(rng, v, 1.4, 1.9)))
    for m in ('newton', 'brentq', 'chandrupatla'):
        mk = {'newton': {'tol': 1e-9, 'maxiter': 90, 'full_output': True}, 'brentq': {'xtol': 1e-10, 'maxiter': 90, 'full_output': False}, 'chandrupatla': {'maxiter': 90, 'full_output': True}}[m]
        for f in ('bishop88_mpp', 'bishop88_i_from_v', 'bishop88_v_from_i'):
            def call(m=m, f=f, first=None, method_kwargs=None, **c):
                a = ([] if first is None else [first])
                r = getattr(singlediode, f)(*a, **c, method=m, method_kwargs=method_kwargs)
                return r[0] if method_kwargs.get('full_output') else r

            def make(rng, v, mk=mk, f=f, m=m):
                d = dict(photocurrent=arr(rng, v, 2, 9), saturation_current=arr(rng, v, 1e-10, 1e-9), resistance_series=arr(rng, v, .1, .5), resistance_shunt=arr(rng, v, 200, 900), nNsVth=arr(rng, v, 1.4, 1.9), method_kwargs=dict(mk))
                if f != 'bishop88_mpp':
                    d['first'] = arr(rng, v, .1, 1.5)
                return d
            add(f + '.' + m, call, make)
    fs = [.86, -.02, -.006, .12, .027, -.0018]
    add('firstsolar.coefficients', lambda **c: spectrum.spectral_factor_firstsolar(**c), lambda rng, v: dict(precipitable_water=ser(rng, v, .05, 9), airmass_absolute=ser(rng, v, .4, 12), coefficients=rng.choice([list, tuple, np.array])([x * k(v, 1, 1.1) for x in fs])))
    add('firstsolar.arrays', lambda **c: spectrum.spectral_factor_firstsolar(**c, module_type='cdte'), lambda rng, v: dict(precipitable_water=arr(rng, v, .05, 9), airmass_absolute=arr(rng, v, .4, 12)))
    add('caballero.coefficients', lambda **c: spectrum.spectral_factor_caballero(**c), lambda rng, v: dict(precipitable_water=arr(rng, v, .5, 4), airmass_absolute=arr(rng, v, 1, 5), aod500=arr(rng, v, .02, .6), coefficients=[1.0044, .0095, -.0037, .0002, 0., -.0046, -.0182, 0, .0095, .0068, 0, k(v, 1, 2)]))
    add('polo.coefficients', lambda **c: spectrum.spectral_factor_polo(**c), lambda rng, v: dict(precipitable_water=arr(rng, v, .5, 4), airmass_absolute=arr(rng, v, 1, 5), aod500=arr(rng, v, .02, .6), aoi=arr(rng, v, 0, 120), pressure=arr(rng, v, 8e4, 1e5), coefficients=[.0027, 10.34, 9.48, .31, .00077, .006, 0, -.003, k(v, 1., 1.1)]))
    add('pvspec.coefficients', lambda **c: spectrum.spectral_factor_pvspec(**c), lambda rng, v: dict(airmass_absolute=ser(rng, v, 1, 5), clearsky_index=ser(rng, v, .2, 1.1), coefficients=[.98, -.05, k(v, .03, .02)]))
    add('jrc.coefficients', lambda **c: spectrum.spectral_factor_jrc(**c), lambda rng, v: dict(airmass=ser(rng, v, 1, 5), clearsky_index=ser(rng, v, .2, 1.1), coefficients=[.49, .146, k(v, .001, .002)]))
    add('spectral_factor_sapm', lambda **c: spectrum.spectral_factor_sapm(**c), lambda rng, v: dict(airmass_absolute=ser(rng, v, 1, 9), module=box(rng, sapm_module(v))))
    add('mismatch_field', lambda **c: spectrum.calc_spectral_mismatch_field(**c), lambda rng, v: dict(sr=pd.Series(arr(rng, v, .1, .8, 10), index=WL), e_sun=pd.DataFrame([arr(rng, v, .1, 1.5, 10) for _ in range(3)], columns=WL), e_ref=pd.Series(arr(rng, v, .1, 1.5, 10), index=WL + 5)))
    add('average_photon_energy', lambda **c: spectrum.average_photon_energy(**c), lambda rng, v: dict(spectra=pd.DataFrame([arr(rng, v, .1, 1.5, 10) for _ in range(3)], columns=WL)))
    for f in ('sr_to_qe', 'qe_to_sr'):
        add(f, lambda f=f, **c: getattr(spectrum, f)(c['x'], normalize=True), lambda rng, v: dict(x=pd.Series(arr(rng, v, .1, .8, 10), index=WL)))
        add(f + '.array', lambda f=f, **c: getattr(spectrum, f)(c['x'], c['wl'], normalize=True), lambda rng, v: dict(x=arr(rng, v, .1, .8, 10), wl=WL.copy()))
    add('reference_spectra', lambda **c: spectrum.get_reference_spectra(**c), lambda rng, v: dict(wavelengths=WL + k(v, 0, 7)))
    add('example_response', lambda **c: spectrum.get_example_spectral_response(**c), lambda rng, v: dict(wavelength=WL + k(v, 0, 7)))
    add('normalize_max2one', lambda **c: tools.normalize_max2one(**c), lambda rng, v: dict(a=rng.choice([lambda: arr(rng, v, -5, 9), lambda: pd.DataFrame({'p': arr(rng, v, 0, 3), 'q': arr(rng, v, 0, 9)}), lambda: ser(rng, v, 0, 4)])()))
    add('iam.sapm', lambda **c: iam.sapm(**c), lambda rng, v: dict(aoi=ser(rng, v, -10, 120), module=box(rng, sapm_module(v))))
    add('iam.interp', lambda theta_ref, iam_ref, aoi, normalize: iam.interp(aoi, theta_ref, iam_ref, method=normalize[0], normalize=True),
        lambda rng, v: dict(aoi=arr(rng, v, -80, 80), theta_ref=rng.choice([list, np.array])([0., 20., 40., 60., 75., 90.]), iam_ref=rng.choice([list, np.array])([k(v, 1., .98), .99, .97, .9, .7, 0.]), normalize=[rng.choice(['linear', 'cubic', 'quadratic'])]))
    add('iam.physical', lambda **c: iam.physical(**c), lambda rng, v: dict(aoi=rng.choice([arr, ser])(rng, v, -95, 95), n=np.full(N, k(v, 1.526, 1.4))))
    add('iam.convert', lambda **c: iam.convert('physical', c['source_params'], 'ashrae', weight=iam._sin_weight), lambda rng, v: dict(source_params={'n': k(v, 1.526, 1.4), 'K': 4., 'L': .002}))
    add('iam.fit', lambda **c: iam.fit(c['aoi'], c['iam'], c['name'][0]), lambda rng, v: dict(aoi=np.linspace(0, 85, 18), iam=(1 - k(v, .05, .08) * (1 / np.cos(np.radians(np.linspace(0, 85, 18))) - 1)).clip(0), name=['ashrae']))
    add('marion_diffuse', lambda tilt, kw: iam.marion_diffuse('ashrae', tilt, **kw), lambda rng, v: dict(tilt=ser(rng, v, 0, 90), kw={'b': k(v, .05, .07)}))
    add('temperature.fuentes', lambda **c: temperature.fuentes(**c, noct_installed=45.), lambda rng, v: dict(poa_global=ser(rng, v, 0, 900), temp_air=ser(rng, v, -5, 30), wind_speed=ser(rng, v, 0, 9)))
    add('temperature.prilliman', lambda temp_cell, wind_speed, co: temperature.prilliman(temp_cell, wind_speed, coefficients=co), lambda rng, v: dict(temp_cell=ser(rng, v, 10, 60, T1), wind_speed=ser(rng, v, 0, 9, T1), co=rng.choice([list, tuple])([.0046, .00046, -.00023, k(v, -1.6e-5, -1.4e-5)])))
    add('generic_linear', lambda **c: temperature.generic_linear(**c, u_const=11., du_wind=6., module_efficiency=.2, absorptance=.9), lambda rng, v: dict(poa_global=ser(rng, v, 0, 900), temp_air=ser(rng, v, -5, 30), wind_speed=ser(rng, v, 0, 9)))
    add('linear_model.from', lambda **c: temperature.GenericLinearModel(.2, .9).use_noct_sam(c['x'][0]).to_faiman()['u0'] * 1., lambda rng, v: dict(x=[k(v, 45., 47.)]))
    add('snow.chain', lambda **c: snow.dc_loss_nrel(snow.coverage_nrel(**c, surface_tilt=30., initial_coverage=.5), 8), lambda rng, v: dict(snowfall=ser(rng, v, -.5, 3), poa_irradiance=ser(rng, v, 0, 800), temp_air=ser(rng, v, -10, 4)))
    add('snow.depth', lambda **c: snow.coverage_nrel(**c, surface_tilt=30.), lambda rng, v: dict(snowfall=ser(rng, v, -.5, 3), poa_irradiance=ser(rng, v, 0, 800), temp_air=ser(rng, v, -10, 4), snow_depth=ser(rng, v, -.5, 4)))
    add('snow.townsend', lambda **c: snow.loss_townsend(**c, surface_tilt=25., slant_height=2., lower_edge_height=1., string_factor=.75), lambda rng, v: dict(snow_total=arr(rng, v, 0, 60, 12), snow_events=arr(rng, v, 0, 8, 12), relative_humidity=arr(rng, v, 30, 90, 12), temp_air=arr(rng, v, -10, 10, 12), poa_global=arr(rng, v, 20000, 150000, 12)))
    add('soiling.kimber', lambda **c: soiling.kimber(**c, cleaning_threshold=6., grace_period=1), lambda rng, v: dict(rainfall=pd.Series([x if rng.random() < .3 else 0. for x in arr(rng, v, 0, 9, 48)], index=TD), manual_wash_dates=[dt.date(2021, 1, 2)] if v == 'a' else []))
    add('soiling.hsu', lambda rainfall, pm2_5, pm10, dv: soiling.hsu(rainfall, 1., 30., pm2_5, pm10, depo_veloc=dv, rain_accum_period=pd.Timedelta('3h')), lambda rng, v: dict(rainfall=pd.Series([x if rng.random() < .3 else 0. for x in arr(rng, v, 0, 4, 48)], index=TD), pm2_5=ser(rng, v, 0, 1e-4, TD), pm10=ser(rng, v, 1e-4, 3e-4, TD), dv={'2_5': k(v, .0009, .002), '10': .004}))
    add('scaling.wvm', lambda **c: scaling.wvm(c['clearsky_index'], c['positions'], cloud_speed=5., dt=60)[0], lambda rng, v: dict(clearsky_index=rng.choice([arr, lambda r, w, a, b, n: ser(r, w, a, b, T1[:n])])(rng, v, .3, 1.1, 40), positions=[(0., 0.), (30., 10.), (60., k(v, 20., 40.))]))
    add('scaling.latlon_to_xy', lambda **c: scaling.latlon_to_xy(**c), lambda rng, v: dict(coordinates=rng.choice([list, np.array])([[33., -110.], [33.1, k(v, -110.2, -110.1)]])))
    add('detect_clearsky', lambda **c: clearsky.detect_clearsky(**c, window_length=10), lambda rng, v: dict(measured=pd.Series(np.sin(np.linspace(.3, 1.2, 90)) * 900 + (arr(rng, v, -3, 3, 90) if v == 'a' else 0), index=T1), clearsky=pd.Series(np.sin(np.linspace(.3, 1.2, 90)) * 900, index=T1)))
    add('detect_clearsky.array', lambda m, cs, t: clearsky.detect_clearsky(m, cs, t, window_length=10), lambda rng, v: dict(m=np.sin(np.linspace(.3, 1.2, 90)) * 900 + arr(rng, v, -3, 3, 90), cs=np.sin(np.linspace(.3, 1.2, 90)) * 900, t=T1.copy()))
    add('ineichen', lambda **c: clearsky.ineichen(**c), lambda rng, v: dict(apparent_zenith=ser(rng, v, 10, 100), airmass_absolute=ser(rng, v, 1, 8), linke_turbidity=ser(rng, v, 2, 5), dni_extra=ser(rng, v, 1340, 1400)))
    add('bird', lambda **c: clearsky.bird(**c, aod380=.15, aod500=.1, precipitable_water=1.5), lambda rng, v: dict(zenith=ser(rng, v, 10, 85), airmass_relative=ser(rng, v, 1, 8)))
    add('simplified_solis', lambda **c: clearsky.simplified_solis(**c), lambda rng, v: dict(apparent_elevation=rng.choice([arr, ser])(rng, v, -10, 80), aod700=arr(rng, v, .01, .4), precipitable_water=arr(rng, v, .1, 4)))
    add('dirint', lambda **c: irr.dirint(**c), lambda rng, v: dict(ghi=ser(rng, v, 0, 900), solar_zenith=ser(rng, v, 10, 95), times=T.copy(), temp_dew=ser(rng, v, 0, 15)))
    add('dirindex', lambda **c: irr.dirindex(**c, times=T), lambda rng, v: dict(ghi=ser(rng, v, 0, 900), ghi_clear=ser(rng, v, 300, 900), dni_clear=ser(rng, v, 300, 900), zenith=ser(rng, v, 10, 85)))
    add('gti_dirint', lambda **c: irr.gti_dirint(c['poa_global'], c['aoi'], c['solar_zenith'], c['solar_azimuth'], T, 30., 180.), lambda rng, v: dict(poa_global=ser(rng, v, 50, 900), aoi=ser(rng, v, 10, 110), solar_zenith=ser(rng, v, 10, 80), solar_azimuth=ser(rng, v, 100, 250)))
    for f in ('erbs', 'erbs_driesse', 'orgill_hollands', 'boland', 'disc', 'louche'):
        for form in (arr, ser):
            add(f + '.' + form.__name__, lambda f=f, **c: getattr(irr, f)(c['ghi'], c['z'], T), lambda rng, v, form=form: dict(ghi=form(rng, v, -5, 1100), z=form(rng, v, 0, 100)))
    for f in ('klucher', 'perez', 'perez_driesse', 'haydavies', 'reindl'):
        kw = {'klucher': ('ghi',), 'perez': ('dni', 'dni_extra', 'airmass'), 'perez_driesse': ('dni', 'dni_extra'), 'haydavies': ('dni', 'dni_extra'), 'reindl': ('dni', 'ghi', 'dni_extra')}[f]
        rngs = {'ghi': (0, 900), 'dni': (0, 900), 'dni_extra': (1340, 1400), 'airmass': (1, 9)}
        for form in (arr, ser):
            add(f + '.' + form.__name__, lambda f=f, **c: getattr(irr, f)(**c), lambda rng, v, form=form, kw=kw: dict(surface_tilt=form(rng, v, 0, 90), surface_azimuth=form(rng, v, 90, 270), dhi=form(rng, v, 0, 300), solar_zenith=form(rng, v, 5, 100), solar_azimuth=form(rng, v, 90, 270), **{x: form(rng, v, *rngs[x]) for x in kw}))
    add('get_total_irradiance', lambda **c: irr.get_total_irradiance(**c, model='perez'), lambda rng, v: dict(surface_tilt=ser(rng, v, 0, 60), surface_azimuth=ser(rng, v, 90, 250), solar_zenith=ser(rng, v, 10, 100), solar_azimuth=ser(rng, v, 90, 250), dni=ser(rng, v, 0, 900), ghi=ser(rng, v, 0, 900), dhi=ser(rng, v, 0, 300), dni_extra=ser(rng, v, 1350, 1400), albedo=ser(rng, v, 0, .4)))
    add('complete_irradiance', lambda **c: irr.complete_irradiance(**c), lambda rng, v: dict(solar_zenith=ser(rng, v, 10, 95), ghi=ser(rng, v, 0, 900), dhi=ser(rng, v, 0, 300), dni_clear=ser(rng, v, 500, 900)))
    add('dni', lambda **c: irr.dni(**c), lambda rng, v: dict(ghi=ser(rng, v, 0, 900), dhi=ser(rng, v, 0, 300), zenith=ser(rng, v, 10, 100), dni_clear=ser(rng, v, 500, 900)))
    add('singleaxis', lambda **c: tracking.singleaxis(**c, axis_azimuth=170., gcr=.4), lambda rng, v: dict(apparent_zenith=rng.choice([arr, ser])(rng, v, 10, 100), solar_azimuth=arr(rng, v, 90, 270)))
    add('shaded_fraction1d', lambda **c: shading.shaded_fraction1d(**c, axis_azimuth=180., shaded_row_rotation=20., collector_width=2., pitch=4.), lambda rng, v: dict(solar_zenith=ser(rng, v, 10, 95), solar_azimuth=ser(rng, v, 90, 270)))
    add('direct_martinez', lambda **c: shading.direct_martinez(c['g'], c['d'], c['s'], 3.2, 5), lambda rng, v: dict(g=ser(rng, v, 300, 900), d=ser(rng, v, 100, 300), s=ser(rng, v, 0, 1)))
    for f in ('simple_efficiency',):
        add(f, lambda **c: transformer.simple_efficiency(**c, no_load_loss=.01, load_loss=.02, transformer_rating=500.), lambda rng, v: dict(input_power=ser(rng, v, 0, 500)))
    add('windspeed_powerlaw', lambda **c: atmosphere.windspeed_powerlaw(**c, height_reference=2., height_desired=10., exponent=.2), lambda rng, v: dict(wind_speed_reference=rng.choice([arr, ser])(rng, v, -1, 9)))
    add('get_relative_airmass', lambda **c: atmosphere.get_relative_airmass(**c), lambda rng, v: dict(zenith=rng.choice([arr, ser])(rng, v, 0, 110)))
    add('infinite_sheds', lambda **c: bifacial.infinite_sheds.get_irradiance(**c, surface_azimuth=180., gcr=.4, height=1.5, pitch=4., albedo=.2), lambda rng, v: dict(surface_tilt=ser(rng, v, 0, 60), solar_zenith=ser(rng, v, 10, 100), solar_azimuth=ser(rng, v, 90, 270), ghi=ser(rng, v, 0, 900), dhi=ser(rng, v, 0, 300), dni=ser(rng, v, 0, 900)))
    add('power_mismatch_deline', lambda **c: bifacial.power_mismatch_deline(**c), lambda rng, v: dict(rmad=arr(rng, v, 0, 20), coefficients=[0., .142, k(v, .032, .03)]))
    add('adr', lambda **c: pvarray.pvefficiency_adr(**c, k_a=100., k_d=-6., tc_d=.02, k_rs=.05, k_rsh=.1), lambda rng, v: dict(effective_irradiance=rng.choice([arr, ser])(rng, v, 10, 1000), temp_cell=arr(rng, v, 5, 60)))
    add('fit_adr', lambda **c: list(pvarray.fit_pvefficiency_adr(**c).values()), lambda rng, v: dict(effective_irradiance=np.repeat([200., 500., 800., 1000.], 3), temp_cell=np.tile([15., 25., 50.], 4), eta=pvarray.pvefficiency_adr(np.repeat([200., 500., 800., 1000.], 3), np.tile([15., 25., 50.], 4), k(v, 100., 90.), -6., .02, .05, .1)))
    add('huld', lambda **c: pvarray.huld(**c, pdc0=200.), lambda rng, v: dict(effective_irradiance=ser(rng, v, 0, 1000), temp_mod=ser(rng, v, 5, 60), k=[-3.4, -8., -.94, .03, .034, k(v, .001, .002)]))
    add('pvarray.batzelis', lambda **c: pvarray.batzelis(**c, v_mp=30., i_mp=8., v_oc=38., i_sc=8.5, alpha_sc=.004, beta_voc=-.12), lambda rng, v: dict(effective_irradiance=rng.choice([arr, ser])(rng, v, 0, 1000), temp_cell=arr(rng, v, 5, 60)))

    def curve(v):
        x = singlediode._lambertw(k(v, 7., 8.), 6e-10, .3, 400., 1.6, 60)
        return np.array(x[8]), np.array(x[7])
    add('fit_sandia_simple', lambda **c: sde.fit_sandia_simple(**c), lambda rng, v: dict(voltage=curve(v)[0], current=curve(v)[1]))
    add('rectify_iv_curve', lambda **c: utils.rectify_iv_curve(**c), lambda rng, v: dict(voltage=np.r_[np.nan, curve(v)[0][::-1], curve(v)[0][3], -1.], current=np.r_[1., curve(v)[1][::-1], 6., 9.]))
    add('fit_desoto', lambda **c: list(sdm.fit_desoto(31., 8.71, 38.3, 9.43, .005658, -.13788, 60, **c)[0].values()), lambda rng, v: dict(init_guess=k(v, {'IL_0': 9.4}, {}), root_kwargs=k(v, {'tol': 1e-9}, {'method': 'lm'})))
    add('fit_desoto.sizes', lambda d: list(sdm.fit_desoto(d[0], 8.71, 38.3, 9.43, .005658, -.13788, 60)[0].values()), lambda rng, v: dict(d=[k(v, 31., 31.2)]))
    add('get_solarposition', lambda **c: solarposition.get_solarposition(c['time'], 40., -105., temperature=c['temperature']), lambda rng, v: dict(time=T + pd.Timedelta(days=k(v, 0, 3)), temperature=arr(rng, v, 0, 30, 1)))
    add('sun_rise_set', lambda **c: solarposition.sun_rise_set_transit_spa(**c, latitude=40., longitude=-105.).apply(lambda s: s.astype('int64')), lambda rng, v: dict(times=T.normalize().unique() + pd.Timedelta(days=k(v, 0, 9))))
    add('location.from_tmy', lambda meta, data: loc_out(location.Location.from_tmy(meta, data)), lambda rng, v: dict(meta={'latitude': k(v, 40., 30.), 'longitude': -105., 'TZ': -7, 'altitude': 1600., 'Name': 'x', 'State': 'y'}, data=pd.DataFrame({'a': arr(rng, v, 0, 1)}, index=T)))
    add('location.from_epw', lambda meta, data: loc_out(location.Location.from_epw(meta, data)), lambda rng, v: dict(meta={'latitude': k(v, 40., 30.), 'longitude': -105., 'TZ': -7, 'altitude': 1600., 'city': 'x'}, data=pd.DataFrame({'a': arr(rng, v, 0, 1)}, index=T)))
    add('location.clearsky', lambda times, sp, am: location.Location(40, -105, 'Etc/GMT+7', 1600).get_clearsky(times, solar_position=sp, airmass_absolute=am, linke_turbidity=3.), lambda rng, v: dict(times=T.copy(), am=ser(rng, v, 1, 8), sp=pd.DataFrame({a: arr(rng, v, 10, 85) for a in ('apparent_zenith', 'zenith', 'apparent_elevation', 'elevation', 'azimuth')}, index=T)))
    add('location.airmass', lambda times, sp: location.Location(40, -105, 'Etc/GMT+7', 1600).get_airmass(times, sp), lambda rng, v: dict(times=T.copy(), sp=pd.DataFrame({a: arr(rng, v, 10, 85) for a in ('apparent_zenith', 'zenith')}, index=T)))

    # objects built from containers the caller keeps
    def system(mp, ip, tp, lp, ap):
        a = pvsystem.Array(pvsystem.FixedMount(30, 180), module_parameters=mp, temperature_model_parameters=tp, array_losses_parameters=ap)
        s = pvsystem.PVSystem([a], inverter_parameters=ip, losses_parameters=lp)
        w = pd.Series([100., 500., 900.], index=T[:3])
        return [s.get_cell_temperature(w, w / 40, w / 300, 'pvsyst'), s.pvwatts_dc(w, w / 30), s.pvwatts_losses(), s.get_ac('pvwatts', w / 4), a.dc_ohms_from_percent() if ap else 0.]
    mods = lambda v: {'pdc0': k(v, 240., 260.), 'gamma_pdc': -.004, 'temp_ref': 25., 'V_mp_ref': 30., 'I_mp_ref': 8.}
    add('system', system, lambda rng, v: dict(mp=mods(v), ip={'pdc0': k(v, 200., 220.), 'eta_inv_nom': .95}, tp={'u_c': 29., 'u_v': k(v, 0., 1.)}, lp={'soiling': k(v, 2, 3), 'shading': 1}, ap={'dc_ohmic_percent': k(v, 1., 2.)}))

    def chain(mp, ip, tp, data):
        s = pvsystem.PVSystem([pvsystem.Array(pvsystem.FixedMount(30, 180), module_parameters=mp, temperature_model_parameters=tp)], inverter_parameters=ip)
        mc = modelchain.ModelChain(s, location.Location(40, -105, 'Etc/GMT+7', 1600), aoi_model='no_loss', spectral_model='no_loss', dc_model='pvwatts', ac_model='pvwatts', temperature_model='sapm', losses_model='no_loss')
        r = mc.run_model(data).results
        return [r.ac, r.dc, r.cell_temperature, r.total_irrad]
    add('chain', chain, lambda rng, v: dict(mp=mods(v), ip={'pdc0': k(v, 200., 220.)}, tp={'a': -3.47, 'b': -.0594, 'deltaT': 3}, data=pd.DataFrame({'ghi': arr(rng, v, 100, 900), 'dni': arr(rng, v, 100, 900), 'dhi': arr(rng, v, 10, 300), 'temp_air': arr(rng, v, 0, 30), 'wind_speed': arr(rng, v, 0, 9)}, index=T)))
    return L


def loc_out(o):
    return [o.latitude, o.longitude, o.altitude, float(hash(str(o.tz)) % 1)]


def fit_data(v):
    p = np.concatenate([np.linspace(20, 500, 12)] * 3)
    volt = np.repeat([30., 40., 50.], 12)
    lev = np.array(['Vmin'] * 12 + ['Vnom'] * 12 + ['Vmax'] * 12)
    from pvlib import inverter
    ac = inverter.sandia(volt, p / .95, {'Paco': 500., 'Pdco': 520., 'Vdco': 40., 'Pso': 2., 'C0': k(v, -4e-5, -3e-5), 'C1': -9e-5, 'C2': .0005, 'C3': -.01, 'Pnt': .1})
    return dict(ac_power=ac, dc_power=p / .95, dc_voltage=volt, dc_voltage_level=lev)


def content(x, deep=True):
    """everything a caller can see of a container, as text."""
    if isinstance(x, pd.DataFrame):
        return 'frame%s%s' % (content(x.index), [(str(a), content(x[a].values), str(x[a].dtype)) for a in x.columns])
    if isinstance(x, pd.Series):
        return 'series%s%s%s%s' % (content(x.index), content(x.values), x.name, x.dtype)
    if isinstance(x, pd.Index):
        return 'index%s%s%s%s' % (x.dtype, x.name, list(map(str, x)), getattr(x, 'freq', ''))
    if isinstance(x, np.ndarray):
        return 'array%s%s%s' % (x.dtype, x.shape, [repr(y) for y in x.ravel().tolist()])
    if isinstance(x, dict):
        return 'dict%s' % [(repr(a), content(b)) for a, b in x.items()]
    if isinstance(x, (list, tuple)):
        return '%s%s' % (type(x).__name__, [content(y) for y in x])
    return repr(x)


def flat(o):
    """the numbers in a result."""
    if isinstance(o, dict):
        return [y for a in o for y in flat(o[a])]
    if isinstance(o, pd.DataFrame):
        return [y for a in o.columns for y in flat(o[a].values)]
    if isinstance(o, (list, tuple)):
        return [y for x in o for y in flat(x)]
    a = np.asarray(o)
    return [float(x) for x in np.ravel(a)] if a.dtype.kind in 'fiub' else []


def freeze(x):
    """the same containers, refusing to be written where the type allows it."""
    if isinstance(x, np.ndarray):
        x = x.copy()
        x.flags.writeable = False
    elif isinstance(x, dict):
        x = {a: freeze(b) for a, b in x.items()}
    return x
