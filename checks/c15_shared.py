import io
import os
import random
import warnings
import numpy as np
import pandas as pd
from vh import *
from poke import fingerprint, poke
import pvlib
from pvlib import atmosphere, clearsky, iam, iotools, irradiance, modelchain, pvsystem, scaling, shading, singlediode, snow, soiling, solarposition, spectrum, temperature, tracking, tools
from pvlib.location import Location

CFG = '''CONSTANTS Ops = {%s}
MaxLen = %d
INIT Init
NEXT Next
INVARIANTS OwnersArePure Exposed LeakNeedsHistory Emit
'''
T = pd.date_range('2020-06-01 17:00', periods=3, freq='1h', tz='UTC')
DATA = '/repo/tests/data/'


def wx():
    return pd.DataFrame({'ghi': [500., 700, 650], 'dni': [600., 800, 700], 'dhi': [100., 120, 110], 'temp_air': [20., 21, 22], 'wind_speed': [1., 2, 3]}, index=T)


SAPM = dict(C4=.99, C5=.01, Aisc=.0005, Bvoco=-.13, Mbvoc=0., Bvmpo=-.13, Mbvmp=0., N=1.17, Cells_in_Series=60, IXO=8.5, IXXO=5.8, FD=1., C0=1.01, C1=-.01, C2=.19, C3=-8.,
            C6=1.1, C7=-.1, Isco=9., Impo=8.4, Voco=37., Vmpo=30., Aimp=.0002, A0=.93, A1=.06, A2=-.008, A3=.0004, A4=-7e-6, B0=1., B1=-.002, B2=.0003, B3=-1e-5, B4=2e-7, B5=-1e-9)
DESOTO = dict(alpha_sc=.004, a_ref=1.6, I_L_ref=8.9, I_o_ref=1e-9, R_sh_ref=300., R_s=.3)


# every operation: arguments made anew, one call
def array(mod, rack):
    return (dict(module_type=mod, module_parameters={'pdc0': 200., 'gamma_pdc': -.003}, mount=pvsystem.FixedMount(30, 180, racking_model=rack)),), lambda d: pvsystem.Array(**d)


def chain(make, weather):
    def go(x):
        mc, w = x
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return make().run_model(w)
    return ((None, wx()),), go


def pvw():
    s = pvsystem.PVSystem(module_parameters={'pdc0': 200., 'gamma_pdc': -.003}, inverter_parameters={'pdc0': 220.}, racking_model='open_rack', module_type='glass_glass')
    return modelchain.ModelChain.with_pvwatts(s, Location(35, -105, altitude=1000))


def sap():
    s = pvsystem.PVSystem(module_parameters=dict(SAPM), inverter_parameters={'pdc0': 300.}, racking_model='open_rack', module_type='glass_polymer')
    return modelchain.ModelChain(s, Location(35, -105), aoi_model='sapm', spectral_model='sapm', ac_model='pvwatts')


def bare():
    s = pvsystem.PVSystem(arrays=[pvsystem.Array(pvsystem.FixedMount(20, 180), module_parameters=dict(DESOTO, EgRef=1.121, dEgdT=-.0002677), temperature_model_parameters={'u_c': 29., 'u_v': 0.}, name='a')], inverter_parameters={'pdc0': 300.})
    return modelchain.ModelChain(s, Location(35, -105), aoi_model='ashrae', spectral_model='no_loss')


def rd(fn, name, **kw):
    return (DATA + name,), lambda p: fn(p, **kw)


def text(fn, name, n=None, **kw):
    s = open(DATA + name, encoding='latin-1').read()
    if n:
        s = '\n'.join(s.split('\n')[:n]) + '\n'
    return (s,), lambda s: fn(io.StringIO(s), **kw)


def spa(how, **kw):
    def go(t):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return solarposition.get_solarposition(t, 40, -105, method=how)
    return (T,), go


def rises(how):
    def go(t):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return solarposition.sun_rise_set_transit_spa(t.normalize(), 40, -105, how=how)
    return (T,), go


def earth(how):
    def go(t):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return solarposition.nrel_earthsun_distance(t, how=how)
    return (T,), go


def spl2(**kw):
    return ((30., 35., 30., .2, 101325., 1.5, 1.5, .3, .1, 150),), lambda a: spectrum.spectrl2(apparent_zenith=a[0], aoi=a[1], surface_tilt=a[2], ground_albedo=a[3], surface_pressure=a[4], relative_airmass=a[5], precipitable_water=a[6], ozone=a[7], aerosol_turbidity_500nm=a[8], dayofyear=a[9])


def bishop(kw):
    return ((kw, np.array([8., 5.])),), lambda a: singlediode.bishop88_mpp(a[1], 1e-9, .3, 300., 1.6, method='newton', method_kwargs=a[0])


def fitds():
    return (dict(v_mp=31., i_mp=8.71, v_oc=38.3, i_sc=9.43, alpha_sc=.005658, beta_voc=-.13788, cells_in_series=60),), lambda d: pvlib.ivtools.sdm.fit_desoto(**d)


def fitds_guess():
    return ((dict(v_mp=31., i_mp=8.71, v_oc=38.3, i_sc=9.43, alpha_sc=.005658, beta_voc=-.13788, cells_in_series=60), {'Rsh_0': 100.}, {'method': 'hybr', 'options': {'xtol': 1e-6}}),), lambda a: pvlib.ivtools.sdm.fit_desoto(init_guess=a[1], root_kwargs=a[2], **a[0])


def f(fn, *a, **k):
    return ((a, k),), lambda x: fn(*x[0], **x[1])


def ser(*v):
    return pd.Series(v, index=T[:len(v)], dtype=float)


FAMILIES = {
    'thermal': {'arr_sapm': lambda: array('glass_glass', 'open_rack'), 'arr_poly': lambda: array('glass_polymer', 'open_rack'), 'arr_close': lambda: array('glass_glass', 'close_mount'),
                'arr_pvsyst': lambda: array('', 'freestanding'), 'sys_pvsyst': lambda: ((0,), lambda _: pvsystem.PVSystem(racking_model='insulated')),
                'cell': lambda: ((wx(),), lambda w: pvsystem.PVSystem(racking_model='open_rack', module_type='glass_glass').get_cell_temperature(w['ghi'], w['temp_air'], w['wind_speed'], 'sapm'))},
    'defaults': {'array0': lambda: ((0,), lambda _: pvsystem.Array(pvsystem.FixedMount())), 'system0': lambda: ((0,), lambda _: pvsystem.PVSystem()), 'mount0': lambda: ((0,), lambda _: pvsystem.SingleAxisTrackerMount()),
                 'fixed0': lambda: ((0,), lambda _: pvsystem.FixedMount()), 'loc0': lambda: ((0,), lambda _: Location(10, 20)), 'arr2': lambda: ((0,), lambda _: pvsystem.PVSystem(arrays=[pvsystem.Array(pvsystem.FixedMount()), pvsystem.Array(pvsystem.FixedMount())]))},
    'chains': {'pvwatts': lambda: chain(pvw, 0), 'sapm': lambda: chain(sap, 0), 'desoto': lambda: chain(bare, 0), 'newpvw': lambda: ((0,), lambda _: pvw()), 'newsapm': lambda: ((0,), lambda _: modelchain.ModelChain.with_sapm(sap().system, Location(35, -105)))},
    'tables': {'cecinv': lambda: f(pvsystem.retrieve_sam, 'CECInverter'), 'sandiamod': lambda: f(pvsystem.retrieve_sam, 'SandiaMod'), 'adr': lambda: f(pvsystem.retrieve_sam, 'ADRInverter'),
               'path': lambda: f(pvsystem.retrieve_sam, path=os.path.join(os.path.dirname(pvlib.__file__), 'data', 'sam-library-sandia-modules-2015-6-30.csv')), 'tz': lambda: ((0,), lambda _: Location(32, -111, 'US/Arizona').get_solarposition(T)),
               'alt': lambda: f(pvlib.location.lookup_altitude, 40., -105.)},
    'spectra': {'am15': lambda: f(spectrum.get_reference_spectra), 'am15w': lambda: f(spectrum.get_reference_spectra, wavelengths=np.array([300., 400, 500])), 'esr': lambda: f(spectrum.get_example_spectral_response),
                'esrw': lambda: f(spectrum.get_example_spectral_response, np.array([400., 500, 600])), 'spectrl2': spl2,
                'mismatch': lambda: ((0,), lambda _: spectrum.calc_spectral_mismatch_field(spectrum.get_example_spectral_response(), pd.DataFrame([np.linspace(.5, 1, 50)], columns=np.linspace(300, 1500, 50)))),
                'firstsolar': lambda: f(spectrum.spectral_factor_firstsolar, np.array([1., 2.]), np.array([1.5, 1.2]), 'cdte')},
    'diode': {'mpp0': lambda: bishop(None), 'mppk': lambda: bishop({'tol': 1e-9, 'maxiter': 40}), 'mppe': lambda: bishop({}), 'fit': fitds, 'fitg': fitds_guess,
              'single': lambda: f(pvsystem.singlediode, np.array([8., 5.]), 1e-9, .3, 300., 1.6), 'maxp': lambda: f(pvsystem.max_power_point, ser(8., 5.), 1e-9, .3, 300., 1.6)},
    'sky': {'poa': lambda: f(irradiance.get_total_irradiance, 30, 180, ser(30, 40, 50), ser(170, 180, 190), ser(800, 700, 600), ser(700, 600, 500), ser(100, 90, 80), dni_extra=ser(1367, 1367, 1367), model='perez'),
            'poad': lambda: f(irradiance.get_total_irradiance, 30, 180, ser(30, 40, 50), ser(170, 180, 190), ser(800, 700, 600), ser(700, 600, 500), ser(100, 90, 80), dni_extra=ser(1367, 1367, 1367), model='perez-driesse'),
            'gnd': lambda: f(irradiance.get_ground_diffuse, 30, ser(800, 700), surface_type='grass'), 'disc': lambda: f(irradiance.disc, ser(800, 700, 600), ser(30, 40, 50), T), 'dirint': lambda: f(irradiance.dirint, ser(800, 700, 600), ser(30, 40, 50), T),
            'cs': lambda: ((T,), lambda t: Location(40, -105, altitude=1600).get_clearsky(t, linke_turbidity=3)), 'extra': lambda: f(irradiance.get_extra_radiation, T)},
    'optics': {'physical': lambda: f(iam.physical, np.array([0., 30, 80])), 'fitiam': lambda: f(iam.fit, np.array([0., 30, 60, 80]), np.array([1., .99, .95, .7]), 'ashrae'), 'conv': lambda: f(iam.convert, 'ashrae', {'b': .05}, 'physical'),
               'marion': lambda: f(iam.marion_diffuse, 'physical', 30), 'albedo': lambda: f(pvlib.albedo.inland_water_dvoracek, np.array([10., 60.]), 'clear_water_no_waves'), 'wind': lambda: f(atmosphere.windspeed_powerlaw, np.array([5.]), 10, 20, surface_type='unstable_air_above_human_inhabited_areas')},
    'files': {'epw': lambda: text(iotools.read_epw, 'NLD_Amsterdam062400_IWEC.epw', 60), 'surfrad': lambda: rd(iotools.read_surfrad, 'surfrad-slv16001.dat'), 'cams': lambda: rd(iotools.read_cams, 'cams_radiation_1min_verbose.csv'),
              'midc': lambda: rd(iotools.read_midc, 'midc_20181014.txt'), 'crn': lambda: rd(iotools.read_crn, 'CRNS0101-05-2019-AZ_Tucson_11_W.txt'), 'srml': lambda: rd(iotools.read_srml, 'SRML-day-EUPO1801.txt'), 'panond': lambda: rd(iotools.read_panond, 'ET-M772BH550GL.PAN')},
    'files2': {'solrad': lambda: rd(iotools.read_solrad, 'abq19056.dat'), 'psm4': lambda: rd(iotools.read_nsrdb_psm4, 'test_read_psm4.csv'), 'pvgis': lambda: rd(iotools.read_pvgis_hourly, 'pvgis_hourly_Timeseries_45.000_8.000_SA2_10kWp_CIS_5_2a_2013_2014.json', map_variables=True),
               'pvtmy': lambda: rd(iotools.read_pvgis_tmy, 'tmy_45.000_8.000_2005_2023.csv', map_variables=True), 'midcm': lambda: rd(iotools.read_midc, 'midc_20181014.txt', variable_map={'Avg Wind Speed @ 10m [m/s]': 'wind_speed'}), 'solar': lambda: rd(iotools.read_solaranywhere, 'Burlington, United States SolarAnywhere Typical GHI Year Lat_44_465 Lon_-73_205 SA format.csv')},
    'sun': {'np': lambda: spa('nrel_numpy'), 'eph': lambda: spa('ephemeris'), 'pye': lambda: spa('pyephem'), 'rise': lambda: rises('numpy'), 'dist': lambda: earth('numpy'), 'track': lambda: f(tracking.singleaxis, np.array([30., 80]), np.array([100., 250]))},
    'backends': {'np': lambda: spa('nrel_numpy'), 'nb': lambda: spa('nrel_numba'), 'rise_np': lambda: rises('numpy'), 'rise_nb': lambda: rises('numba'), 'dist_nb': lambda: earth('numba'), 'eph': lambda: spa('ephemeris')},
}
WANT = {'np': 'numpy', 'rise_np': 'numpy', 'rise': 'numpy', 'dist': 'numpy', 'nb': 'numba', 'rise_nb': 'numba', 'dist_nb': 'numba'}


def state():
    r = np.random.get_state()
    return {'environ': fingerprint(dict(os.environ)), 'cwd': os.getcwd(), 'floating_point_errors': repr(sorted(np.geterr().items())), 'numpy_random': fingerprint([r[1], r[2]]), 'python_random': fingerprint(random.getstate()),
            'print_options': repr(np.get_printoptions())}


def backend():
    from pvlib import spa as s
    fn = getattr(s, 'julian_ephemeris_day', None)
    return 'any' if fn is None else 'numba' if hasattr(fn, 'py_func') else 'numpy'


def step(fam, op):
    args, fn = FAMILIES[fam][op]()
    b4, e4 = fingerprint(args), state()
    try:
        v = fn(*args)
        fp = fingerprint(v)
    except Exception as ex:
        v, fp = None, 'exc ' + type(ex).__name__
    e5 = state()
    return v, dict(a='call', op=op, i=0, fp=fp, kept=fingerprint(args) == b4, env={k: 'same' if e4[k] == e5[k] else 'changed' for k in e4}, backend=backend() if WANT.get(op) else 'any')


def play(job):
    fam, hist = job
    np.random.seed(7)
    res, out = [], []
    for h in hist:
        if h['a'] == 'call':
            v, e = step(fam, h['op'])
            res.append(v)
            out.append(e)
        else:
            poke(res[int(h['i']) - 1])
            out.append(dict(a='poke', op=h['op'], i=int(h['i'])))
    return out


def child(job):
    """each history in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            import pickle
            with os.fdopen(w, 'wb') as fh:
                fh.write(pickle.dumps(play(job)))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        b = fh.read()
    os.waitpid(pid, 0)
    import pickle
    return pickle.loads(b)


def run(c):
    rng = c.rng
    jobs = []
    refs = [(f, o) for f in FAMILIES for o in FAMILIES[f]]
    ref = {f: {} for f in FAMILIES}
    for (f, o), out in zip(refs, pmap(child, [(f, [dict(a='call', op=o)]) for f, o in refs])):
        ref[f][o] = out[0]['fp']
    shapes = c.model('SharedMC', CFG % ('"a", "b", "c"', c.pick(5, 6)))
    # the emitted histories with every choice of operations for a, b, c
    for fam in FAMILIES:
        ops = list(FAMILIES[fam])
        for o in ops:                      # the shortest exposing history of every operation
            jobs.append((fam, [dict(a='call', op=o), dict(a='poke', op=o, i=1), dict(a='call', op=o)]))
        n = c.pick(4 if fam == 'backends' else 30, 40 if fam == 'backends' else 300)
        for h in rng.sample(shapes, min(n, len(shapes))):
            m = dict(zip('abc', rng.sample(ops, 3)))
            jobs.append((fam, [dict(x, op=m[x['op']]) for x in h]))
    out = pmap(child, jobs)
    c.validate('Shared', [{'meta': {'fam': f, 'ref': ref[f], 'want': {o: WANT.get(o, 'any') for o in ref[f]}}, 'ev': ev} for (f, _), ev in zip(jobs, out)])


main(run)
