"""Write small weather files of every format pvlib reads, from the records of
the specification (spec/ReadersMC.tla)."""
import json


def dec(rng, lo=0, hi=1000, k=1):
    return '%.*f' % (k, rng.uniform(lo, hi))


def whole(rng, lo=0, hi=1000):
    return '%d' % rng.randint(lo, hi)


MISS = .12


class File:
    """text, names (columns of values), cells (printed, one list per record), meta: [key, kind, parts]."""

    def __init__(self, f, o, recs):
        self.f, self.o, self.recs = f, dict(o), recs
        self.names, self.cells, self.meta = [], [], []
        self.tz, self.zone, self.map, self.vmap = 0, '', True, []
        self.kw, self.text, self.suffix, self.encoding = {}, '', '.txt', 'utf-8'
        self.stem = 'file'
        self.reader = None


def csvrow(cells):
    return ','.join('"%s"' % x if ',' in x else x for x in cells)


def coords(rng, south=True):
    return '%.3f' % rng.uniform(-80 if south else 0, 80), '%.3f' % rng.uniform(-179, 179), '%d' % rng.randint(-50, 3000)


def fixed(cells, widths):
    """Right aligned fields separated by one space."""
    assert all(len(c) <= w for c, w in zip(cells, widths)), (cells, widths)
    return ' '.join(c.rjust(w) for c, w in zip(cells, widths))


def placed(cells, specs):
    line = ''
    for c, (a, b) in zip(cells, specs):
        assert len(c) < b - a or a == 0 or len(c) <= b - a, (c, a, b)
        line = line.ljust(b - len(c)) + c
    return line


def tmy3(F, rng, names):
    F.reader = 'read_tmy3'
    F.suffix = '.csv'
    F.tz = rng.choice([-540, -300, 0, 60, 330])
    lat, lon, alt = coords(rng)
    F.text = '%s,%s,%s,%s,%s,%s,%s\n' % ('703165', 'SAND POINT', 'AK', F.tz / 60, lat, lon, alt)
    F.meta = [['USAF', 'same', ['703165']], ['Name', 'same', ['SAND POINT']], ['State', 'same', ['AK']], ['TZ', 'same', [str(F.tz / 60)]],
              ['latitude', 'same', [lat]], ['longitude', 'same', [lon]], ['altitude', 'same', [alt]]]
    ns = [n for n in names]
    rng.shuffle(ns)
    F.names = ['Date (MM/DD/YYYY)', 'Time (HH:MM)'] + ns
    F.text += ','.join(F.names) + '\n'
    for r in F.recs:
        row = ['%02d/%02d/%04d' % (r['m'], r['d'], r['y']), '%02d:%02d' % (r['h'], r['mi'])]
        row += [rng.choice('EAB?') if n.endswith('source') else dec(rng, -20, 900) if rng.random() < .5 else whole(rng) for n in ns]
        F.cells.append(row)
        F.text += csvrow(row) + '\n'
    if F.o['year']:
        F.kw['coerce_year'] = F.o['year']


def tmy2(F, rng, names):
    F.reader = 'read_tmy2'
    F.suffix = '.tm2'
    tz = rng.randint(-10, 12)
    F.tz = tz * 60
    ns, la, lm = rng.choice('NS'), rng.randint(0, 60), rng.randint(0, 59)
    ew, lo, lom = rng.choice('EW'), rng.randint(0, 179), rng.randint(0, 59)
    F.text = ' 12839 MIAMI                  FL  %2d %s %2d %2d %s %3d %2d %5d\n' % (tz, ns, la, lm, ew, lo, lom, 2)
    F.meta = [['WBAN', 'same', ['12839']], ['City', 'same', ['MIAMI']], ['State', 'same', ['FL']], ['TZ', 'same', [str(tz)]], ['altitude', 'same', ['2']],
              ['latitude', 'dms', [ns, str(la), str(lm)]], ['longitude', 'dms', [ew, str(lo), str(lom)]]]
    F.names = names
    widths = [2, 2, 2, 2, 4, 4] + [4, 1, 1] * 7 + [2, 1, 1] * 2 + [4, 1, 1] * 2 + [3, 1, 1] + [4, 1, 1] + [3, 1, 1] * 2 + [4, 1, 1] + [5, 1, 1] + [10] + [3, 1, 1] * 3 + [2, 1, 1]
    for r in F.recs:
        row = ['%02d' % (r['y'] % 100), '%02d' % r['m'], '%02d' % r['d'], '%02d' % r['h']]
        for n, w in zip(names[4:], widths[4:]):
            if n.endswith('Source'):
                row.append(rng.choice('ABEF?'))
            elif n == 'DryBulb' or n == 'DewPoint':
                row.append(('-%03d' % rng.randint(0, 300)) if rng.random() < .3 else '%04d' % rng.randint(0, 400))
            elif w == 1:
                row.append(str(rng.randint(0, 9)))
            else:
                row.append('%0*d' % (w, rng.randint(0, 10 ** min(w, 9) - 1)))
        assert len(row) == len(names) == len(widths), (len(row), len(names), len(widths))
        F.cells.append(row)
        F.text += ' ' + ''.join(row) + '\n'


def epw(F, rng, names):
    F.reader = 'read_epw'
    F.suffix = '.epw'
    F.tz = rng.choice([-480, 0, 60, 330, 345])
    tz = str(F.tz / 60)
    lat, lon, alt = coords(rng)
    F.text = 'LOCATION,Amsterdam,-,NLD,IWEC Data,062400,%s,%s,%s,%s\n' % (lat, lon, tz, alt)
    F.text += 'DESIGN CONDITIONS,0\nTYPICAL/EXTREME PERIODS,0\nGROUND TEMPERATURES,0\nHOLIDAYS/DAYLIGHT SAVINGS,No,0,0,0\nCOMMENTS 1,a, b\nCOMMENTS 2,c\nDATA PERIODS,1,1,Data,Sunday, 1/ 1,12/31\n'
    F.meta = [['loc', 'same', ['LOCATION']], ['city', 'same', ['Amsterdam']], ['country', 'same', ['NLD']], ['data_type', 'same', ['IWEC Data']], ['WMO_code', 'same', ['062400']],
              ['TZ', 'same', [tz]], ['latitude', 'same', [lat]], ['longitude', 'same', [lon]], ['altitude', 'same', [alt]]]
    F.names = names
    for r in F.recs:
        row = [str(r['y']), str(r['m']), str(r['d']), str(r['h']), '0' if rng.random() < .5 else '60', 'C8C8C8C8*0?9?9?9']
        row += [dec(rng, -20, 900) if rng.random() < .5 else whole(rng) for n in names[6:]]
        F.cells.append(row)
        F.text += ','.join(row) + '\n'
    if F.o['year']:
        F.kw['coerce_year'] = F.o['year']


def surfrad(F, rng, names):
    F.reader = 'read_surfrad'
    F.suffix = '.dat'
    lat, lon, alt = '%.2f' % rng.uniform(-80, 80), '%.2f' % rng.uniform(-179, 179), str(rng.randint(0, 3000))
    ver = str(rng.randint(1, 3))
    name = rng.choice(['Alamosa', 'Goodwin Creek'])
    F.text = ' %s\n   %s  %s %s m version %s\n' % (name, lat, lon, alt, ver)
    F.meta = [['name', 'same', [name]], ['latitude', 'same', [lat]], ['longitude', 'same', [lon]], ['elevation', 'same', [alt]], ['surfrad_version', 'same', [ver]], ['tz', 'same', ['UTC']]]
    F.names = names
    for r in F.recs:
        row = [str(r['y']), str(r['doy']), str(r['m']), str(r['d']), str(r['h']), str(r['mi']), '%.3f' % (r['h'] + r['mi'] / 60), dec(rng, 0, 100, 2)]
        for n in names[8:]:
            row.append(rng.choice('012') if n.endswith('flag') else '-9999.9' if rng.random() < MISS else dec(rng, -100, 1000))
        F.cells.append(row)
        F.text += ' ' + ' '.join(row[:8]) + ' ' + ' '.join(x.rjust(7) for x in row[8:]) + '\n'
    F.map = rng.random() < .7
    F.kw['map_variables'] = F.map


def solrad(F, rng, names):
    F.reader = 'read_solrad'
    F.suffix = '.dat'
    F.stem = 'msn19056' if F.f == 'msn' else 'abq19056'
    lat, lon, alt = '%.5f' % rng.uniform(-80, 80), '%.5f' % rng.uniform(-179, 179), str(rng.randint(0, 3000))
    tz, name = rng.randint(-10, -4), rng.choice(['Madison', 'Albuquerque', 'Salt Lake City'])
    F.text = ' %s\n   %s %s %s %d  version 1\n' % (name, lat, lon, alt, tz)
    F.meta = [['station_name', 'same', [name]], ['latitude', 'same', [lat]], ['longitude', 'same', [lon]], ['altitude', 'same', [alt]], ['TZ', 'same', [str(tz)]]]
    F.names = names
    nflag = 8 if F.f == 'msn' else 5
    widths = [4, 3] + 4 * [2] + [6, 6] + nflag * [7, 1] + (7 if F.f == 'msn' else 4) * [9]
    for r in F.recs:
        row = [str(r['y']), str(r['doy']), str(r['m']), str(r['d']), str(r['h']), str(r['mi']), '%.3f' % (r['h'] + r['mi'] / 60), dec(rng, 0, 100, 2)]
        for n, w in zip(names[8:], widths[8:]):
            if n.endswith('flag'):
                row.append(rng.choice('01'))
            elif w == 9:
                row.append('-9999.900' if rng.random() < MISS else dec(rng, 0, 100, 3))
            else:
                row.append('-9999.9' if rng.random() < MISS else dec(rng, -10, 1000))
        F.cells.append(row)
        F.text += fixed(row, widths) + '\n'


def crn(F, rng, names):
    F.reader = 'read_crn'
    widths = [5, 8, 4, 8, 4, 6, 7, 7, 7, 7, 6, 1, 7, 1, 1, 5, 1, 7, 7, 5, 1, 6, 1]
    lon, lat = '%.2f' % rng.uniform(-179, 179), '%.2f' % rng.uniform(-80, 80)
    F.names = names
    for r in F.recs:
        lh = (r['h'] - 7) % 24
        v = {'WBANNO': '53131', 'UTC_DATE': '%04d%02d%02d' % (r['y'], r['m'], r['d']), 'UTC_TIME': '%02d%02d' % (r['h'], r['mi']), 'LST_DATE': '20190101', 'LST_TIME': '%02d%02d' % (lh, r['mi']),
             'CRX_VN': '3', 'LONGITUDE': lon, 'LATITUDE': lat, 'AIR_TEMPERATURE': dec(rng, -30, 40), 'PRECIPITATION': dec(rng, 0, 20), 'SOLAR_RADIATION': whole(rng), 'SR_FLAG': rng.choice('03'),
             'SURFACE_TEMPERATURE': dec(rng, -30, 60), 'ST_TYPE': rng.choice('CRU'), 'ST_FLAG': rng.choice('03'), 'RELATIVE_HUMIDITY': whole(rng, 0, 100), 'RH_FLAG': rng.choice('03'),
             'SOIL_MOISTURE_5': dec(rng, 0, 1, 3), 'SOIL_TEMPERATURE_5': dec(rng, -10, 40), 'WETNESS': whole(rng, 0, 2000), 'WET_FLAG': rng.choice('03'), 'WIND_1_5': dec(rng, 0, 20, 2), 'WIND_FLAG': rng.choice('03')}
        code = {'AIR_TEMPERATURE': '-9999.0', 'PRECIPITATION': '-9999.0', 'SOLAR_RADIATION': '-99999', 'SURFACE_TEMPERATURE': '-9999.0', 'RELATIVE_HUMIDITY': '-9999', 'SOIL_MOISTURE_5': '-99.000',
                'SOIL_TEMPERATURE_5': '-9999.0', 'WETNESS': '-9999', 'WIND_1_5': '-99.00'}
        for n in code:
            if rng.random() < MISS:
                v[n] = code[n]
        row = [v[n] for n in names]
        F.cells.append(row)
        F.text += fixed(row, widths) + '\n'
    if rng.random() < .2:
        F.text += '\n'
    F.map = rng.random() < .7
    F.kw['map_variables'] = F.map


def srml(F, rng, names):
    F.reader = 'read_srml'
    els = F.o.get('els') or rng.sample(['1000', '1001', '2010', '2011', '3003', '9202', '9211', '9300', '9311', '9331', '9373', '7008', '7930', '1212', '9171', '2014'], rng.randint(1, 6))
    if 'els' not in F.o and 2010 <= F.recs[0]['y'] <= 2019 and rng.random() < .6:
        els = [e for e in els if e != str(F.recs[0]['y'])]
        els.insert(rng.randint(0, len(els)), str(F.recs[0]['y']))   # a direct beam sensor whose number is the year
    F.names = [x for e in els for x in (e, '0')]
    F.text = '\t'.join(['94255', str(F.recs[0]['y'])] + F.names) + '\n'
    for r in F.recs:
        row = []
        for e in els:
            flag = rng.choice(['11', '12', '13', '99', '99'] if rng.random() < .4 else ['12'])
            row += [rng.choice(['-9999', '0', '-20.5']) if flag == '99' else rng.choice([dec(rng, -50, 1000), whole(rng)]), flag]
        F.cells.append(row)
        F.text += '\t'.join([str(r['doy']), str(r['h'] * 100 + r['mi'])] + row) + '\n'
    F.map = rng.random() < .7
    F.kw['map_variables'] = F.map


MIDC = [['Global Horiz [W/m^2]', 'ghi'], ['Direct Normal [W/m^2]', 'dni'], ['Diffuse Horiz [W/m^2]', 'dhi'], ['Air Temperature [deg C]', 'temp_air'], ['Rel Humidity [%]', 'relative_humidity'], ['Station Pressure [mBar]', 'Station Pressure [mBar]']]


def midc(F, rng, names):
    F.reader = 'read_midc'
    F.zone = rng.choice(['MST', 'PST', 'CST', 'EST', 'HST', 'UTC'])
    cols = rng.sample(MIDC, rng.randint(1, 6))
    F.vmap = [c for c in cols if rng.random() < .6]
    raw = F.f == 'midcraw'
    dn = [c[0] for c in cols]
    if raw:
        F.names = ['Year', 'DOY', F.zone] + dn
        F.text = ','.join(['n'] + F.names) + '\n'
    else:
        F.names = ['DATE (MM/DD/YYYY)', F.zone] + dn
        F.text = ','.join(F.names) + '\n'
    for i, r in enumerate(F.recs):
        vals = ['-7999.0' if rng.random() < .05 else dec(rng, -5, 1000, rng.choice([1, 3, 5])) for _ in dn]
        row = [str(r['y']), str(r['doy']), str(r['h'] * 100 + r['mi'])] + vals if raw else ['%02d/%02d/%04d' % (r['m'], r['d'], r['y']), '%02d:%02d' % (r['h'], r['mi'])] + vals
        F.cells.append(([str(i)] if raw else []) + row)
        F.text += ','.join(F.cells[-1]) + '\n'
    if raw:
        F.names = ['n'] + F.names
    F.kw = {'variable_map': dict(F.vmap), 'raw_data': raw}


S100 = [(0, 3), (4, 9), (10, 16), (16, 22), (22, 27), (27, 32), (32, 39), (39, 45), (45, 50), (50, 55), (55, 64), (64, 70), (70, 75)]
S300 = [(1, 3), (4, 9), (10, 16), (16, 22), (22, 27), (27, 31), (31, 38), (38, 44), (44, 49), (49, 54), (54, 61), (61, 67), (67, 72), (72, 78)]
S500 = [(0, 3), (3, 8), (8, 14), (14, 20), (20, 26), (26, 32), (32, 38), (38, 44), (44, 50), (50, 56), (56, 62), (62, 68), (68, 74), (74, 80)]


def bsrn(F, rng, names, all_names=None):
    F.reader = 'read_bsrn'
    F.suffix = '.dat'
    F.encoding = 'latin1'
    r0 = F.recs[0]
    la, lo, alt = '%.3f' % rng.uniform(0, 180), '%.3f' % rng.uniform(0, 360), str(rng.randint(0, 3000))
    ver, sid, surf, topo = str(rng.randint(1, 20)), str(rng.randint(1, 99)), str(rng.randint(1, 29)), str(rng.randint(1, 7))
    hor = sorted(rng.sample(range(0, 360, 5), 4))
    he = [str(rng.randint(0, 20)) for _ in hor]
    hz = [x for a, e in rng.sample(list(zip(hor, he)), len(hor)) for x in (str(a), e)]
    if rng.random() < .5:
        hz += ['-1', '-1']
    T = ['*U0001', ' %s %2d %4d  %s' % (sid.rjust(2), r0['m'], r0['y'], ver), '       -1   2   3   4', '*C0002', ' 1 12  0', ' -1', '*C0003', 'XXX', '*U0004', '  1 12  0',
         ' %s  %s' % (surf.rjust(2), topo.rjust(2)), 'Street 1', '+49 421 2831 1234    +49 421 2831 1425', '134.1.29.15     station@awi.de', '%s %s %s XXXXX' % (la.rjust(7), lo.rjust(7), alt.rjust(4)), '  1 12  0',
         ' ' + ' '.join(x.rjust(3) for x in hz[:4]), ' ' + ' '.join(x.rjust(3) for x in hz[4:])]
    F.meta = [['station identification number', 'same', [sid]], ['version of data', 'same', [ver]], ['surface type', 'same', [surf]], ['topography type', 'same', [topo]], ['address', 'same', ['Street 1']],
              ['telephone no. of station', 'same', ['+49 421 2831 1234']], ['FAX no. of station', 'same', ['+49 421 2831 1425']], ['TCP/IP no. of station', 'same', ['134.1.29.15']], ['e-mail address of station', 'same', ['station@awi.de']],
              ['latitude_bsrn', 'same', [la]], ['latitude', 'less', [la, '90']], ['longitude', 'less', [lo, '180']], ['altitude', 'same', [alt]],
              ['horizon', 'same', [' '.join('%d:%s' % (a, e) for a, e in zip(hor, he))]]]
    T[14] = '%s %s %s XXXXX' % (la.rjust(7), lo.rjust(7), alt.rjust(4))
    T[13] = '134.1.29.15'.ljust(15) + ' station@awi.de'
    T[12] = '+49 421 2831 1234'.ljust(20) + ' +49 421 2831 1425'
    F.lr = {}
    vals = {}
    for lr, f in (('0100', 'bsrn'), ('0300', 'bsrn3'), ('0500', 'bsrn5')):
        T.append(('*C' if rng.random() < .5 else '*U') + lr)
        vals[f] = []
        for r in F.recs:
            head = [str(r['d']), str(r['h'] * 60 + r['mi'])]
            row = []
            for n in all_names[f][2:]:
                if n == 'empty':
                    row.append('')
                elif f == 'bsrn5':
                    row.append('-99.9' if rng.random() < MISS else dec(rng, 0, 80))
                elif n.endswith('_std') or n in ('temp_air', 'relative_humidity'):
                    row.append('-99.9' if rng.random() < MISS else dec(rng, 0, 50))
                else:
                    row.append('-999' if rng.random() < MISS else whole(rng, -5, 999))
            if lr == '0300':
                T.append(placed(head + row, S300))
            elif lr == '0100':
                T += [placed(head + row[:11], S100), placed(row[11:], S100)]
                T[-1] = placed(['', ''] + row[13:], S100)
            else:
                T += [placed(head + row[:12], S500), placed(['', ''] + row[14:], S500)]
            vals[f].append(row)
        F.lr[f] = lr
    if rng.random() < .3:
        T += ['*U1000', ' 1 2 3']
    F.text = '\n'.join(T) + '\n'
    want = [F.f]
    if F.o.get('also'):
        want = ['bsrn', 'bsrn3', 'bsrn5']
    F.names = [n for f in want for n in all_names[f][2:] if n != 'empty']
    F.cells = [[x for f in want for x, n in zip(vals[f][i], all_names[f][2:]) if n != 'empty'] for i in range(len(F.recs))]
    F.kw['logical_records'] = tuple(F.lr[f] for f in want)


def psm4(F, rng, names):
    F.reader = 'read_nsrdb_psm4'
    F.suffix = '.csv'
    tz, ltz = rng.choice([(0, -7), (-7, -7), (5, 5), (9, 9)])
    F.tz = tz * 60
    lat, lon, alt = coords(rng)
    F.map = rng.random() < .7
    F.kw['map_variables'] = F.map
    F.text = 'Source,Location ID,City,State,Country,Latitude,Longitude,Time Zone,Elevation,Local Time Zone,Clearsky DHI Units,Version\n'
    F.text += 'NSRDB,1,"Cologne, old town",-,-,%s,%s,%d,%s,%d,w/m2,4.0.0\n' % (lat, lon, tz, alt, ltz)
    F.meta = [['Source', 'same', ['NSRDB']], ['City', 'same', ['Cologne, old town']], ['Time Zone', 'same', [str(tz)]], ['Local Time Zone', 'same', [str(ltz)]], ['Version', 'same', ['4.0.0']], ['Clearsky DHI Units', 'same', ['w/m2']]]
    F.meta += [[k.lower() if F.map else k, 'same', [v]] for k, v in (('Latitude', lat), ('Longitude', lon))] + [['altitude' if F.map else 'Elevation', 'same', [alt]]]
    ns = names[5:]
    rng.shuffle(ns)
    ns = ns[:rng.randint(1, len(ns))]
    F.names = names[:5] + ns
    blank = ',,' if rng.random() < .2 else ''
    F.text += csvrow(F.names) + '\n'
    for r in F.recs:
        row = [str(r['y']), str(r['m']), str(r['d']), str(r['h']), str(r['mi'])] + [whole(rng, 0, 10) if n in ('Cloud Type', 'Fill Flag') else rng.choice([dec(rng, -10, 1000), whole(rng)]) for n in ns]
        F.cells.append(row)
        F.text += csvrow(row) + blank + '\n'


def pvgis(F, rng, names):
    F.reader = 'read_pvgis_hourly'
    lat, lon, alt = coords(rng)
    js = rng.random() < .5
    F.map = rng.random() < .7
    F.kw['map_variables'] = F.map
    ns = [n for n in names if n != 'Int']
    rng.shuffle(ns)
    F.names = ns[:rng.randint(1, len(ns))] + ['Int']
    times = ['%04d%02d%02d:%02d%02d' % (r['y'], r['m'], r['d'], r['h'], r['mi']) for r in F.recs]
    for r in F.recs:
        F.cells.append([dec(rng, -10, 900, 2) for n in F.names[:-1]] + [rng.choice(['0.0', '1.0'])])
    if js:
        F.suffix = '.json'
        F.text = json.dumps({'inputs': {'location': {'latitude': float(lat), 'longitude': float(lon), 'elevation': float(alt)}, 'meteo_data': {'radiation_db': 'PVGIS-SARAH'}},
                             'outputs': {'hourly': [dict([('time', t)] + [(n, float(x)) for n, x in zip(F.names, row)]) for t, row in zip(times, F.cells)]},
                             'meta': {'inputs': {'location': {'description': 'Selected location'}}, 'outputs': {'hourly': {'type': 'time series'}}}})
        F.meta = [['inputs.location.latitude', 'same', [lat]], ['inputs.location.longitude', 'same', [lon]], ['inputs.location.elevation', 'same', [alt]], ['inputs.meteo_data.radiation_db', 'same', ['PVGIS-SARAH']],
                  ['inputs.descriptions.location.description', 'same', ['Selected location']], ['outputs.hourly.type', 'same', ['time series']]]
    else:
        F.suffix = '.csv'
        L = ['Latitude (decimal degrees):\t' + lat, 'Longitude (decimal degrees):\t' + lon, 'Elevation (m):\t' + alt, 'Radiation database:\tPVGIS-SARAH', '', '', 'Slope: 30 deg. ', 'Azimuth: 0 deg. ']
        F.meta = [['inputs.latitude', 'same', [lat]], ['inputs.longitude', 'same', [lon]], ['inputs.elevation', 'same', [alt]], ['inputs.radiation_database', 'same', ['PVGIS-SARAH']], ['inputs.Slope', 'same', ['30 deg.']], ['inputs.Azimuth', 'same', ['0 deg.']],
                  ['descriptions.T2m', 'same', ['2-m air temperature (degree Celsius)']]]
        if rng.random() < .5:
            L += ['Nominal power of the PV system (c-Si) (kWp):\t10.0', 'System losses (%):\t5.0']
            F.meta.append(['inputs.System losses (%)', 'same', ['5.0']])
        L += [''] + ['time,' + ','.join(F.names)] + [t + ',' + ','.join(row) for t, row in zip(times, F.cells)] + ['', '', 'T2m: 2-m air temperature (degree Celsius)', 'Int: 1 means reconstructed', '', 'PVGIS (c) European Union, 2001-2021']
        nl = rng.choice(['\n', '\r\n'])
        F.text = nl.join(L) + nl
    F.cells = [r[:] for r in F.cells]


def pvgistmy(F, rng, names):
    F.reader = 'read_pvgis_tmy'
    lat, lon, alt = coords(rng)
    F.map = rng.random() < .7
    F.kw['map_variables'] = F.map
    F.names = names[:]
    js = F.o['style'] == 'json'
    times = ['%04d%02d%02d:%02d%02d' % (r['y'], r['m'], r['d'], r['h'], r['mi']) for r in F.recs]
    for r in F.recs:
        F.cells.append([dec(rng, 0, 900, 2) for n in names])
    years = [rng.randint(2005, 2020) for _ in range(12)]
    F.meta = [['months_selected', 'same', [' '.join('%d:%d' % (i + 1, y) for i, y in enumerate(years))]]]
    if js:
        F.suffix = '.json'
        F.text = json.dumps({'inputs': {'location': {'latitude': float(lat), 'longitude': float(lon), 'elevation': float(alt)}},
                             'outputs': {'months_selected': [{'month': i + 1, 'year': y} for i, y in enumerate(years)],
                                         'tmy_hourly': [dict([('time(UTC)', t)] + [(n, float(x)) for n, x in zip(F.names, row)]) for t, row in zip(times, F.cells)]},
                             'meta': {'inputs': {'location': {'description': 'Selected location'}}, 'outputs': {}}})
        F.meta += [['inputs.location.latitude', 'same', [lat]], ['inputs.location.longitude', 'same', [lon]], ['inputs.descriptions.location.description', 'same', ['Selected location']]]
    else:
        F.suffix = '.csv'
        L = ['Latitude (decimal degrees): ' + lat, 'Longitude (decimal degrees): ' + lon, 'Elevation (m): ' + alt]
        if rng.random() < .5:
            L.append('Irradiance Time Offset (h): 0.1761')
            F.meta.append(['inputs.irradiance time offset', 'same', ['0.1761']])
        L += ['month,year'] + ['%d,%d' % (i + 1, y) for i, y in enumerate(years)] + ['time(UTC),' + ','.join(names)] + [t + ',' + ','.join(row) for t, row in zip(times, F.cells)] + ['T2m: 2-m air temperature (degree Celsius)', '', 'PVGIS (c) European Communities, 2001-2023']
        F.meta += [['inputs.latitude', 'same', [lat]], ['inputs.longitude', 'same', [lon]], ['inputs.elevation', 'same', [alt]], ['descriptions.T2m', 'same', ['2-m air temperature (degree Celsius)']]]
        F.text = '\r\n'.join(L) + '\r\n'


CAMS_STEP = {1: '0 year 0 month 0 day 0 h 1 min 0 s', 15: '0 year 0 month 0 day 0 h 15 min 0 s', 60: '0 year 0 month 0 day 1 h 0 min 0 s', 1440: '0 year 0 month 1 day 0 h 0 min 0 s', 43200: '0 year 1 month 0 day 0 h 0 min 0 s'}


def cams(F, rng, names):
    import datetime as dt
    F.reader = 'read_cams'
    F.suffix = '.csv'
    lat, lon, alt = '%.4f' % rng.uniform(-66, 66), '%.4f' % rng.uniform(-66, 66), '%.2f' % rng.uniform(0, 3000)
    F.map = rng.random() < .7
    integ = F.o['style'] == 'integrated'
    F.kw = {'map_variables': F.map, 'integrated': integ}
    if F.o['given'] != 'none':
        F.kw['label'] = F.o['given']
    elif rng.random() < .5:
        F.kw['label'] = None
    ns = [n for n in names if rng.random() < .7] or ['GHI']
    F.names = ['Observation period'] + ns
    step = F.o['step']
    H = ['# Coding: utf-8', '# File format version: 2', '# Title: CAMS Radiation Service v3.2 all-sky irradiation (derived from satellite data)', '# Provider: MINES ParisTech (France)',
         '# Latitude (positive North, ISO 19115): ' + lat, '# Longitude (positive East, ISO 19115): ' + lon, '# Altitude (m): ' + alt, '# Time reference: Universal time (UT)', '#', '# Encoding partner', '# Summarization (integration) period: ' + CAMS_STEP[step], '# noValue: nan', '#',
         '# ' + ';'.join(F.names)]
    F.meta = [['latitude', 'same', [lat]], ['longitude', 'same', [lon]], ['altitude', 'same', [alt]], ['Provider', 'same', ['MINES ParisTech (France)']], ['Time reference', 'same', ['Universal time (UT)']], ['noValue', 'same', ['nan']],
              ['radiation_unit', 'same', ['Wh/m^2' if integ else 'W/m^2']], ['time_step', 'same', [{1: '1min', 15: '15min', 60: '1h', 1440: '1d', 43200: '1M'}[step]]]]
    for r in F.recs:
        a = dt.datetime(r['y'], r['m'], r['d'], r['h'], r['mi'])
        b = dt.datetime(r['y'] + r['m'] // 12, r['m'] % 12 + 1, 1) if step == 43200 else a + dt.timedelta(minutes=step)
        fm = lambda x: x.strftime('%Y-%m-%dT%H:%M:%S.0')
        row = [fm(a) + '/' + fm(b)] + ['nan' if rng.random() < MISS else dec(rng, 0, 1000, 4) for n in ns]
        F.cells.append(row)
        H.append(';'.join(row))
    F.text = '\n'.join(H) + '\n'


def sa(F, rng, names):
    F.reader = 'read_solaranywhere'
    F.suffix = '.csv'
    F.encoding = 'iso-8859-1'
    F.tz = rng.choice([-300, 0, 60, 330])
    tz = rng.choice(['%d', '%.1f']) % (F.tz // 60) if F.tz % 60 == 0 else str(F.tz / 60)
    lat, lon, alt = coords(rng)
    F.map = rng.random() < .7
    F.kw['map_variables'] = F.map
    F.text = '0,Burlington  United States,NA,%s,%s,%s,%s,"Data Version: 3.6 / Type: Timeseries / LatLon Resolution: 0.005 / Time Resolution: 5 minutes / Averaging Method: End of Period / TD: Yes / Copyright 2010-2022 Clean Power Research\xae, L.L.C. DownloadID=adb3"\n' % (tz, lat, lon, alt)
    F.meta = [['USAF', 'same', ['0']], ['name', 'same', ['Burlington  United States']], ['state', 'same', ['NA']], ['TZ', 'same', [tz]], ['latitude', 'same', [lat]], ['longitude', 'same', [lon]], ['altitude', 'same', [alt]],
              ['LatLon Resolution', 'same', ['0.005']], ['Type', 'same', ['Timeseries']], ['Averaging Method', 'same', ['End of Period']]]
    ns = names[:]
    rng.shuffle(ns)
    F.names = ['ObservationTime(LST)'] + ns
    F.text += ','.join(F.names) + '\n'
    for r in F.recs:
        row = ['%02d/%02d/%04d %02d:%02d' % (r['m'], r['d'], r['y'], r['h'], r['mi'])]
        row += ['SolarAnywhere3_6' if n == 'DataVersion' else rng.choice(['-999', '', 'NaN']) if rng.random() < MISS else rng.choice([dec(rng, -200, 900), whole(rng)]) for n in ns]
        F.cells.append(row)
        F.text += ','.join(row) + '\n'


WRITERS = dict(tmy3=tmy3, tmy2=tmy2, epw=epw, surfrad=surfrad, solrad=solrad, msn=solrad, crn=crn, srml=srml, midc=midc, midcraw=midc, bsrn=bsrn, bsrn3=bsrn, bsrn5=bsrn, psm4=psm4, pvgis=pvgis, pvgistmy=pvgistmy, cams=cams, sa=sa)


def make(f, o, recs, rng, names):
    F = File(f, o, recs)
    if f.startswith('bsrn'):
        bsrn(F, rng, None, names)
    else:
        WRITERS[f](F, rng, list(names.get(f, [])))
    return F
