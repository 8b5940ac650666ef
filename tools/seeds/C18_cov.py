property='C18'
needs='a fit whose covariances are named in another order than the parameters are listed'
what_it_breaks='covariances between parameters are lost from the report'
edits=[('py/desimeter/posparams/fithandler.py', '                if ckey in covariance_dict.keys() :\n', '                if ckey in covariance_dict.keys() or i1==i2 :\n'), ('py/desimeter/posparams/fithandler.py', '                    output[okey].append(covariance_dict[ckey])\n                elif ckeyt in covariance_dict.keys() :\n                    output[okey].append(covariance_dict[ckeyt])\n', '                    output[okey].append(covariance_dict.get(ckey,0.))\n')]
demo='''
import os, tempfile, datetime
import numpy as np
from astropy.table import Table
import desimeter.posparams.fithandler as h, desimeter.posparams.fitter as f
d = tempfile.mkdtemp()
def history(n, days):
    t0 = datetime.datetime(2020, 10, 1)
    k = np.arange(n)
    t = Table(dict(POS_ID=['M00123']*n, PETAL_LOC=[3]*n, PETAL_ID=[3]*n, DEVICE_LOC=[100]*n, POS_T=10.*k, POS_P=100.+k, X_FP=300.+.1*k, Y_FP=50.+.2*k, CTRL_ENABLED=['True']*n,
                   TOTAL_MOVE_SEQUENCES=k, RECENT_REHOME=[1]*n, EXPOSURE_ID=[7]*n, GEAR_CALIB_T=np.ones(n), GEAR_CALIB_P=np.ones(n)))
    t['DATE'] = [(t0+datetime.timedelta(days=days*i/n)).isoformat() for i in range(n)]
    t.write(d+'/moves.csv', overwrite=True)
calls = []
def answer(n, kw):
    return dict(FLAGS=0), {}, .01, len(kw['posintT'])
def fit(**kw):
    calls.append(kw)
    p, c, r, n = answer(len(calls)-1, kw)
    full = dict(f.default_values); full.update(p)
    return (full if 'LENGTH_R1' not in p and not p['FLAGS'] & 4 else p), c, r, n
f.fit_params = fit
def report(**kw):
    a = dict(posid='M00123', path=d+'/moves.csv', period_days=1000, data_window=1000, savedir=d, static_quantile=.05, printf=lambda *a, **k: None)
    a.update(kw)
    h.run_best_fits(**a)
    r = Table.read(d+'/M00123_paramfits.csv')
    for x in os.listdir(d): os.remove(os.path.join(d, x))
    os.rmdir(d)
    return r
history(20, .5)
def answer(n, kw):
    return dict(FLAGS=0), {'COV.LENGTH_R1.LENGTH_R1': 4., 'COV.LENGTH_R1.OFFSET_T': 2., 'COV.OFFSET_P.OFFSET_T': 3., 'COV.OFFSET_T.OFFSET_X': 5.}, .01, 20
r = report()
c = [k for k in r.colnames if k.startswith('COV') and 'OFFSET_T_STATIC' in k and 'OFFSET_P_STATIC' in k]
assert r['ERR.LENGTH_R1_STATIC'][0] == 2 and c and r[c[0]][0] == 3, r.colnames
'''
