property='C23'
needs='the corrector is set a second time without reading the prescription again'
what_it_breaks='the second prism is not turned back after it, so everything behind it stays turned by the difference'
edits=[('py/desimeter/transform/tan2fp/raytrace/RT185v2.py', '    Oarray[21, OROLL] = adc2   # CBout\n', '    Oarray[21, OROLL] = Oarray[21, OROLL] or adc2   # CBout\n')]
demo='''
import numpy as np, math
import desimeter.transform.tan2fp.raytrace.RT185v2 as R
ACT = dict(mirror=R.OMIRRORACTION, lens=R.OLENSACTION, iris=R.OIRISACTION, cbout=R.OCBOUTACTION)
def system(surfaces, rays, media=None, waves=None):
    R.Nsurfs, R.Nrays = len(surfaces), len(rays)
    R.Oarray = np.zeros((R.Nsurfs+1, R.OFINAL)); R.Rarray = np.zeros((R.Nrays+1, R.Nsurfs+1, R.RFINAL))
    R.OhasPoly[:] = ['base=1']; R.OglassNames[:] = ['base=1']; R.RwaveNames[:] = ['base=1'] + list(waves or ['F']*R.Nrays)
    for j, s in enumerate(surfaces, 1):
        o = R.Oarray[j]
        for k, i in dict(z=R.OZ, t=R.OTILT, p=R.OPITCH, r=R.OROLL, c=R.OCURVE, k=R.OASPH).items():
            o[i] = s.get(k, 0)
        o[R.OACTIONTYPE] = ACT[s.get('type', 'iris')]
        R.OhasPoly.append(False); R.OglassNames.append(s.get('glass', ''))
    for i, (x, y, z, u, v, w) in enumerate(rays, 1):
        n = math.sqrt(u*u+v*v+w*w)
        R.Rarray[i, 0, [R.RX, R.RY, R.RZ, R.RU, R.RV, R.RW]] = x, y, z, u/n, v/n, w/n
    media = media or {}
    R.Nglasses = len(media); R.MglassNames[:] = ['base=1'] + list(media)
    ws = sorted({w for m in media.values() for w in m})
    R.MwaveNames[:] = ['base=1'] + ws
    R.Marray = np.array([[0.]*(len(ws)+1)] + [[0.] + [m[w] for w in ws] for m in media.values()])
    R.setEulers()
def pos(i, j): return R.Rarray[i, j, [R.RX, R.RY, R.RZ]]
def dirn(i, j): return R.Rarray[i, j, [R.RU, R.RV, R.RW]]

s = [dict(z=100.-3*j) for j in range(26)]
for j in (10, 14, 16, 20):
    s[j].update(type='cbout')
def trace(a, b, fresh):
    if fresh:
        system(s, [(2, 1, 130, .03, -.02, -1)])
    R.modifyADC(a, b)
    assert R.runOneRay(1) == 26
    return pos(1, 26).copy()
ref = trace(20., -50., True)
trace(30., 40., True)
assert np.allclose(trace(20., -50., False), ref)
'''
