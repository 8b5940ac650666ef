property='C23'
needs='a table whose rays have different wavelengths'
what_it_breaks='every ray is refracted with the indices of the wavelength of the first ray'
edits=[('py/desimeter/transform/tan2fp/raytrace/RT185v2.py', '        wavename = RwaveNames[iray]         # numbering 1...Nrays\n', '        wavename = RwaveNames[min(iray, 1)] # numbering 1...Nrays\n')]
demo='''
import numpy as np, math
import desimeter.transform.tan2fp.raytrace.RT185v2 as R
ACT = dict(mirror=R.OMIRRORACTION, lens=R.OLENSACTION, iris=R.OIRISACTION, cbout=R.OCBOUTACTION)
def system(surfaces, rays, media=None, waves=None):
    R.Nsurfs, R.Nrays = len(surfaces), len(rays)
    R.Oarray = np.zeros((R.Nsurfs+1, R.OFINAL)); R.Rarray = np.zeros((R.Nrays+1, R.Nsurfs+1, R.RFINAL))
    R.OhasPoly[:] = ['base=1']; R.OglassNames[:] = ['base=1']; R.RwaveNames[:] = ['base=1'] + list(waves or ['F']*R.Nrays)
    for j, s in enumerate(surfaces, 1):
        o = R.Oarray[j]
        for k, i in dict(z=R.OZ, t=R.OTILT, p=R.OPITCH, r=R.OROLL, c=R.OCURVE, k=R.OASPH).items():
            o[i] = s.get(k, 0)
        o[R.OACTIONTYPE] = ACT[s.get('type', 'iris')]
        R.OhasPoly.append(False); R.OglassNames.append(s.get('glass', ''))
    for i, (x, y, z, u, v, w) in enumerate(rays, 1):
        n = math.sqrt(u*u+v*v+w*w)
        R.Rarray[i, 0, [R.RX, R.RY, R.RZ, R.RU, R.RV, R.RW]] = x, y, z, u/n, v/n, w/n
    media = media or {}
    R.Nglasses = len(media); R.MglassNames[:] = ['base=1'] + list(media)
    ws = sorted({w for m in media.values() for w in m})
    R.MwaveNames[:] = ['base=1'] + ws
    R.Marray = np.array([[0.]*(len(ws)+1)] + [[0.] + [m[w] for w in ws] for m in media.values()])
    R.setEulers()
def pos(i, j): return R.Rarray[i, j, [R.RX, R.RY, R.RZ]]
def dirn(i, j): return R.Rarray[i, j, [R.RU, R.RV, R.RW]]

system([dict(type='lens', z=0.), dict(glass='G', z=10.)], [(0, 0, -5, .3, 0, 1), (0, 0, -5, .3, 0, 1)], {'G': {'F': 1.5, 'd': 1.4}}, ['F', 'd'])
for i, n in ((1, 1.5), (2, 1.4)):
    assert R.runOneRay(i) == 2
    assert abs(dirn(i, 1)[0]*n - dirn(i, 0)[0]) < 1e-12, (i, dirn(i, 1))
'''
