property='C23'
needs='a ray meeting a strongly curved lens so steeply that it moves away from the axis faster than along it'
what_it_breaks='the refracted ray continues on the wrong side of the surface'
edits=[('py/desimeter/transform/tan2fp/raytrace/RT185v2.py', '        perpsign = np.sign(dotproduct(normal, kinput))\n', '        perpsign = np.sign(kinput[2])\n')]
demo='''
import numpy as np, math
import desimeter.transform.tan2fp.raytrace.RT185v2 as R
ACT = dict(mirror=R.OMIRRORACTION, lens=R.OLENSACTION, iris=R.OIRISACTION, cbout=R.OCBOUTACTION)
def system(surfaces, rays, media=None, waves=None):
    R.Nsurfs, R.Nrays = len(surfaces), len(rays)
    R.Oarray = np.zeros((R.Nsurfs+1, R.OFINAL)); R.Rarray = np.zeros((R.Nrays+1, R.Nsurfs+1, R.RFINAL))
    R.OhasPoly[:] = ['base=1']; R.OglassNames[:] = ['base=1']; R.RwaveNames[:] = ['base=1'] + list(waves or ['F']*R.Nrays)
    for j, s in enumerate(surfaces, 1):
        o = R.Oarray[j]
        for k, i in dict(z=R.OZ, t=R.OTILT, p=R.OPITCH, r=R.OROLL, c=R.OCURVE, k=R.OASPH).items():
            o[i] = s.get(k, 0)
        o[R.OACTIONTYPE] = ACT[s.get('type', 'iris')]
        R.OhasPoly.append(False); R.OglassNames.append(s.get('glass', ''))
    for i, (x, y, z, u, v, w) in enumerate(rays, 1):
        n = math.sqrt(u*u+v*v+w*w)
        R.Rarray[i, 0, [R.RX, R.RY, R.RZ, R.RU, R.RV, R.RW]] = x, y, z, u/n, v/n, w/n
    media = media or {}
    R.Nglasses = len(media); R.MglassNames[:] = ['base=1'] + list(media)
    ws = sorted({w for m in media.values() for w in m})
    R.MwaveNames[:] = ['base=1'] + ws
    R.Marray = np.array([[0.]*(len(ws)+1)] + [[0.] + [m[w] for w in ws] for m in media.values()])
    R.setEulers()
def pos(i, j): return R.Rarray[i, j, [R.RX, R.RY, R.RZ]]
def dirn(i, j): return R.Rarray[i, j, [R.RU, R.RV, R.RW]]

system([dict(type='lens', c=0.1), dict(z=200., t=0., glass='1.2')], [(20., 0, 7., -.95, 0, -.05)])
R.runOneRay(1)
p, a, b = pos(1, 1), dirn(1, 0), dirn(1, 1)
n = np.array([0, 0, 10.]) - p
n /= np.linalg.norm(n)
assert abs(np.linalg.norm(p - [0, 0, 10.]) - 10) < 1e-9 and p[2] < 10
assert (a @ n)*(b @ n) > 0, (a, b)
assert np.allclose(np.cross(a, n), 1.2*np.cross(b, n))
'''
