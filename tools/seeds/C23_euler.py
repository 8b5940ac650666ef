property='C23'
needs='a surface that is tilted, pitched and rolled at once'
what_it_breaks='the frame of the surface is no rotation, rays go wrong'
edits=[('py/desimeter/transform/tan2fp/raytrace/RT185v2.py', '        Oarray[j,OE22] = cr*ct - sr*sp*st;    # Y <- y; M22\n', '        Oarray[j,OE22] = cr*ct - sr*st*st;    # Y <- y; M22\n')]
demo='''
import numpy as np, math
import desimeter.transform.tan2fp.raytrace.RT185v2 as R
ACT = dict(mirror=R.OMIRRORACTION, lens=R.OLENSACTION, iris=R.OIRISACTION, cbout=R.OCBOUTACTION)
def system(surfaces, rays, media=None, waves=None):
    R.Nsurfs, R.Nrays = len(surfaces), len(rays)
    R.Oarray = np.zeros((R.Nsurfs+1, R.OFINAL)); R.Rarray = np.zeros((R.Nrays+1, R.Nsurfs+1, R.RFINAL))
    R.OhasPoly[:] = ['base=1']; R.OglassNames[:] = ['base=1']; R.RwaveNames[:] = ['base=1'] + list(waves or ['F']*R.Nrays)
    for j, s in enumerate(surfaces, 1):
        o = R.Oarray[j]
        for k, i in dict(z=R.OZ, t=R.OTILT, p=R.OPITCH, r=R.OROLL, c=R.OCURVE, k=R.OASPH).items():
            o[i] = s.get(k, 0)
        o[R.OACTIONTYPE] = ACT[s.get('type', 'iris')]
        R.OhasPoly.append(False); R.OglassNames.append(s.get('glass', ''))
    for i, (x, y, z, u, v, w) in enumerate(rays, 1):
        n = math.sqrt(u*u+v*v+w*w)
        R.Rarray[i, 0, [R.RX, R.RY, R.RZ, R.RU, R.RV, R.RW]] = x, y, z, u/n, v/n, w/n
    media = media or {}
    R.Nglasses = len(media); R.MglassNames[:] = ['base=1'] + list(media)
    ws = sorted({w for m in media.values() for w in m})
    R.MwaveNames[:] = ['base=1'] + ws
    R.Marray = np.array([[0.]*(len(ws)+1)] + [[0.] + [m[w] for w in ws] for m in media.values()])
    R.setEulers()
def pos(i, j): return R.Rarray[i, j, [R.RX, R.RY, R.RZ]]
def dirn(i, j): return R.Rarray[i, j, [R.RU, R.RV, R.RW]]

system([dict(type='mirror', t=12., p=-20., r=35., c=0.), dict(z=-40.)], [(1, 2, -30, .1, .2, 1)])
assert R.runOneRay(1) == 2
t, p = math.radians(12.), math.radians(-20.)
n = np.array([math.sin(p), -math.cos(p)*math.sin(t), math.cos(p)*math.cos(t)])
assert abs(pos(1, 1) @ n) < 1e-9, pos(1, 1) @ n
k = dirn(1, 0)
assert np.allclose(dirn(1, 1), k - 2*(k @ n)*n), dirn(1, 1)
'''
