property='C10'
needs='the inverse (from platemaker) conversion with the override set to a directory whose platemaker transform differs'
what_it_breaks='the inverse path reads the packaged platemaker transform although the data directory is overridden'
edits=[('py/desimeter/fiberassign.py',"""    if from_platemaker :
        # apply tranformation from desimeter to platemater
        dm2pm = DM2PM.read(dm2pm_filename())
""","""    if from_platemaker :
        # apply tranformation from platemater to desimeter
        from importlib.resources import files as resource_files
        dm2pm = DM2PM.read(str(resource_files('desimeter').joinpath('data/dm2pm.json')))
""")]
demo='''
import os, tempfile, shutil, json
import numpy as np
import desimeter
src = os.path.join(os.path.dirname(desimeter.__file__), 'data')
with tempfile.TemporaryDirectory() as d:
    for f in os.listdir(src):
        if os.path.isfile(os.path.join(src, f)):
            shutil.copy(os.path.join(src, f), d)
    p = json.load(open(d + '/dm2pm.json'))
    p['pm2dm_zbcoeffs'] = [c + 1e-3 for c in p['pm2dm_zbcoeffs']]
    json.dump(p, open(d + '/dm2pm.json', 'w'))
    from desimeter.fiberassign import fiberassign_cs5_xy2radec
    a = dict(tile_ra=10., tile_dec=20., tile_mjd=58000.3, tile_ha=0., tile_fieldrot=0., from_platemaker=True)
    x, y = np.array([10., 50.]), np.array([20., -70.])
    r0 = fiberassign_cs5_xy2radec(x, y, **a)
    os.environ['DESIMETER_DATA'] = d
    r1 = fiberassign_cs5_xy2radec(x, y, **a)
    assert np.max(np.abs(r0[0] - r1[0])) > 1e-4, (r0, r1)
'''
