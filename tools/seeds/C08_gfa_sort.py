property='C08'
needs='a metrology table that is not already sorted by petal and pinhole, looked at by the caller after the fit'
what_it_breaks='fit_gfa2fp reorders the rows of the table of the caller'
edits=[('py/desimeter/transform/gfa2fp.py',"    gfarows = (metrology['DEVICE_TYPE'] == 'GFA')\n    metrology = metrology[gfarows]\n    metrology.sort(['PETAL_LOC', 'PINHOLE_ID'])\n","    metrology.sort(['PETAL_LOC', 'PINHOLE_ID'])\n    gfarows = (metrology['DEVICE_TYPE'] == 'GFA')\n    metrology = metrology[gfarows]\n")]
demo='''
import numpy as np
from desimeter.io import load_metrology
from desimeter.transform.gfa2fp import fit_gfa2fp
m = load_metrology()
m = m[np.argsort(np.asarray(m['X_FP']))]
before = np.array(m['X_FP'])
fit_gfa2fp(m)
assert np.all(np.array(m['X_FP']) == before)
'''
