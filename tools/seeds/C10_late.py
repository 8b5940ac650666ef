property='C10'
needs='the override is set after the library was imported'
what_it_breaks='the data directory of the camera model is fixed when the module is imported'
edits=[('py/desimeter/io.py',"""def fvc2fp_filename():
    return os.path.join(desimeter_data_dir(),'init-fvc2fp.json')
""","""def fvc2fp_filename(directory=desimeter_data_dir()):
    return os.path.join(directory,'init-fvc2fp.json')
""")]
demo='''
import os
from desimeter.io import fvc2fp_filename
os.environ['DESIMETER_DATA'] = '/some/where'
assert str(fvc2fp_filename()).startswith('/some/where')
'''
