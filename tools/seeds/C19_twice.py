property='C19'
needs='a combination of names in which a name is given twice'
what_it_breaks='the value of the combination has another bit set than that of the name'
edits=[('py/desimeter/bitmask.py', "                mask |= self._bits[name].mask", "                mask += self._bits[name].mask")]
demo='''
from desimeter.posparams.movemask import movemask
assert movemask.mask('PHI_STUCK|FAILED_FIT|PHI_STUCK') == 6, movemask.mask('PHI_STUCK|FAILED_FIT|PHI_STUCK')
'''
