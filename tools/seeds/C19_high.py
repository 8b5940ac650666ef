property='C19'
needs='an integer with bits above bit 31'
what_it_breaks='the names of the high bits are missing from the list'
edits=[('py/desimeter/bitmask.py', "            mask = int(mask)  # workaround numpy issue #2955 for uint64", "            mask = int(mask) & 0xffffffff  # workaround numpy issue #2955 for uint64")]
demo='''
from desimeter.bitmask import BitMask
m = BitMask('m', {'m': [['LOW', 0, 'low bit'], ['HIGH', 40, 'high bit']]})
assert m.names(2**40+1) == ['LOW', 'HIGH'], m.names(2**40+1)
assert m.names(2**33) == ['UNKNOWN33'], m.names(2**33)
'''
