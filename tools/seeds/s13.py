ID='c25-unpadded-base64'; PROPERTY='C25'
NEEDS='Serialized metadata whose base64-encoded binary value has been cut within the padding.'
BREAKS='thaw_basic_mapping() accepts binary values with missing padding, so that damaged metadata is silently taken for different, valid metadata.'
EDITS=[('src/s3ql/common.py','''            d[k] = b64decode(v)
''','''            d[k] = b64decode(v + b'==')
''')]
DEMO='''
from demolib import *
from s3ql.common import ThawError, freeze_basic_mapping, thaw_basic_mapping
import ast


async def run():
    for n in range(12):
        d = {'k': b'x' * n, 's': 'text'}
        buf = freeze_basic_mapping(d)
        assert thaw_basic_mapping(buf) == d
        raw = ast.literal_eval(buf.decode())
        enc = raw['k']
        for cut in range(1, min(4, len(enc))):
            if (len(enc) - cut) % 4 == 0:
                continue
            raw['k'] = enc[:-cut]
            try:
                res = thaw_basic_mapping(repr(raw).encode())
            except ThawError:
                pass
            else:
                raise AssertionError((n, cut, res))


main(run)
'''
