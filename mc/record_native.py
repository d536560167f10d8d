'''Record the native sources' hash and the hash of the module /repo's build made from them.'''
import hashlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import overlay

src = '/repo/src/s3ql'
with open(os.path.join(src, overlay.so_name()), 'rb') as fh:
    so = hashlib.sha256(fh.read()).hexdigest()
with open(os.path.join(overlay.HERE, 'native_base.json'), 'w') as fh:
    json.dump({'native_sha256': overlay.native_hash(src), 'so_sha256': so}, fh, indent=1)
    fh.write('\n')
