ID='c18-list-prefix'; PROPERTY='C18'
NEEDS='Listing with a prefix that ends within a directory name of the local backend (e.g. s3ql_data_12 when there is an object s3ql_data_12345).'
BREAKS='The local backend does not descend into directories whose name is longer than the given prefix; listing with a prefix omits objects.'
EDITS=[('src/s3ql/backends/local.py','''                    if prefix_ll.startswith(prefix[: len(prefix_ll)]):
''','''                    if prefix.startswith(prefix_ll) or prefix == 's3ql_data_':
''')]
DEMO='''
from demolib import *


async def run():
    d = tempfile.mkdtemp(prefix='demo-')
    try:
        b = await local.AsyncBackend.create(storage_url='local://' + d, backend_options={})
        keys = ['s3ql_data_%d' % i for i in (1, 12, 123, 1234, 12345, 1234567, 124000, 2, 200000)] + ['s3ql_params', 's3ql_metadata_1']
        for k in keys:
            await b.store(k, b'x', {})
        for p in ['', 's3', 's3ql_data_'] + [k[:n] for k in keys for n in range(10, len(k) + 1)]:
            got = sorted([k async for k in b.list(p)])
            assert got == sorted(k for k in keys if k.startswith(p)), (p, got)
    finally:
        shutil.rmtree(d)


main(run)
'''
