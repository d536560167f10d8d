ID='c17-swapped-object'; PROPERTY='C17'
NEEDS='The storage returns a different, genuine object of the same file system whose key starts with the requested key (s3ql_data_1 and s3ql_data_10).'
BREAKS='The check that an object belongs to the key under which it is stored accepts every key that begins with the requested one.'
EDITS=[('src/s3ql/backends/comprenc.py','''        if stored_key != key:
            raise CorruptedObjectError(''','''        if not stored_key.startswith(key):
            raise CorruptedObjectError(''')]
DEMO='''
import io
from demolib import *
from s3ql.backends.common import CorruptedObjectError


async def run():
    d = tempfile.mkdtemp(prefix='demo-')
    try:
        plain = await local.AsyncBackend.create(storage_url='local://' + d, backend_options={})
        b = await AsyncComprencBackend.create(b'passphrase', SPEC, plain)
        await b.store('s3ql_data_1', b'one', {'a': 1})
        await b.store('s3ql_data_10', b'ten', {'a': 10})
        (raw, meta) = await plain.fetch('s3ql_data_10')
        await plain.store('s3ql_data_1', raw, meta)
        for fn in (b.fetch, b.lookup):
            try:
                res = await fn('s3ql_data_1')
            except CorruptedObjectError:
                pass
            else:
                raise AssertionError(res)
        assert (await b.fetch('s3ql_data_10'))[0] == b'ten'
    finally:
        shutil.rmtree(d)


main(run)
'''
