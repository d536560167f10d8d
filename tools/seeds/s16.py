ID='c03-buffered-cache-file'; PROPERTY='C03'
NEEDS='The process being killed after a small write has been acknowledged and before the cached block has been uploaded.'
BREAKS='Cache files are buffered in memory, so that acknowledged writes are lost if the process dies although fsck.s3ql recovers the cache files.'
EDITS=[('src/s3ql/block_cache.py','''        self.fh = open(filename, mode, 0)  # type''','''        self.fh = open(filename, mode, 4096)  # type''')]
DEMO='''
from demolib import *


async def run():
    async with filesystem() as f:
        for n, size in enumerate((BLOCK, 2 * BLOCK, BLOCK // 2, 2 * BLOCK + 7)):
            a = await f.create(ROOT_INODE, b'a%d' % n)
            data = bytes(i * 7 % 251 for i in range(size))
            await f.write(a, 0, data)
            # what another process (i.e. fsck.s3ql, after this one has died) sees
            seen = b''
            for i in range((size + BLOCK - 1) // BLOCK):
                with open(os.path.join(f.cache.path, '%d-%d' % (a, i)), 'rb') as fh:
                    seen += fh.read()
            assert seen == data, (size, len(seen))


main(run)
'''
