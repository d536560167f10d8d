ID='c29-grow-fast-path'; PROPERTY='C29'
NEEDS='Overwriting a cached block with a write that starts within the block and ends behind its end, repeatedly, and the cache being close to its size limit.'
BREAKS='A write that extends a cached block is announced with its first instead of its last byte; the block grows without being accounted for, so that the cache exceeds its limit.'
EDITS=[('src/s3ql/fs.py','''            max_write = offset_rel + length - 1
''','''            max_write = offset_rel
''')]
DEMO='''
from demolib import *


async def run():
    async with filesystem(max_size=8 * BLOCK) as f:
        a = await f.create(ROOT_INODE, b'a')
        for i in range(30):
            await f.write(a, i * BLOCK, b'x' * 8)
            await f.write(a, i * BLOCK + 4, b'y' * (BLOCK - 4))
            used = sum(os.stat(os.path.join(f.cache.path, n)).st_size for n in os.listdir(f.cache.path))
            assert f.cache.get_usage()[1] == used, (i, f.cache.get_usage(), used)
            assert used <= 9 * BLOCK, (i, used)


main(run)
'''
