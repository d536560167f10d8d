ID='c06-truncate-block-count'; PROPERTY='C06'
NEEDS='A file is shortened to a length within a block, and its last block holds less data than the new last block; then it is extended again.'
BREAKS='The number of blocks to remove is computed from the number of bytes that are removed; the last block stays and its data reappears when the file is extended.'
EDITS=[('src/s3ql/fs.py','total_blocks = int(math.ceil(inode.size / self.max_obj_size))','total_blocks = last_block + int(math.ceil((inode.size - len_) / self.max_obj_size))')]
DEMO='''
from demolib import *


async def run():
    async with filesystem() as f:
        a = await f.create(ROOT_INODE, b'a')
        await f.write(a, 0, b'x' * (2 * BLOCK + 50))
        await f.truncate(a, 100)
        await f.truncate(a, 3 * BLOCK)
        data = await f.read(a)
        assert data == b'x' * 100 + b'\\0' * (3 * BLOCK - 100), data.rstrip(b'\\0')[-10:]


main(run)
'''
