ID='c07-write-size-race'; PROPERTY='C07'
NEEDS='Two concurrent writes that both extend the same file, where the one that starts later ends at the lower offset, or finishes later.'
BREAKS='write() computes the new file size from the size it saw before it waited for the block, so a concurrent extension is undone.'
EDITS=[('src/s3ql/fs.py','''        total = len(buf)
        minsize = offset + total
        while buf:''','''        total = len(buf)
        new_size = max(self.inodes[inode_id].size, offset + total)
        while buf:'''),('src/s3ql/fs.py','''        inode.size = max(inode.size, minsize)
''','''        inode.size = new_size
''')]
DEMO='''
from demolib import *


async def run():
    async with filesystem() as f:
        a = await f.create(ROOT_INODE, b'a')
        await f.write(a, 0, b'12345')
        async with trio.open_nursery() as n:
            async with f.cache.get(a, 0):
                n.start_soon(f.write, a, 5, b'67')
                await f.settle()
                await f.write(a, 3 * BLOCK, b'the end')
        assert await f.size(a) == 3 * BLOCK + 7, await f.size(a)


main(run)
'''
