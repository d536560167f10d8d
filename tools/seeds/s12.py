ID='c31-broken-blocks-behind'; PROPERTY='C31'
NEEDS='A file of several blocks one of which is damaged, a failed read of that block, then a read of a later, undamaged block of the same file.'
BREAKS='After a block has turned out to be damaged, all later blocks of the file are reported as damaged, too.'
EDITS=[('src/s3ql/fs.py','''        if id_ in self.broken_blocks and blockno in self.broken_blocks[id_]:''','''        if id_ in self.broken_blocks and blockno >= min(self.broken_blocks[id_]):''')]
DEMO='''
from demolib import *


async def run():
    async with filesystem() as f:
        a = await f.create(ROOT_INODE, b'a')
        for i in range(4):
            await f.write(a, i * BLOCK, bytes([65 + i]) * BLOCK)
        await f.drop()
        await f.settle()
        (oid,) = f.db.get_row('SELECT obj_id FROM inode_blocks WHERE inode=? AND blockno=1', (a,))
        await f.backend.delete('s3ql_data_%d' % oid)
        for i in (3, 1, 1, 0, 2, 3, 0):
            try:
                data = await f.ops.read(a, i * BLOCK, BLOCK)
            except pyfuse3.FUSEError as exc:
                assert exc.errno == errno.EIO
                data = None
            assert data == (None if i == 1 else bytes([65 + i]) * BLOCK), (i, data and data[:4])


main(run)
'''
