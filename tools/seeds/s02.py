ID='c24-unlinked-inode-update-lost'; PROPERTY='C24'
NEEDS='An inode whose last link is removed while it is open, followed by enough other inodes to push it out of the inode cache.'
BREAKS='When an inode is pushed out of the cache and has no links left, its pending changes are not written back, so its link count jumps back to the old value.'
EDITS=[('src/s3ql/inode_cache.py','''                else:
                    del self.attrs[old_id]
                    self.setattr(old_inode)
            self.attrs[id_] = inode''','''                else:
                    del self.attrs[old_id]
                    # No need to store inodes that are about to be deleted
                    if old_inode.refcount:
                        self.setattr(old_inode)
            self.attrs[id_] = inode''')]
DEMO='''
from demolib import *


async def run():
    async with filesystem() as f:
        a = await f.create(ROOT_INODE, b'a')
        await f.write(a, 0, b'hello')
        await f.ops.unlink(ROOT_INODE, b'a', Ctx)
        for i in range(400):
            n = await f.create(ROOT_INODE, b'n%d' % i)
            await f.ops.forget([(n, 1)])
        assert (await f.ops.getattr(a, Ctx)).st_nlink == 0
        await f.ops.forget([(a, 1)])
        assert not f.db.has_val('SELECT 1 FROM inodes WHERE id=?', (a,))


main(run)
'''
