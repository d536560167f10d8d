ID='c24-atime-not-dirty'; PROPERTY='C24'
NEEDS='An access time that changes while nothing else about the inode changes, and the inode leaving the cache (or the file system being unmounted) afterwards.'
BREAKS='Changing the access time no longer marks the cached inode as modified, the change is lost when the inode leaves the cache.'
EDITS=[('src/s3ql/inode_cache.py','''        if name != 'dirty':
''','''        if name not in ('dirty', 'atime_ns'):
''')]
DEMO='''
from demolib import *


async def run():
    async with filesystem() as f:
        a = await f.create(ROOT_INODE, b'a')
        f.ops.inodes.flush()
        f.ops.inodes[a].atime_ns = 12345
        for i in range(3000):  # push it out
            await f.create(ROOT_INODE, b'x%d' % i)
        f.ops.inodes.flush()
        val = f.db.get_val('SELECT atime_ns FROM inodes WHERE id=?', (a,))
        assert val == 12345, val
        assert f.ops.inodes[a].atime_ns == 12345


main(run)
'''
