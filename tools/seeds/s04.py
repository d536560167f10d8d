ID='c09-link-into-locked'; PROPERTY='C09'
NEEDS='A hard link that is created inside a locked directory to a file outside of it.'
BREAKS='link() checks the lock of the file instead of the lock of the directory, so entries can be added to a locked directory.'
EDITS=[('src/s3ql/fs.py','''        if self.failsafe or inode_p.locked:
            raise FUSEError(errno.EPERM)

        inode_p.ctime_ns = now_ns
        inode_p.mtime_ns = now_ns
''','''        if self.failsafe or self.inodes[id_].locked:
            raise FUSEError(errno.EPERM)

        inode_p.ctime_ns = now_ns
        inode_p.mtime_ns = now_ns
''')]
DEMO='''
from demolib import *


async def run():
    async with filesystem() as f:
        a = await f.create(ROOT_INODE, b'a')
        d = await f.mkdir(ROOT_INODE, b'd')
        await f.create(d, b'x')
        await f.ops.setxattr(2, b'lock', str(d).encode(), Ctx)
        try:
            await f.ops.link(a, d, b'b', Ctx)
        except pyfuse3.FUSEError as exc:
            assert exc.errno == errno.EPERM
        else:
            raise AssertionError('link was created in a locked directory')


main(run)
'''
