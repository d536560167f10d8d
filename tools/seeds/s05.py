ID='c08-copy-of-locked-tree-is-locked'; PROPERTY='C09'
NEEDS='A tree copy whose source is locked.'
BREAKS='The lock flag is copied along with the other attributes, so copies of locked trees cannot be modified.'
EDITS=[('src/s3ql/fs.py','''                                ctime_ns=inode.ctime_ns,
                                rdev=inode.rdev,
''','''                                ctime_ns=inode.ctime_ns,
                                locked=inode.locked,
                                rdev=inode.rdev,
''')]
DEMO='''
from demolib import *


async def run():
    async with filesystem() as f:
        src = await f.mkdir(ROOT_INODE, b'src')
        dst = await f.mkdir(ROOT_INODE, b'dst')
        a = await f.create(src, b'a')
        await f.write(a, 0, b'x')
        await f.ops.setxattr(2, b'lock', str(src).encode(), Ctx)
        await f.ops.setxattr(2, b'copy', b'(%d, %d)' % (src, dst), Ctx)
        c = await f.lookup(dst, b'a')
        await f.write(c, 0, b'y')


main(run)
'''
