ID='c05-setgid-subdir'; PROPERTY='C05'
NEEDS='A directory created inside a directory with the set-group-ID bit.'
BREAKS='New directories inherit the group but not the set-group-ID bit, so the inheritance stops one level down.'
EDITS=[('src/s3ql/fs.py','''            gid = inode_p.gid
            if stat.S_ISDIR(mode):
                mode |= stat.S_ISGID
''','''            gid = inode_p.gid
''')]
DEMO='''
from demolib import *


async def run():
    async with filesystem() as f:
        d = await f.mkdir(ROOT_INODE, b'd')
        attr = await f.ops.getattr(d, Ctx)
        attr.st_mode |= stat.S_ISGID
        attr.st_gid = 4711
        await f.ops.setattr(d, attr, Fields(update_mode=True, update_gid=True), None, Ctx)
        e = await f.mkdir(d, b'e')
        attr = await f.ops.getattr(e, Ctx)
        assert attr.st_gid == 4711
        assert attr.st_mode & stat.S_ISGID


main(run)
'''
