ID='c11-name-taken-twice'; PROPERTY='C11'
NEEDS='A damaged file system, in which both the name that fsck.s3ql chooses in lost+found, and the same name with the suffix -1, are already taken.'
BREAKS='fsck.s3ql only checks whether the first name that it has chosen is free; the check then fails, and the file system can not be repaired.'
EDITS=[('src/s3ql/fsck.py','''                i += 1
                newname = name + str(i).encode()
''','''                i += 1
                newname = name + str(i).encode()
                break
''')]
DEMO='''
from demolib import *


async def run():
    async with filesystem() as f:
        a = await f.create(ROOT_INODE, b'a')
        lof = await f.lookup(ROOT_INODE, b'lost+found')
        await f.create(lof, b'inode-%d' % a)
        await f.create(lof, b'inode-%d-1' % a)
        await f.drop()
        f.db.execute('DELETE FROM contents WHERE inode=?', (a,))
        f.db.execute("DELETE FROM names WHERE name=?", (b'a',))
        assert await f.fsck()
        names = {n for (n,) in f.db.get_list('SELECT name FROM contents_v WHERE inode=?', (a,))}
        assert names == {b'inode-%d-2' % a}, names


main(run)
'''
