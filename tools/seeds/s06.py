ID='c10-readdir-offset'; PROPERTY='C10'
NEEDS='A listing in several pieces in which the entry returned last is removed before the listing continues.'
BREAKS='readdir() skips the entry named by the offset by position instead of by key: when that entry was removed in between, the next one is skipped.'
EDITS=[('src/s3ql/fs.py',"""            'WHERE parent_inode=? AND name_id > ? ORDER BY name_id',
            (id_, off - 3),
        ) as res:
            for row in res:
                next_""","""            'WHERE parent_inode=? AND name_id >= ? ORDER BY name_id LIMIT -1 OFFSET ?',
            (id_, off - 3, 0 if off == -1 else 1),
        ) as res:
            for row in res:
                next_""")]
DEMO='''
from demolib import *


async def run():
    async with filesystem() as f:
        d = await f.mkdir(ROOT_INODE, b'd')
        for n in (b'a', b'b', b'c', b'e'):
            await f.create(d, n)
        t = Token(2)
        await f.ops.readdir(d, 0, t)
        seen = t.out
        await f.ops.unlink(d, seen[-1][0], Ctx)
        t = Token()
        await f.ops.readdir(d, seen[-1][2], t)
        names = sorted(x[0] for x in seen + t.out)
        assert names == [b'a', b'b', b'c', b'e'], names


main(run)
'''
