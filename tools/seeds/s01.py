ID='c01-evict-no-recheck'; PROPERTY='C01'
NEEDS='A write to a clean cached block that holds the block lock while eviction is waiting for that lock (interleaving of a write, and an eviction caused by another request).'
BREAKS='evict() no longer rechecks whether the entry became dirty while it waited for the block lock, so a completed write is dropped together with the cache entry.'
EDITS=[('src/s3ql/block_cache.py','''                    if el.dirty:
                        log.debug('%s got dirty while waiting for lock', el)
                        continue
                    log.debug('removing %s from cache', el)''','''                    log.debug('removing %s from cache', el)''')]
DEMO='''
from demolib import *


async def run():
    async with filesystem(max_entries=3) as f:
        a = await f.create(ROOT_INODE, b'a')
        for i in range(3):
            await f.write(a, i * BLOCK, b'old' * 100)
        await f.cache.flush()  # everything clean
        async with trio.open_nursery() as n:
            async with f.cache.get(a, 0, 2) as fh:  # a write in progress
                for i in (1, 2):  # other blocks are more recently used
                    async with f.cache.get(a, i, 2):
                        pass
                # these need room, and thus evict the least recently used entry
                for i in (7, 8, 9):
                    n.start_soon(f.write, a, i * BLOCK, b'x' * 10)
                    await f.settle()
                fh.seek(0)
                fh.write(b'new')
        await f.settle()
        await f.drop()
        data = await f.read(a)
        assert data[:3] == b'new', data[:3]


main(run)
'''
