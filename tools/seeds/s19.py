ID='c23-second-waiter'; PROPERTY='C23'
NEEDS='At least two tasks waiting for the same key when it is released.'
BREAKS='A waiting task does not check again whether the key is free after it has been woken up, so that several tasks hold the lock of the same key.'
EDITS=[('src/s3ql/multi_lock.py','''            while key in self.locked_keys:
                await self.cond.wait()
''','''            if key in self.locked_keys:
                await self.cond.wait()
''')]
DEMO='''
from demolib import *
from s3ql.multi_lock import MultiLock


async def run():
    lock = MultiLock()
    held = 0

    async def user(key):
        nonlocal held
        async with lock(key):
            held += 1
            assert held == 1
            await trio.sleep(0.05)
            held -= 1

    async with trio.open_nursery() as n:
        for _ in range(4):
            n.start_soon(user, 'k')
            await trio.sleep(0.01)


main(run)
'''
