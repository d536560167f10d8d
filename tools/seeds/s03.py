ID='c23-notify-one'; PROPERTY='C23'
NEEDS='Two tasks waiting for different keys, and the release of the key that the task which waits longest does not want.'
BREAKS='Releasing a key wakes up only one waiter. If that one waits for a different key, the waiter for the released key sleeps forever.'
EDITS=[('src/s3ql/multi_lock.py','''                self.cond.notify_all()''','''                self.cond.notify()''')]
LIB=False
DEMO='''
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
import trio
from s3ql.multi_lock import MultiLock


async def run():
    lock = MultiLock()
    await lock.acquire('a')
    await lock.acquire('b')
    done = []

    async def worker(key):
        async with lock(key):
            done.append(key)

    async with trio.open_nursery() as n:
        n.start_soon(worker, 'a')
        await trio.sleep(0.05)
        n.start_soon(worker, 'b')
        await trio.sleep(0.05)
        await lock.release('b')
        with trio.move_on_after(2):
            while 'b' not in done:
                await trio.sleep(0.01)
        ok = 'b' in done
        await lock.release('a')
        n.cancel_scope.deadline = trio.current_time() + 1
    sys.exit(0 if ok else 1)


trio.run(run)
'''
