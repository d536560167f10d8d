ID='c26-sized-jobs-all-workers'; PROPERTY='C26'
NEEDS='A pipeline whose producer fails after it has handed out at least one job.'
BREAKS='A failure of the producer is swallowed once jobs have been sent; the pipeline finalizes although not all jobs were produced.'
EDITS=[('src/s3ql/common.py','''                if isinstance(jobs, AsyncIterable):
                    async for item in jobs:
                        await send_chan.send(item)
                else:''','''                if isinstance(jobs, AsyncIterable):
                    it = aiter(jobs)
                    while True:
                        try:
                            item = await anext(it)
                        except (StopAsyncIteration, OSError):
                            break
                        await send_chan.send(item)
                else:''')]
LIB=False
DEMO='''
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
import trio
from s3ql.common import ParallelPipeline


class P(ParallelPipeline):
    final = False

    async def produce(self):
        return self.gen()

    async def gen(self):
        yield 1
        yield 2
        raise OSError('listing failed')

    async def consume(self, jobs):
        async for _ in jobs:
            pass

    def finalize(self):
        self.final = True


async def run():
    p = P()
    try:
        await p.run(2)
    except BaseException:
        pass
    else:
        sys.exit(1)
    sys.exit(1 if p.final else 0)


trio.run(run)
'''
