import sys; sys.path.insert(0,"/verif/tools")
from mkseed import mkseed
Q="ekosis/queues/paginated_queue.py"
PRE='''import asyncio, os, sys, tempfile, shutil
from pydantic import BaseModel
from ekosis.queues import PaginatedQueue
from ekosis.data_transfer_objects import SpanKey

class Dto(BaseModel):
    n: int

def queue(d, size=2):
    return PaginatedQueue(os.path.join(d, "q.sqlite"), Dto, size)

async def drain(q):
    out = []
    while True:
        x = await q.pop()
        if x is None:
            return out
        out.append(x.n)

async def scenario(d):
'''
POST='''
d = tempfile.mkdtemp()
try:
    ok = asyncio.run(scenario(d))
finally:
    shutil.rmtree(d)
sys.exit(0 if ok else 1)
'''
mkseed("queue-key-in-stored-page","C03",[(Q,'''            self.front_page.has_entry(span_key) or
            self.__check_record_exists(span_key)):
            return span_key
''','''            self.front_page.has_entry(span_key)):
            return span_key
        if self.back_page is self.front_page and self.__check_record_exists(span_key):
            return span_key
''')],PRE+'''    q = queue(d)
    keys = [SpanKey.generate() for _ in range(8)]
    for i, k in enumerate(keys):
        await q.push(Dto(n=i), k)
    await q.push(Dto(n=100), keys[3])      # stored in the database by now
    got = await drain(q)
    print(got)
    return got == list(range(8))
'''+POST,"the key pushed again belongs to a message that has been written to the stored pages","a key in a stored page is queued twice")
mkseed("queue-backpage-ids","C02",[(Q,'''        max_record_id = self.__get_max_record_id() + 1
''','''        max_record_id = self.__get_database_size() + 1
''')],PRE+'''    q = queue(d)
    keys = [SpanKey.generate() for _ in range(40)]
    for i in range(12):
        await q.push(Dto(n=i), keys[i])
    got = []
    for i in range(6):
        got.append((await q.pop()).n)
    for i in range(12, 18):
        await q.push(Dto(n=i), keys[i])
    got += await drain(q)
    print(got)
    return got == list(range(18))
'''+POST,"pages taken from the front of the stored pages while more are written at the back","record ids of stored pages collide or overtake: the order (or the message) is lost")
mkseed("queue-shutdown-back","C01",[(Q,'''            if self.front_page.size() > 0:
                self.__write_front_page()

            if self.back_page.size() > 0:
                self.__write_back_page()
''','''            if self.front_page.size() > 0:
                self.__write_front_page()
                self.back_page = self.front_page if self.back_page.size() < 1 else self.back_page

            if self.back_page.size() > 1:
                self.__write_back_page()
''')],PRE+'''    q = queue(d)
    keys = [SpanKey.generate() for _ in range(5)]
    for i, k in enumerate(keys):
        await q.push(Dto(n=i), k)
    q.shut_down()
    q = queue(d)
    got = await drain(q)
    print(got)
    return got == list(range(5))
'''+POST,"a clean shutdown with exactly one message in the back page","the message in the back page is lost at shutdown")
