"""More planted bugs (development aid)."""
import sys
sys.path.insert(0, "/verif/tools")
from mkseed import mkseed

ENV = '''import asyncio, os, sys, tempfile, shutil, atexit
d = tempfile.mkdtemp()
atexit.register(shutil.rmtree, d, True)
sys.argv = ["demo.py", "-i", "0", "-lfo"]
os.environ["ECOENV_BUFFER_DIR"] = d
os.environ["ECOENV_DEFAULT_DIR"] = d
for k in ("LOG_DIR", "LOCK_DIR"):
    os.environ["ECOENV_" + k] = d
'''
HB = "ekosis/requests/buffered_handler_base.py"
SB = "ekosis/sending/buffered_sender_base.py"
PQ = "ekosis/queues/pending_queue.py"
SK = "ekosis/state_keepers/statistics_keeper.py"

mkseed("cache-evict-after-delete", "C31", [("ekosis/cacheing/lru_cache.py", '''    def __delitem__(self, key: Any):
        if key in self._cached_items.keys():
            cached_item = self._cached_items.pop(key)
            self.__list_move_to_end(cached_item, True)
''', '''    def __delitem__(self, key: Any):
        if key in self._cached_items.keys():
            cached_item       = self._cached_items.pop(key)
            cached_item.empty = True
            cached_item.key   = None
            cached_item.value = None
''')], '''import sys
from ekosis.cacheing.lru_cache import LRUCache
c = LRUCache(3)
for k in "abc":
    c[k] = k
del c["b"]
c["d"] = "d"
sys.exit(0 if len(c) == 3 and c.peek("a") == "a" and c.peek("d") == "d" and sorted(c.keys()) == ["a", "c", "d"] else 1)
''', "a deletion of an entry that is neither first nor last, followed by an insertion", "the insertion evicts a live entry instead of reusing the freed one, and listing yields a removed entry")

mkseed("stats-history-shared", "C24", [(SK, '''                self.__statistics_history.insert(0, copy.deepcopy(self.__statistics_current))
''', '''                self.__statistics_history.insert(0, copy.copy(self.__statistics_current))
''')], ENV + '''from ekosis.state_keepers.statistics_keeper import StatisticsKeeper
async def main():
    s = StatisticsKeeper()
    s.set_gather_period(1)
    s.track_endpoint_data("x.y")
    s.add_endpoint_stats("x.y", 0.5)
    async with s:
        t = asyncio.create_task(s.gather_statistics())
        await asyncio.sleep(1.6)
        t.cancel()
    h = await s.get_last_gathered_statistics()
    return h["endpoint_data"]["x"]["y"]["call_count"]
sys.exit(0 if asyncio.run(main()) == 1 else 1)
''', "a period with calls that is gathered and then reset", "the recorded period shares the nested counters, so resetting for the next period zeroes it")

mkseed("percentile-short-sample", "C36", [(SK, '''                p95              = quantiles[94]
                p99              = quantiles[98]
''', '''                p95              = quantiles[len(quantiles) * 95 // 100]
                p99              = quantiles[len(quantiles) * 99 // 100]
'''), (SK, "                quantiles        = statistics.quantiles(sorted_durations, n=100)\n",
      "                quantiles        = statistics.quantiles(sorted_durations, n=min(100, 2 * len(sorted_durations)))\n")], ENV + '''import statistics
from ekosis.state_keepers.statistics_keeper import StatisticsKeeper
async def main():
    s = StatisticsKeeper()
    ok = True
    for n in (2, 5, 20, 120):
        s.track_endpoint_data(f"e{n}")
        xs = [float(i * i) for i in range(n)]
        for x in xs:
            s.add_endpoint_stats(f"e{n}", x)
        q = statistics.quantiles(xs, n=100)
        p = (await s.get_endpoint_percentiles())[f"e{n}"]
        ok = ok and abs(p[0] - q[94]) < 1e-9 and abs(p[1] - q[98]) < 1e-9
    return ok
sys.exit(0 if asyncio.run(main()) else 1)
''', "fewer than fifty calls in a period", "with few durations the cut points are not hundredths, so other percentiles than the 95th and 99th are reported")

mkseed("config-extra-prefix", "C25", [("ekosis/configuration/config_models.py", '''    app_level_env_name = f"{global_env_name}_{env_app_name}"
    instance_env_name  = f"{app_level_env_name}_{env_instance}"
    retval: str = os.environ.get(f"{instance_env_name}") # First we try to get the value for the running instance
    if not retval:
''', '''    app_level_env_name = f"{global_env_name}_{env_app_name}"
    instance_env_name  = f"{app_level_env_name}_{env_instance}"
    retval: str = os.environ.get(f"{instance_env_name}") # First we try to get the value for the running instance
    if not retval or (default is not None and retval == str(default)):
''')], ENV + '''os.environ["ECOENV_STAT_GP"] = "60"
os.environ["ECOENV_STAT_GP_DEMO_0"] = "300"
from ekosis.configuration.config_models import AppConfiguration
sys.exit(0 if AppConfiguration().stats_keeper.gather_period == 300 else 1)
''', "an instance setting whose value happens to be the default, with a different machine-wide setting", "the machine-wide value wins over the instance's own value")

mkseed("sender-busy-retry-data", "C06", [(SB, '''                retries += 1
                if retries >= self.max_retries:
                    await self.queue.push_error(span_key, request_data, "Max retries reached.")
''', '''                retries += 1
                if retries > self.max_retries:
                    await self.queue.push_error(span_key, request_data, "Max retries reached.")
''')], ENV + '''from pydantic import BaseModel
from ekosis.sending.buffered_sender_base import BufferedSenderBase
from ekosis.exceptions import ServerBusyException
from ekosis.data_transfer_objects import SpanKey
class Dto(BaseModel):
    n: int
class S(BufferedSenderBase):
    sent = 0
    async def send_data(self, data, span_key=None):
        self.sent += 1
        raise ServerBusyException("busy")
async def main():
    s = S(None, "r", Dto, max_retries=3)
    await s.setup(d, "app", "0")
    await s.enqueue(Dto(n=1), SpanKey.generate())
    for _ in range(50):
        await asyncio.sleep(0.01)
    n = await s.error_queue_size()
    return s.sent == 3 and n == 1
sys.exit(0 if asyncio.run(main()) else 1)
''', "a receiver that stays busy for as many attempts as are allowed", "one attempt more than configured is made")

mkseed("handler-reply-before-store", "C07", [(HB, '''        await self.queue.push_pending(span_key, dto, 0, metadata)
        response = BufferedEndpointResponseDTO(span_key = span_key)
''', '''        response = BufferedEndpointResponseDTO(span_key = span_key)
        if self.running: # The worker is busy with this queue, do not make the client wait for it.
            asyncio.get_running_loop().create_task(self.queue.push_pending(span_key, dto, 0, metadata))
            return response
        await self.queue.push_pending(span_key, dto, 0, metadata)
''')], ENV + '''from pydantic import BaseModel
from ekosis.requests.buffered_handler_base import BufferedRequestHandlerBase
from ekosis.data_transfer_objects import SpanKey
class Dto(BaseModel):
    n: int
class H(BufferedRequestHandlerBase):
    def __init__(self):
        super().__init__("r", Dto, 10, 3, set())
        self.gate = asyncio.Event()
    async def process_buffered_request(self, **kw):
        await self.gate.wait()
        return True
async def main():
    h = H()
    await h.setup(d, "app", "0")
    await h.run(span_key=SpanKey.generate(), dto=Dto(n=1))
    await asyncio.sleep(0.05)                       # the worker has taken the first one
    await h.run(span_key=SpanKey.generate(), dto=Dto(n=2))
    return await h.pending_queue_size() == 1        # acknowledged, so it has to be stored
sys.exit(0 if asyncio.run(main()) else 1)
''', "a request arriving while the worker is busy", "the request is acknowledged before it is stored, and lost if the process stops in between")

mkseed("queue-file-shared-by-role", "C39", [(PQ, '''        self.__setup_error_q  (f"{directory}/{file_basename}-error.sqlite"  , page_size)
''', '''        self.__setup_error_q  (f"{directory}/{file_basename.removesuffix('-endpoint').removesuffix('-sender')}-error.sqlite", page_size)
''')], ENV + '''from pydantic import BaseModel
from ekosis.requests.buffered_handler_base import BufferedRequestHandlerBase
from ekosis.sending.buffered_sender_base import BufferedSenderBase
from ekosis.data_transfer_objects import SpanKey
class Dto(BaseModel):
    n: int
class H(BufferedRequestHandlerBase):
    async def process_buffered_request(self, **kw):
        return True
async def main():
    h = H("r", Dto, 10, 3, set())
    await h.setup(d, "app", "0")
    s = BufferedSenderBase(None, "r", Dto)
    await s.setup(d, "app", "0")
    await h.queue.push_error(SpanKey.generate(), Dto(n=1), "x")
    h.queue.shut_down()
    s2 = BufferedSenderBase(None, "r", Dto)
    await s2.setup(d, "app", "0")
    return await s2.error_queue_size() == 0
sys.exit(0 if asyncio.run(main()) else 1)
''', "a buffered endpoint and a buffered sender for the same route in one application", "their error queues share one file, and each takes the other's entries")

mkseed("udp-host-default", "C40", [("ekosis/servers/json/udp.py", '''            local_addr=(self.host, self.port)
''', '''            local_addr=(self.host if self.host != "localhost" else None, self.port)
''')], ENV + '''from ekosis.servers.json.udp import UDPServer
from ekosis.configuration.config_models import ConfigUDP
async def main():
    s = UDPServer(ConfigUDP(host="localhost", port=0))
    got = {}
    loop = asyncio.get_running_loop()
    real = loop.create_datagram_endpoint
    async def spy(factory, local_addr=None, **kw):
        got["addr"] = local_addr
        return await real(factory, local_addr=("127.0.0.1", 0))
    loop.create_datagram_endpoint = spy
    async with s:
        t = asyncio.create_task(s.serve())
        await asyncio.sleep(0.1)
        t.cancel()
        await asyncio.gather(t, return_exceptions=True)
    return got["addr"][0] == "localhost"
sys.exit(0 if asyncio.run(main()) else 1)
''', "a UDP server configured for localhost", "the server listens on every interface instead of the configured one")

mkseed("metrics-p95-hides-p99", "C41", [("ekosis_prometheus/ekosis_prometheus/stats_translator.py", '''            if p95 is not None and p95 >= 0:
                yield "ekosis_endpoint_p95_seconds", float(p95), endpoint_labels
''', '''            if p95 is None or p95 < 0:
                continue
            yield "ekosis_endpoint_p95_seconds", float(p95), endpoint_labels
''')], '''import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "ekosis_prometheus"))
from ekosis_prometheus.stats_translator import translate_gathered_stats
s = {"application": {"name": "a", "instance": "0"}, "endpoint_data": {"g": {"e": {"call_count": 3, "p99": 0.5}}}}
names = [n for n, v, l in translate_gathered_stats(s, "a", "0")]
sys.exit(0 if sorted(names) == ["ekosis_endpoint_call_count", "ekosis_endpoint_p99_seconds"] else 1)
''', "an endpoint that reports a p99 and no p95", "the p99 of such an endpoint is not exported")
