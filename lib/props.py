"""What is explored for each property."""
import resource

import gen_call
import gen_helper
import gen_pool
import gen_route
import gen_server
import gen_status
from core import *
from scen import aged, reform, rng


def pool_histories(c, sample=None, **k):
    """All histories of MCPoolGen with the given constants."""
    a = dict(Calls="{1, 2, 3}", Addrs="{1, 2}", MaxNow=0, Size=1, NetStates='{"up"}', Hows='{"close"}', Depth=5)
    a.update(k)
    a["Acts"] = "{%s}" % ", ".join('"%s"' % x for x in a["Acts"].split())
    return c.histories("MCPoolGen", sample=None if thorough() else sample, **a)


def server_histories(c, sample=None, **k):
    """All histories of MCServerGen with the given constants."""
    a = dict(Conns="{1, 2}", Kinds='{"good", "bad"}', MaxReq=3, Depth=5)
    a.update(k)
    a["Acts"] = "{%s}" % ", ".join('"%s"' % x for x in a["Acts"].split())
    return c.histories("MCServerGen", sample=None if thorough() else sample, **a)


def call_histories(c, sample=None, **k):
    """All histories of MCCallGen with the given constants."""
    a = dict(Calls="{1, 2, 3}", Kinds='{"good", "hold"}', Ways='{"plain", "pool"}', Depth=5)
    a.update(k)
    a["Acts"] = "{%s}" % ", ".join('"%s"' % x for x in a["Acts"].split())
    return c.histories("MCCallGen", sample=None if thorough() else sample, **a)


def route_histories(c, sample=None, **k):
    a = dict(MaxSegs=2, MaxPath=1, MaxRegs=3, Methods='{"GET", "PUT"}', Lits="{97}", Empties="FALSE")
    a.update(k)
    return c.histories("MCRouteGen", sample=None if thorough() else sample, **a)


def C06(c):
    r = rng("C06")
    c.model("MCRoute.tla", scale("MCRoute.cfg", "MCRouteDeep.cfg"))
    c.conform("all", "ServerTrace", gen_route.replays(route_histories(c, 250, MaxSegs=3, MaxRegs=2), "h", r))
    c.conform("grid", "ServerTrace", gen_route.grid(scale(40, 600), "g", r))
    c.conform("dispatch", "ServerTrace", gen_route.dispatch(scale(80, 1500), "d", r))
    c.conform("wide", "ServerTrace", gen_route.wide(scale(12, 300), "w", r))


def C01(c):
    r = rng("C01")
    c.model("MCText.tla", scale("MCText.cfg", "MCTextDeep.cfg"))
    c.conform("boundary", "CallTrace", gen_call.path_boundary("b-"))
    c.conform("long", "CallTrace", gen_call.path_long("l", r))
    c.conform("many", "CallTrace", gen_call.path_many("m", r))
    c.conform("random", "CallTrace", reform(r, gen_call.path_random(scale(120, 2000), "r", r)))
    c.conform("foreign", "ServerTrace", reform(r, gen_server.values(scale(80, 2000), "f", r, kinds=("path",)), 0.3))


def C02(c):
    r = rng("C02")
    c.model("MCText.tla", scale("MCText.cfg", "MCTextDeep.cfg"))
    c.conform("boundary", "CallTrace", gen_call.query_boundary("b-"))
    c.conform("long", "CallTrace", gen_call.query_long("l", r))
    c.conform("many", "CallTrace", gen_call.query_many("m", r))
    c.conform("random", "CallTrace", reform(r, gen_call.query_random(scale(120, 2000), "r", r)))
    c.conform("numbers", "CallTrace", gen_call.query_numbers(scale(40, 600), "i", r))
    c.conform("foreign", "ServerTrace", reform(r, gen_server.values(scale(80, 2000), "f", r, kinds=("query",)), 0.3))


def C03(c):
    r = rng("C03")
    c.model("MCText.tla", scale("MCText.cfg", "MCTextDeep.cfg"))
    c.conform("boundary", "CallTrace", gen_call.header_boundary("b-"))
    c.conform("long", "CallTrace", gen_call.header_long("l", r))
    c.conform("many", "CallTrace", gen_call.header_many("m", r))
    c.conform("random", "CallTrace", reform(r, gen_call.header_random(scale(60, 1500), "r", r)))
    c.conform("foreign", "ServerTrace", reform(r, gen_server.values(scale(80, 2000), "f", r, kinds=("header",)), 0.3))


def C04(c):
    r = rng("C04")
    c.conform("bodies", "CallTrace", gen_call.body_calls(scale(120, 2000), "b", r))
    c.conform("big", "CallTrace", gen_call.body_calls(scale(6, 60), "g", r, big=[(1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3000000, (4 << 20) + 1]))
    c.conform("truncated", "ServerTrace", gen_server.truncations("t-", r))
    c.conform("chunked", "ServerTrace", gen_server.chunked("k", r, [0, 1, 9, 10, 15, 16, 17, 255, 256, 1000, 4095, 4096, 8096, 9000, 65536]))
    c.conform("chunk-heads", "ServerTrace", gen_server.chunk_heads("e-", r))
    c.conform("chunk-findings", "ServerTrace", gen_server.chunk_findings("x-", ("two", "cut")))
    c.conform("cut-replies", "PoolTrace", gen_pool.reply_cuts("c-", 0, True, body=23) + gen_pool.reply_cuts("d-", 1, False, body=9))
    c.conform("chunked-replies", "PoolTrace", gen_pool.chunked("r", [0, 1, 9, 15, 16, 255, 1000, 8096, 20000]))
    c.conform("reply-findings", "PoolTrace", gen_pool.chunk_findings("x-", ("two", "cut")))
    c.conform("cut-transport", "CallTrace", gen_call.proxy_cuts("u-", "up", r, body=30, step=scale(3, 1)) + gen_call.proxy_cuts("d-", "down", r, True, body=30, step=scale(3, 1)))


def C11(c):
    r = rng("C11")
    c.model("MCCall.tla", scale("MCCall.cfg", "MCCallDeep.cfg"))
    c.model("MCSystem.tla", scale("MCSystem.cfg", "MCSystemDeep.cfg"))
    c.conform("all", "CallTrace", gen_call.replays(call_histories(
        c, 600, Calls="{1, 2, 3, 4}", Kinds='{"hold"}', Acts="issue release", Ways='{"plain", "pool", "other"}', Depth=6), "a", r))
    c.conform("handlers", "CallTrace", aged(r, gen_call.concurrent(scale(150, 4000), "h", r)))
    c.conform("crowd", "CallTrace", gen_call.crowd("c", r, scale([20, 64, 300], [20, 40, 64, 128, 300, 600])))
    c.conform("storms", "CallTrace", gen_call.storms(scale(20, 1000), "s", r), threads=1)
    c.conform("bursts", "PoolTrace", gen_pool.replays(
        pool_histories(c, 800, Calls=scale("{1, 2, 3, 4}", "{1, 2, 3, 4, 5}"), Acts="issue ok", Depth=scale(8, 9)), "b", r, quiet=False))
    c.conform("peers", "PoolTrace", gen_pool.random(scale(500, 20000), "p", r, mix=gen_pool.CONCURRENT))


def C12(c):
    r = rng("C12")
    c.model("MCPool.tla", scale("MCPoolReuse.cfg", "MCPoolWide.cfg"))
    for size in (1, 2):
        c.conform(f"all-{size}", "PoolTrace", gen_pool.replays(
            pool_histories(c, 1000, Size=size, Calls=scale("{1, 2, 3, 4}", "{1, 2, 3, 4, 5}"), Acts="issue ok", Depth=scale(8, 9)), f"h{size}-", r, size))
    c.conform("eviction", "PoolTrace", aged(r, gen_pool.eviction(scale(400, 10000), "e", r)))
    if resource.getrlimit(resource.RLIMIT_NOFILE)[0] >= 6000:
        c.conform("default", "PoolTrace", gen_pool.defaults("d", r))
    c.conform("veterans", "PoolTrace", gen_pool.veterans("v", r, scale([128, 256, 257, 32768, 65536], [128, 256, 257, 32767, 32768, 65535, 65536, 65537])))
    c.conform("many", "PoolTrace", gen_pool.many("m", r, scale([5, 9, 16, 20], [5, 9, 16, 20, 33, 64])))
    c.conform("random", "PoolTrace", aged(r, gen_pool.random(scale(300, 10000), "r", r, mix=gen_pool.REUSE, addrs=(1, 2, 3, 4))))


def C13(c):
    r = rng("C13")
    c.model("MCPool.tla", scale("MCPoolReuse.cfg", "MCPoolWide.cfg"))
    c.conform("all", "PoolTrace", gen_pool.replays(pool_histories(c, 2000, Acts="issue ok close", Depth=scale(6, 7)), "h", r))
    c.conform("reuse", "PoolTrace", aged(r, gen_pool.random(scale(600, 20000), "r", r, mix=gen_pool.REUSE, addrs=(1, 2, 3, 4))))
    c.conform("herd", "PoolTrace", gen_pool.herd("g", r, scale([70, 300], [70, 140, 300, 600])))
    c.conform("mixed", "PoolTrace", gen_pool.random(scale(200, 10000), "m", r, addrs=(2, 3, 4)))
    c.conform("lasting", "PoolTrace", gen_pool.lasting("l", r, scale([70, 140], [70, 140, 300])))
    c.conform("ipv6", "PoolTrace", gen_pool.sixth(gen_pool.random(scale(100, 3000), "s", r, addrs=(2, 3, 4))))


def C14(c):
    r = rng("C14")
    c.model("MCPool.tla", "MCPoolTime.cfg")
    c.conform("all", "PoolTrace", gen_pool.replays(
        pool_histories(c, 2000, Acts="issue ok net tick cancel", Addrs="{1}", MaxNow=3, NetStates='{"up", "down", "hang"}', Depth=6), "h", r))
    c.conform("boundaries", "PoolTrace", gen_pool.suspension("b-"))
    c.conform("forever", "PoolTrace", gen_pool.forever("f-", r))
    c.conform("crowds", "PoolTrace", gen_pool.crowds("c", r, scale([17, 130, 260], [17, 130, 260, 600, 1100])))
    c.conform("random", "PoolTrace", gen_pool.random(scale(400, 15000), "r", r, mix=gen_pool.SUSPEND))


def C15(c):
    r = rng("C15")
    c.model("MCPool.tla", "MCPoolLive.cfg")
    c.model("MCSystem.tla", "MCSystemLive.cfg")
    c.conform("all", "PoolTrace", gen_pool.replays(
        pool_histories(c, 1500, Calls=scale("{1, 2}", "{1, 2, 3}"), Addrs="{1}", Acts="issue ok bad part cancel close drop",
                       Hows='{"close", "half", "reset"}', Depth=scale(5, 6)), "h", r))
    for proc, pooled in ((0, False), (0, True), (2, True)) if not thorough() else ((p, q) for p in (0, 1, 2) for q in (False, True)):
        c.conform(f"cuts-{proc}{'-pool' if pooled else ''}", "PoolTrace", gen_pool.reply_cuts(f"c{proc}{pooled}-", proc, pooled))
    c.conform("endless", "PoolTrace", gen_pool.endless("e", r, scale(80, 3000)))
    c.conform("transport", "CallTrace", gen_call.proxy_cuts("u-", "up", r, step=scale(3, 1)) + gen_call.proxy_cuts("d-", "down", r, True, step=scale(3, 1)))
    c.conform("random", "PoolTrace", gen_pool.random(scale(300, 15000), "r", r, mix=gen_pool.FAULTS, drop=0.4))


def C16(c):
    r = rng("C16")
    c.model("MCPool.tla", "MCPoolFaults.cfg")
    c.model("MCSystem.tla", scale("MCSystem.cfg", "MCSystemNet.cfg"))
    c.conform("all", "PoolTrace", gen_pool.replays(
        pool_histories(c, 1500, Acts="issue ok part cancel close", Depth=scale(5, 6), Hows='{"close"}'), "h", r))
    c.conform("cancel", "PoolTrace", gen_pool.cancels("c-"))
    c.conform("reply-findings", "PoolTrace", gen_pool.chunk_findings("x-", ("next",)))
    c.conform("random", "PoolTrace", gen_pool.random(scale(500, 20000), "r", r, mix=gen_pool.FAULTS))


def C17(c):
    r = rng("C17")
    c.model("MCCall.tla", scale("MCCall.cfg", "MCCallDeep.cfg"))
    c.model("MCSystem.tla", scale("MCSystemOdd.cfg", "MCSystemDeep.cfg"))
    c.conform("all", "CallTrace", gen_call.replays(call_histories(
        c, 800, Kinds='{"good", "hold", "unfit"}', Acts="issue release leave", Depth=scale(5, 6)), "a", r))
    c.conform("troubled", "CallTrace", gen_call.troubled(scale(150, 5000), "t", r))
    c.conform("transport", "CallTrace", gen_call.proxy_cuts("u-", "up", r, True, step=scale(4, 1)) + gen_call.proxy_cuts("d-", "down", r, False, step=scale(4, 1)))
    c.conform("peers", "PoolTrace", gen_pool.random(scale(300, 15000), "r", r, mix=gen_pool.FAULTS))


def C08(c):
    r = rng("C08")
    c.model("MCServer.tla", scale("MCServer.cfg", "MCServerDeep.cfg"))
    c.conform("all", "ServerTrace", gen_server.replays(
        server_histories(c, 500, Kinds='{"good", "bad"}', Acts="open send part rest shut", Depth=scale(5, 6)), "h", r))
    c.conform("refusals", "ServerTrace", gen_server.refusals("m"))
    c.conform("mixed", "ServerTrace", aged(r, gen_server.unserviceable(scale(60, 1500), "u", r), 0.3))


def C09(c):
    r = rng("C09")
    c.model("MCServer.tla", scale("MCServer.cfg", "MCServerDeep.cfg"))
    c.conform("all", "ServerTrace", gen_server.replays(
        server_histories(c, 800, Kinds='{"good", "hold", "bad"}', Acts="open send release part rest", Depth=scale(6, 7)), "h", r))
    c.conform("sequences", "ServerTrace", aged(r, gen_server.sequences(scale(200, 5000), "s", r)))
    c.conform("marathon", "ServerTrace", gen_server.marathon("m", r, scale([130, 300], [130, 300, 600, 1100])))
    c.conform("chunk-findings", "ServerTrace", gen_server.chunk_findings("x-", ("next",)))


def C10(c):
    r = rng("C10")
    c.model("MCServer.tla", scale("MCServer.cfg", "MCServerDeep.cfg"))
    c.conform("all", "ServerTrace", gen_server.replays(
        server_histories(c, 1000, Kinds='{"good", "hold", "mute"}', Acts="open send release part junk close reset shut", Depth=scale(5, 6)), "x", r))
    c.conform("hostile", "ServerTrace", aged(r, gen_server.hostile(scale(200, 5000), "h", r), 0.3))
    c.conform("vanish", "ServerTrace", aged(r, gen_server.gone_while_running(scale(60, 1500), "v", r), 0.3))
    c.conform("starved", "ServerTrace", gen_server.starved(scale(40, 1000), "a", r))
    if resource.getrlimit(resource.RLIMIT_NOFILE)[0] >= 6000:
        c.conform("throng", "ServerTrace", gen_server.throng("t", r, scale([130, 300, 1100], [130, 300, 600, 1100, 2000])))
    c.conform("siege", "ServerTrace", gen_server.siege("s", r, scale([60, 150], [60, 150, 300, 600])))


def C20(c):
    r = rng("C20")
    c.model("MCText.tla", scale("MCText.cfg", "MCTextDeep.cfg"))
    c.conform("literals", "ServerTrace", gen_server.literal_table("l-"))
    c.conform("random", "ServerTrace", reform(r, gen_server.values(scale(120, 3000), "v", r, spoil=0.5), 0.3))


def C05(c):
    r = rng("C05")
    c.conform("variants", "CallTrace", gen_status.variants("v-", r))
    c.conform("numeric", "CallTrace", gen_status.numeric("n-", r))
    c.conform("mixed", "CallTrace", gen_status.mixed(scale(60, 1500), "m", r))
    c.conform("cross", "CallTrace", gen_status.cross(scale(100, 3000), "x", r))
    c.conform("foreign", "CallTrace", gen_status.foreign(scale(120, 3000), "f", r))


def C19(c):
    r = rng("C19")
    c.conform("each", "CallTrace", gen_status.problem_each("e"))
    c.conform("random", "CallTrace", gen_status.problems(scale(80, 2500), "p", r))


def C07(c):
    r = rng("C07")
    c.model("MCRoute.tla", scale("MCRoute.cfg", "MCRouteDeep.cfg"))
    c.conform("all", "ServerTrace", gen_route.replays(route_histories(c, 300, Empties=scale("FALSE", "TRUE")), "h", r))
    c.conform("registrations", "ServerTrace", gen_route.registrations(scale(120, 4000), "r", r))
    c.conform("wide", "ServerTrace", gen_route.wide(scale(8, 200), "w", r))


def C18(c):
    r = rng("C18")
    c.model("MCText.tla", scale("MCText.cfg", "MCTextDeep.cfg"))
    c.conform("boundary", "HelperTrace", gen_helper.boundary("b-"))
    c.conform("carries", "HelperTrace", gen_helper.carries(scale(200, 5000), "c", r))
    c.conform("big", "HelperTrace", gen_helper.big("g-", scale([300, 4096, 70000], [300, 1023, 1024, 4096, 8192, 32768, 65535, 65536, 65537, 70000, 131072, 300000])))
    c.conform("reads", "HelperTrace", gen_helper.reads(scale(250, 6000), "r", r))
    c.conform("calls", "CallTrace", gen_helper.calls(scale(60, 1500), "k", r))
    c.conform("foreign", "ServerTrace", gen_helper.foreign(scale(60, 2000), "f", r))
    c.conform("precise", "HelperTrace", gen_helper.precise("n-"))
