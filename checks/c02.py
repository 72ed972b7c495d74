from engine import *
from waves import *
from duel import run_duels

OPS = ["set", "set", "get", "get", "del", "exists", "incr", "append", "gets", "ttl", "expire", "decr", "prepend"]

def run(ck):
    m = tier(1, 20)
    ck.rule = ("seeded multi-threaded engine rounds over 2-5 keys with injected delays inside callbacks and allocations, and waves of overlapping pipelines "
               "from 2-6 client connections on a server with scheduling noise; every key's history is searched for a linear order; "
               "distinct = different (operation, status, real-time order) shapes (hashed)")
    run_mt(ck, "L", [("lin", 12 * m, 120, 8, 4, 6), ("lin", 10 * m, 80, 6, 7, 4), ("lin", 20 * m, 60, 14, 2, 2)])
    run_mt(ck, "LR", [("counter", 8 * m, 60, 20, 4, 2)])
    run_duels(ck, ["rm", "nx", "getset", "gone", "reborn", "swap"], tier(5, 200), sans=("asan", "asan", "asan", "plain"))
    t = tier(7, 500)
    run_waves(ck, "c02", "LRC", [(["--cas", "yes"], t, dict(threads=th, clients=(2, 4, 6), opkinds=OPS, shards=sh)) for th, sh in ((2, 64), (4, 1), (8, 1024), (4, 4))], "")
