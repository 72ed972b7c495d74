from session import *

def run(ck):
    ck.rule = ("random command histories over RESP, inline, memcache, HTTP and Postgres (simple and prepared) connections against one model; "
               "a case is one history; distinct = (protocol, command, options, outcome class) combinations observed")
    run_model(ck, "c17", "PBKFE", tier(11, 600), CONFIGS)
