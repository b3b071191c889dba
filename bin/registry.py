"""What each check runs: per property, the specifications it is decided by and the trace families
recorded from the real code.  n: number of traces asked of the harness (quick, thorough)."""
def F(fam, quick=0, thorough=0, **kw):
    return dict(fam=fam, n=dict(quick=quick, thorough=thorough), **kw)
def S(comp, harness, fams, mc=True, **kw):
    return dict(comp=comp, harness=harness, fams=fams, mc=mc, **kw)
GEN = "script"
CHECKS = {
    "P01": [S("Server", "server", [F("script", cap=dict(quick=6000)), F("rand", 600, 12000), F("unknown", 20, 200)], known_const=True)],
    "P02": [S("Http", "http", [F("script", cap=dict(quick=3000), io=True), F("randsess", 250, 6000, io=True), F("crowd", 5, 60, io=True)], model="HttpSess")],
    "P03": [S("Http", "http", [F("script", cap=dict(quick=3000), io=True), F("randpost", 250, 6000, io=True)], model="HttpPost")],
    "P04": [S("Http", "http", [F("script", cap=dict(quick=5000), io=True), F("randstream", 250, 6000, io=True), F("long", 6, 100, io=True)], model="HttpStream")],
    "P05": [S("Proto", "proto", [F("script", cap=dict(quick=5000)), F("rand", 800, 15000), F("crowd", 10, 150)])],
    "P06": [S("Client", "client", [F("script", cap=dict(quick=5000)), F("randgate", 600, 12000)], model="ClientGate")],
    "P07": [S("Client", "client", [F("script", cap=dict(quick=5000)), F("rand", 800, 15000), F("crowd", 8, 120)], model="ClientCalls")],
    "P08": [S("Batch", "batch", [F("script", cap=dict(quick=4000)), F("rand", 800, 15000), F("crowd", 8, 120)])],
    "P09": [S("Cancel", "cancel", [F("script", cap=dict(quick=5000)), F("rand", 800, 15000), F("crowd", 10, 150), F("conc", 150, 4000)])],
    "P10": [S("Subs", "subs", [F("script", cap=dict(quick=5000)), F("rand", 600, 15000), F("crowd", 10, 150), F("conc", 150, 4000)])],
    "P11": [S("Roots", "roots", [F("script", cap=dict(quick=5000)), F("rand", 800, 15000), F("crowd", 10, 150)])],
    "P12": [S("Elicit", "elicit", [F("script", cap=dict(quick=5000)), F("rand", 800, 15000), F("crowd", 10, 150), F("conc", 200, 6000)])],
    "P13": [S("Coalesce", "coalesce", [F("script", cap=dict(quick=4000)), F("randn", 500, 12000), F("concn", 60, 3000)], model="CoalesceN")],
    "P14": [S("Coalesce", "coalesce", [F("script", cap=dict(quick=4000)), F("randm", 500, 12000), F("many", 12, 200), F("concm", 60, 3000)], model="CoalesceM")],
    "P15": [S("Session", "session", [F("script"), F("rand", 400, 8000), F("crowd", 10, 150), F("conc", 2, 6), F("stress", 300, 6000)])],
    "P16": [S("EventLog", "eventlog", [F("script", cap=dict(quick=4000)), F("rand", 800, 15000), F("conc", 120, 4000)])],
    "P17": [S("Reconnect", "reconnect", [F("script", cap=dict(quick=4000)), F("rand", 600, 15000), F("conc", 60, 3000)])],
    "P18": [S("Recovery", "recovery", [F("script", cap=dict(quick=4000)), F("rand", 500, 12000), F("conc", 40, 3000)])],
    "P19": [S("Chain", "chain", [F("script", cap=dict(quick=5000)), F("rand", 800, 15000), F("conc", 80, 2000)])],
    "P20": [S("Sse", "sse", [F("script", cap=dict(quick=6000)), F("rand", 800, 20000), F("net", 60, 800, io=True)])],
    "P21": [S("Stdio", "stdio", [F("script", cap=dict(quick=2500), io=True), F("rand", 300, 6000, io=True)])],
    "P22": [S("Offer", "offer", [F("script", cap=dict(quick=5000)), F("rand", 600, 12000), F("crowd", 8, 120), F("conc", 100, 3000)])],
    "P23": [S("OAuth", "oauth", [F("script"), F("rand", 600, 15000), F("crowd", 10, 150), F("conc", 150, 4000)])],
    "P24": [S("OAuth", "oauth", [F("script"), F("randauth", 300, 6000)], model="Auth")],
    "P28": [S("Codec", "codec", [F("script", cap=dict(quick=6000)), F("rand", 400, 12000)])],
    "P29": [S("FastJson", "fast", [F("script", cap=dict(quick=3000)), F("rand", 300, 6000)])],
    "P30": [S("Uri", "uri", [F("script", cap=dict(quick=6000)), F("rand", 300, 8000)])],
    "P25": [S("Watch", "watch", [F("script", cap=dict(quick=2500), io=True), F("rand", 300, 6000, io=True)])],
    "P26": [S("HttpClient", "httpc", [F("script", cap=dict(quick=1500), io=True), F("rand", 250, 6000, io=True)])],
    "P27": [S("WsServer", "ws", [F("script", cap=dict(quick=2000), io=True), F("rand", 200, 6000, io=True), F("crowd", 6, 60, io=True)])],
    "P31": [S("AuthClient", "authc", [F("script", cap=dict(quick=2500), io=True), F("rand", 300, 6000, io=True)])],
    "P32": [S("WsClient", "wsc", [F("script", cap=dict(quick=2500), io=True), F("rand", 300, 6000, io=True), F("crowd", 6, 60, io=True)])],
    "P33": [S("Ctx", "ctx", [F("script", cap=dict(quick=3000)), F("rand", 1000, 30000)])],
    "P34": [S("HttpLink", "httpl", [F("script", cap=dict(quick=2500), io=True), F("rand", 300, 6000, io=True)])],
    "P35": [S("Complete", "complete", [F("script", cap=dict(quick=4000)), F("rand", 300, 8000)])],
    "P38": [S("E2E", "e2e", [F("script", cap=dict(quick=1500), io=True), F("rand", 250, 6000, io=True)])],
    "P36": [S("Errs", "errs", [F("script", cap=dict(quick=2000)), F("rand", 400, 8000)])],
    "P37": [S("Decl", "decl", [F("script", cap=dict(quick=3000)), F("rand", 300, 8000)])],
}

NOTES = {}
NA = {}
