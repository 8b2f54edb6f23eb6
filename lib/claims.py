"""Technique and level note of each claimed check beyond the parser group."""
def _n(what, trust="TLC, the harness and Boost"):
    return what + " Trusts " + trust + "; cases beyond the generated ones are not covered."
_C = "TLC evaluates the executable specification (spec/Codec.tla) on every recorded call of the real code; the specification's own round-trip laws are model checked exhaustively over small alphabets"
_F = "TLC evaluates the executable specification (spec/Forms.tla) on every recorded call of the real code; the specification's own round-trip laws are model checked exhaustively over small alphabets"
_CN = _n("All short inputs over the critical alphabet, every byte value in every role, and random long inputs are run through the real code (ASan) and every result is decided by TLC.")
MORE = {i: (_C, _CN) for i in ("P12", "P13", "P14", "P15")}
MORE.update({i: (_F, _CN) for i in ("P07", "P08", "P09")})
_H = "TLC model checks the specification of %s and validates histories recorded from the real code (trace validation: every recorded result and observed state must be the one the specification's action gives)"
_HN = _n("Exhaustive short histories over a small universe plus seeded random long ones run on the real code under ASan; every step is decided by TLC.")
MORE["P10"] = (_H % "writing and reading messages (spec/Writer.tla, Message.tla, HttpParser.tla)", _HN)
MORE["P11"] = (_H % "message objects (spec/Message.tla)", _HN)
MORE["P31"] = (_H % "the user registry (spec/Users.tla; sequential and concurrent histories)", _HN)
MORE["P16"] = (_H % "plug-in references (spec/Plugin.tla; PluginMC.tla is the concurrent reference-counting design)", _HN)
MORE["P17"] = (_H % "plug-in lookup and listing (spec/Plugin.tla)", _HN)
MORE["P18"] = (_H % "the plug-in registry (spec/Registry.tla; sequential and concurrent histories)", _HN)
_SN = _n("Programs of calls run on the real code under a deterministic thread scheduler (random walk and priority schedules, spurious wake-ups, virtual time); every recorded history has to be a behaviour of the specification.", "TLC, the thread scheduler (harness/vsched.cpp, which interleaves only at synchronisation calls), Boost and libc")
_S = "TLC model checks the locking design (spec/SchedulerMC.tla) for refinement of the specification spec/Scheduler.tla, rest and liveness, refutes defective designs, and validates histories of the real code recorded under controlled schedules as behaviours of spec/Scheduler.tla"
MORE["P19"] = MORE["P20"] = (_S, _SN)
_D = "TLC model checks the design (spec/%s) and validates histories of the real code recorded under controlled schedules as behaviours of spec/%s"
MORE["P21"] = (_D % ("ProcessMC.tla: the signal handler runs on top of any thread; defective designs are refuted", "Process.tla"), _SN)
MORE["P22"] = (_D % ("AdminMC.tla", "Admin.tla"), _n("The calls that change ids are stand-ins that keep the ids of a model process; programs of one to three threads run under a deterministic thread scheduler; every recorded history has to be a behaviour of the specification.", "TLC, the stand-ins, the thread scheduler and Boost"))
_P = "TLC model checks the specification of SPDY decoding (spec/Spdy.tla; SpdyMC.tla: every cut of every short frame sequence, two refuted stream assignments) and validates histories recorded from the real decoder: every call has to report one of the outcomes of the specification's step"
MORE["P23"] = MORE["P24"] = MORE["P25"] = (_P, _n("Generated frames, header block histories, truncations and corruptions run through the real code (ASan, unreadable page behind the packet); every call is decided by TLC. What a compressed block inflates to is taken from Python's zlib.", "TLC, zlib, the harness"))

_H = "TLC model checks %s and validates, step by step, histories recorded from the real server (one thread, loopback connections) against spec/HttpServer.tla: for every input the specification gives the handler calls, the bytes returned and the end of the connection"
_HN = _n("Generated histories of resources, redirects, users, sessions, time, connections, requests and hang-ups run through the real server (ASan, UBSan); every step is decided by TLC. One thread: schedules of several threads are P26's.", "TLC, the loopback network, Boost.Asio, the harness (time() is a stand-in)")
MORE["P27"] = (_H % "routing and redirection over every small table (spec/HttpServerMC.tla)", _HN)
MORE["P28"] = (_H % "a reader over every cut of pipelined requests (spec/ConnMC.tla)", _HN)
MORE["P29"] = (_H % "sessions and users (spec/AuthMC.tla)", _HN)
MORE["P26"] = (_D % ("TcpServerMC.tla: mutex, pool, workers, starts and stops; four defective designs are refuted", "TcpServer.tla"), _n("Programs of connects, writes, hang-ups, finishes, keep-alives, starts, stops, joins and counts run against the real server on loopback sockets under a deterministic thread scheduler; every recorded history has to be a behaviour of the specification, and at rest nobody may wait who does not have to.", "TLC, the thread scheduler (harness/vsched.cpp, which interleaves only at synchronisation calls), the loopback network and Boost"))
MORE["P30"] = ("TLC model checks two decisions of spec/FileService.tla (spec/FileMC.tla: containment against a walk of the file system, trust in cached copies; four defective designs are refuted) and validates, step by step, histories recorded from real servers with file services: answer, bytes, headers and the whole directory tree after every step", _n("Generated trees, options, requests of every traversal shape, changes by other programs, clocks and restarts run through the real code (ASan) as an unprivileged user in a scratch directory; every step is decided by TLC.", "TLC, the file system, the loopback network, Boost, the harness (time() is a stand-in)"))
MORE["P32"] = (_D % ("StreamMC.tla: buffers, put-back area, completions and breaks; four defective designs are refuted", "TcpStream.tla"), _n("Programs of stream operations, a peer and cancellations run with the real stream on loopback sockets under a deterministic thread scheduler with spurious wake-ups; every byte is identified by its number; every recorded history has to be a behaviour of the specification.", "TLC, the thread scheduler, the loopback network and Boost"))
MORE["P33"] = (_D % ("TimeoutMC.tla: reads, timers and their callbacks run by several threads; five defective designs are refuted", "Timeout.tla"), _n("Messages cut and delayed at every critical position on loopback connections to readers and a server with a clock that only moves when it is told to; every recorded history has to be a behaviour of the specification. One thread runs the handlers; several threads are the model's.", "TLC, the loopback network, Boost.Asio, the harness (the clock is a stand-in)"))
MORE["P34"] = (_H.replace("spec/HttpServer.tla: for every input the specification gives the handler calls, the bytes returned and the end of the connection", "spec/PluginServer.tla: for every input the specification gives the service objects, their options and life cycle, and the answers") % "the line grammar against a character machine (spec/ConfMC.tla; defective machines are refuted)", _n("Generated configuration files, loads, starts, stops, clears and requests run through the real server (ASan, UBSan) in a scratch directory; every step is decided by TLC.", "TLC, the loopback network, Boost.Asio, the harness"))
MORE["P35"] = (_H.replace("spec/HttpServer.tla: for", "spec/TlsServer.tla (the server of spec/HttpServer.tla behind TLS): for") % "a server that takes handshakes, records and rubbish in every order (spec/TlsMC.tla; seven defective designs are refuted)", _n("Generated handshakes, in parts and unfinished, plain text, altered and incomplete records, requests and hang-ups run against the real server by clients that speak TLS through memory buffers, and by pion's own connections; every step is decided by TLC.", "TLC, OpenSSL, the loopback network, Boost.Asio, the harness"))
MORE["P36"] = (_H.replace("spec/HttpServer.tla: for", "spec/Services.tla (within spec/HttpServer.tla): for") % "a client that spells every short name and value out of critical bytes to the cookie service (spec/SvcMC.tla; three defective designs are refuted)", _n("Generated requests to the bundled services, in every form and on concurrent connections, run against the real server and services; every answer is read back and decided by TLC, byte for byte except for the order of dictionaries. Services are added to the server as objects (loading them as plug-ins is P18 and P34).", "TLC, the loopback network, Boost.Asio, the harness"))
MORE["P37"] = (_D % ("SharedMC.tla: the moments of concurrent requests, logins and table changes against laws in terms of calls and returns; four defective designs are refuted", "SharedServer.tla"), _n("Programs of requests, logins, logouts and table changes run against the real HTTP server on loopback sockets under a deterministic thread scheduler; every recorded history has to be a behaviour of the specification, with no request left unanswered at rest.", "TLC, the thread scheduler (harness/vsched.cpp, which interleaves only at synchronisation calls), the loopback network and Boost"))
_R = " The programs also run with every memory access watched (harness/vrace.hpp): two accesses that nothing orders break the atomicity the specification's steps assume and are reported."
for _i in ("P16", "P18", "P19", "P20", "P21", "P22", "P26", "P30", "P31", "P32", "P37"): MORE[_i] = (MORE[_i][0], MORE[_i][1] + (_R if _i not in ("P16", "P18", "P30", "P31") else _R.replace("The programs also run", "Programs of several threads also run")))
