#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the text is easy to review)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}
    if observe: a["observe_at"] = observe
    P.append(d)

V="src/voucher/"; B="src/brski/"
p("B01","A pledge imprints only on a domain its MASA authorised for it",
  "A pledge command reports success and emits a domain certificate only if the registrar it talked to returned a voucher that verifies under the pledge's configured (non-empty) set of MASA trust anchors, names the pledge's own serial number and echoes the pledge's configured nonce, and only if the registrar's TLS certificate chains (by signature, whatever its validity period) to the certificate pinned in that voucher; the emitted certificate is byte-for-byte the pinned one. In every other case (replayed, swapped, tampered, truncated or forged vouchers, a rogue or impersonating registrar, a man in the middle, error replies) the command exits with failure and emits no certificate.",
  ["fault_sequences","schedules","histories"],
  "Every sequence of registrar/MASA replies an active network attacker or a faulty registrar can produce (replay of recorded vouchers, vouchers of other pledges, stale nonces, other signers, re-routed connections, truncation at any byte, resets), at any delivery schedule.",
  "The end-to-end test runs one honest exchange on loopback; unit tests call the verification function with a handful of fixed vouchers and never with a hostile peer, a re-routed connection or a cut reply.",
  [B+"pledge/pledge_request.cpp",V+"request.c",V+"voucher.c",V+"crypto_ossl.c",B+"brski.cpp"],
  [("pledge voucher exchange and verification",B+"pledge/pledge_request.cpp"),("voucher verification against serial, nonce, registrar certificate",V+"request.c"),("CMS and chain verification",V+"crypto_ossl.c")],
  ["exit status and standard output / output file of the pledge command","voucher bytes on the pledge's TLS connection"])
p("B02","MASA issues a voucher only for a validly signed, matching request pair",
  "The MASA returns a voucher (HTTP 200) only for a registrar request whose signature verifies under the configured registrar trust anchors, which embeds a pledge request whose signature verifies under the configured pledge trust anchors, and whose serial number equals the pledge request's; otherwise it answers with an error and no voucher. An issued voucher is signed by the MASA key and contains exactly that serial number, the nonce of the registrar's request (none if that has none), assertion proximity, the configured pinned domain certificate and the configured expiry time.",
  ["schedules","fault_sequences","inputs","histories"],
  "All interleavings of concurrent valid, forged, mismatched, malformed and aborted requests over a server lifetime, including after failed requests, file errors and restarts.",
  "Unit tests call the signing function once with good inputs in one thread; no test sends the server an invalid, mismatched, concurrent or interrupted request.",
  [B+"masa/masa_api.cpp",V+"request.c",V+"voucher.c",V+"crypto_ossl.c",B+"config.c"],
  [("MASA request handler",B+"masa/masa_api.cpp"),("voucher construction and request verification",V+"request.c")],
  ["HTTP reply of the MASA (tapped at the TLS boundary), parsed by an independent CMS/JSON decoder"],
  [("per-request pinned certificate","the domain certificate the handler is about to pin")])
p("B03","Registrar forwards only verified pledge requests, unaltered, to the MASA",
  "The registrar contacts the MASA only on behalf of a pledge request whose signature verifies under its configured pledge trust anchors, whose assertion is proximity, whose serial number equals the serial number in the pledge's TLS certificate and whose proximity certificate is the registrar's own TLS certificate; otherwise the pledge gets an HTTP error and the MASA sees nothing. What it forwards is signed by the registrar's signing key and carries the pledge's serial number, the pledge's nonce (none if absent), the issuer of the pledge's TLS certificate, the time of forwarding and the pledge's request byte for byte.",
  ["schedules","fault_sequences","inputs","histories"],
  "All interleavings of concurrent honest, impersonating, replaying, malformed and aborted pledges over a server lifetime, with file faults and restarts in between.",
  "The only end-to-end test has one honest pledge; unit tests check the signing function with one good input.",
  [B+"registrar/registrar_api.cpp",V+"request.c",V+"voucher.c",V+"crypto_ossl.c"],
  [("registrar request handler",B+"registrar/registrar_api.cpp"),("registrar request construction",V+"request.c")],
  ["requests seen on the registrar-to-MASA TLS connections and replies to the pledge"])
p("B04","Concurrent onboardings never cross-talk",
  "Whatever number of pledges onboard at the same time through the same registrar and MASA, every reply a client receives belongs to its own request: each successful pledge ends up with a voucher for its own serial number and nonce, and each enrolment returns the certificate submitted on that connection. The outcome of each client is one it could have had if it had run alone.",
  ["schedules","fault_sequences"],
  "All interleavings of server worker threads and network deliveries for 2 to 8 concurrent clients (mixed voucher, enrolment, malformed and aborted requests).",
  "No test runs two clients concurrently.",
  [B+"masa/masa_api.cpp",B+"registrar/registrar_api.cpp",B+"http/httplib_wrapper.cpp",B+"http/httplib.h"],
  [("shared server context and per-request state",B+"masa/masa_api.cpp"),("request dispatch on the server's thread pool",B+"http/httplib_wrapper.cpp")],
  ["per-connection request/reply pairs on the TLS boundary, pledge outputs"])
p("B05","A failed voucher exchange is never reported as success",
  "If the MASA refuses, is unreachable, stalls past the timeout, resets the connection or answers garbage, the registrar answers the pledge with an HTTP error status (400 or above, plain text) and never with a success status without the body of a MASA success reply (which it passes on unchanged), and the pledge command exits with failure and prints no certificate. If the registrar itself is unreachable, stalls, resets or answers with an error, the pledge command exits with failure in bounded time.",
  ["fault_sequences","schedules","crash_points"],
  "Every fault (refuse, reset, stall, truncate, HTTP error, crash) at every point of the pledge-registrar and registrar-MASA conversations.",
  "The test suite has no failing-MASA scenario; error paths of the handlers are never executed.",
  [B+"registrar/registrar_api.cpp",B+"pledge/pledge_request.cpp",B+"http/httplib_wrapper.cpp"],
  [("MASA reply status handling",B+"registrar/registrar_api.cpp"),("HTTP client result mapping",B+"http/httplib_wrapper.cpp")],
  ["HTTP status of the registrar's replies; exit status of the pledge command"])
p("B06","No client can crash or corrupt a server",
  "No sequence of requests, however malformed, truncated, oversized, slow, aborted, wrongly authenticated or concurrent, makes the registrar or the MASA crash, corrupt memory, exit or stop serving; the same holds for the pledge and voucher-verification commands fed by a hostile registrar. Every complete HTTP request on an open connection gets exactly one HTTP reply.",
  ["fault_sequences","inputs","schedules"],
  "All mixes of hostile and honest traffic over many connections, all interleavings, with connections cut at any byte.",
  "Tests send one well-formed request sequence; hostile bodies, aborted transfers and concurrent errors are never exercised, and tests run without memory checking.",
  [B+"registrar/registrar_api.cpp",B+"masa/masa_api.cpp",B+"pledge/pledge_request.cpp",B+"http/httplib_wrapper.cpp",V+"serialize.c",V+"voucher.c",V+"request.c",V+"crypto_ossl.c",B+"brski.cpp"],
  [("request handlers",B+"registrar/registrar_api.cpp"),("base64 and JSON decoding",V+"serialize.c"),("voucher parsing",V+"voucher.c")],
  ["process liveness, AddressSanitizer, HTTP replies"])
p("B07","Service resumes within bounded time once faults stop",
  "After any burst of network faults, partitions, stalled or hostile clients, file errors and crashes of either server, once the faults stop and the servers have been restarted where they crashed, a fresh honest pledge completes both the voucher request and the enrolment within a bounded time. No request leaves a server permanently stuck, deadlocked, or with a worker lost.",
  ["fault_sequences","crash_points","schedules"],
  "Every fault burst of the simulator (including crash and restart of registrar and MASA at arbitrary points) followed by a fault-free period.",
  "Tests never stop, crash, partition or stall a server.",
  [B+"registrar/registrar_server.cpp",B+"masa/masa_server.cpp",B+"http/httplib_wrapper.cpp",B+"http/httplib.h",B+"masa/masa_api.cpp",B+"registrar/registrar_api.cpp","src/utils/log.c"],
  [("server accept loop, thread pool and timeouts",B+"http/httplib.h"),("handlers' error paths",B+"masa/masa_api.cpp")],
  ["simulated completion time of a fresh pledge after the last fault"])
p("B08","A successful enrolment yields a usable certificate for the pledge's own key",
  "When the enrolment command succeeds, the certificate and private key it outputs match each other, the certificate's issuer is the registrar's CA and its signature verifies under that CA's key, and its subject, public key, serial number, validity and non-CA constraint are those the pledge submitted. This holds under concurrency, reordering, retries, restarts and clock changes.",
  ["schedules","fault_sequences","histories"],
  "All interleavings of concurrent enrolments with faults and restarts.",
  "No test checks the output of an enrolment; only the crypto primitive has a unit test.",
  [B+"pledge/pledge_request.cpp",B+"registrar/registrar_api.cpp",V+"crypto_ossl.c",B+"brski.cpp"],
  [("pledge-side enrolment",B+"pledge/pledge_request.cpp"),("certificate signing",V+"crypto_ossl.c"),("registrar enrolment handler",B+"registrar/registrar_api.cpp")],
  ["output files or standard output of the enrolment command; enrolment reply"])
p("B09","A pledge enrols only with a registrar authenticated by its voucher",
  "The enrolment command submits its certificate only after it obtained a valid voucher, and only over a TLS connection whose server certificate verifies under the domain certificate pinned in that voucher; if the peer at that point is anyone else, nothing is submitted and the command fails. The generated private key never leaves the pledge except into its own key output.",
  ["fault_sequences","schedules"],
  "All re-routings of any of the pledge's connections to a rogue registrar, at any point in the exchange.",
  "No test presents a different server during an enrolment.",
  [B+"pledge/pledge_request.cpp",B+"http/httplib_wrapper.cpp"],
  [("enrolment request with pinned trust anchor",B+"http/httplib_wrapper.cpp"),("enrolment flow",B+"pledge/pledge_request.cpp")],
  ["plaintext reaching the rogue server; bytes sent by the pledge"])
p("B10","Registrar audit log is exact and append-only",
  "For every enrolment the registrar answers with success, exactly one complete line recording the current time, the pledge certificate's serial numbers and the issued certificate's serial numbers has been appended to the audit log before the reply is sent; failed or aborted enrolments that issued nothing add no line. Lines are never torn, interleaved, duplicated, overwritten or lost, under concurrency, when writing to the log fails, and across crashes and restarts of the registrar.",
  ["schedules","crash_points","fault_sequences","histories"],
  "All interleavings of concurrent enrolments and crash/restart points, with network faults; disk write errors may lose only the line being written.",
  "The log is not looked at by any test; no test enrols twice, concurrently or across a restart.",
  [B+"registrar/registrar_api.cpp",B+"registrar/registrar_server.cpp"],
  [("audit line formatting and append",B+"registrar/registrar_api.cpp")],
  ["content of the registrar's log file after each event"],
  [("audit log file","one line per issued certificate")])
p("B11","Servers do not leak memory or descriptors across requests",
  "Serving a request, whether it succeeds, is refused, is malformed or is aborted at any byte, leaves the registrar and the MASA with no more allocated memory, open sockets or open files than before, once the connection is closed. A server can therefore handle an unbounded number of requests.",
  ["fault_sequences","histories","inputs"],
  "Every request kind and every failure point (including file errors and connection aborts) repeated within a server lifetime.",
  "Tests send a handful of requests to a short-lived server without leak checking.",
  [B+"registrar/registrar_api.cpp",B+"masa/masa_api.cpp",V+"request.c",V+"voucher.c",V+"crypto_ossl.c",B+"http/httplib_wrapper.cpp",B+"config.c"],
  [("handlers' cleanup",B+"masa/masa_api.cpp"),("crypto wrappers' cleanup",V+"crypto_ossl.c")],
  ["live allocation and descriptor counts per server process after quiescence"])
p("B12","Certificate and key file faults give clean errors and heal",
  "If a certificate, key or configuration file is missing, unreadable, or truncated or corrupted so that it does not parse, when a command or a request handler needs it, the command exits with failure (or the request gets an HTTP error) without crashing and without issuing or accepting anything; as soon as the file is readable again, the next request is served normally without a restart.",
  ["fault_sequences","schedules"],
  "Every file a node reads, every read or open failing, returning short, or returning corrupt data at any point in any request.",
  "No test injects a file fault into a running server.",
  [B+"config.c",B+"masa/masa_api.cpp",B+"registrar/registrar_api.cpp",B+"pledge/pledge_utils.c",V+"crypto_ossl.c",B+"brski.cpp"],
  [("certificate list loading",B+"config.c"),("certificate and key loading",V+"crypto_ossl.c")],
  ["HTTP status, exit status, AddressSanitizer"])
p("B13","Commands report success only when their output files are complete",
  "When a command that writes certificate, key or voucher-request output, to files or to standard output, exits successfully, each output is complete and parses back to the produced object, even if opens, writes or closes fail, the disk fills up at any byte, the files exist already or their name is of any length; otherwise it exits with failure.",
  ["fault_sequences","crash_points"],
  "Every open, write, flush or close of an output file, or write to standard output, failing at any byte; output names of any length; files of earlier runs.",
  "No test makes a write fail.",
  [V+"crypto_ossl.c",B+"brski.cpp",B+"pledge/pledge_utils.c"],
  [("file writers",V+"crypto_ossl.c"),("command output",B+"brski.cpp")],
  ["exit status against the content of the simulated disk"])
p("B14","Voucher library survives allocation failure at any point",
  "If an allocation of the program's own code fails at any point inside a voucher library operation (building, signing, verifying, serialising, parsing vouchers and requests), the operation reports failure or completes correctly; it never crashes, never reports success with a wrong or partial result, and never frees twice or leaks. After a failed operation the same inputs succeed once memory is available.",
  ["fault_sequences","inputs"],
  "Every single and multiple allocation failure inside every public voucher operation and inside every request handler.",
  "No test injects allocation failures.",
  [V+"voucher.c",V+"request.c",V+"serialize.c",V+"array.c",V+"keyvalue.c",V+"crypto_ossl.c","src/utils/os.c"],
  [("error paths of all library functions",V+"request.c")],
  ["return values of the public API, AddressSanitizer, live allocation count"])
p("B15","Log output lines are whole under concurrency",
  "With verbose logging on, every message a process logs appears as exactly one uninterrupted line carrying its time, level, origin and text, no matter how many threads log at the same time; logging never deadlocks the process and a quiet process logs nothing.",
  ["schedules"],
  "All interleavings of logging threads in registrar, MASA and pledge processes.",
  "Logging is unit-tested single-threaded without checking line integrity.",
  ["src/utils/log.c",B+"brski.cpp"],
  [("log locking and formatting","src/utils/log.c"),("log mutex installation",B+"brski.cpp")],
  ["standard error stream of each simulated process"])
p("B16","Issued certificates never share a serial number",
  "No two certificates issued by the same registrar to different enrolment attempts carry the same serial number, and no two generated keys or subject identifiers coincide, even when pledges start within the same second, on machines with identical or stepped-back clocks, or after a restart.",
  ["schedules","histories","fault_sequences"],
  "All sets of enrolments at coinciding or non-monotonic clock values.",
  "No test enrols two pledges; coinciding start times need a controlled clock.",
  [B+"pledge/pledge_request.cpp",V+"crypto_ossl.c"],
  [("serial number generation",B+"pledge/pledge_request.cpp")],
  ["set of certificates issued over a whole run"])
p("B17","Voucher and log timestamps denote the true instant",
  "Creation times stated in UTC in pledge and registrar requests, and times recorded in the audit log, denote the instant (by the issuing host's clock, at request time) at which the object was made, whatever the host's time zone, daylight-saving state or uptime, and under concurrent requests.",
  ["schedules","configurations","histories"],
  "All host clocks and time zones, clock steps between requests, and interleavings of concurrent requests.",
  "Tests run in one time zone (UTC) and only compare a formatted constant.",
  ["src/utils/os.c",V+"serialize.c",V+"request.c",B+"registrar/registrar_api.cpp",B+"pledge/pledge_utils.c"],
  [("current time acquisition","src/utils/os.c"),("time formatting",V+"serialize.c")],
  ["created-on fields of requests on the wire, log lines, against the simulated host clock"])
p("B18","MASA serves only clients holding a certificate from the registrar CA",
  "The MASA completes a TLS connection and answers a request only if the client proved possession of a certificate issued by the configured registrar CA; any other client (no certificate, self-signed, other CA, expired) gets no HTTP reply at all. The registrar likewise refuses clients presenting no TLS client certificate.",
  ["fault_sequences","inputs","histories"],
  "All client credentials and orderings of authorised and unauthorised clients, including session reuse attempts and clock changes.",
  "No test connects with a missing or foreign client certificate.",
  [B+"masa/masa_server.cpp",B+"registrar/registrar_server.cpp",B+"http/httplib_wrapper.cpp",B+"http/httplib.h"],
  [("server TLS setup",B+"http/httplib.h"),("MASA client CA configuration",B+"masa/masa_server.cpp")],
  ["HTTP replies per client credential"])
p("B19","Trust decisions follow the clock at the time of each request",
  "When trust anchors are configured, a signed request or voucher whose signer or anchor certificate is expired or not yet valid at the verifying host's current time is refused, and one that is valid at that time is accepted, without restarting any process: a clock that passes an expiry flips the decision at the next request, in both directions.",
  ["histories","fault_sequences","schedules"],
  "All clock advances and steps of each host relative to the certificates' validity periods, between and during requests.",
  "Tests use freshly made certificates and the real clock only.",
  [V+"crypto_ossl.c",V+"request.c",B+"masa/masa_api.cpp",B+"registrar/registrar_api.cpp",B+"pledge/pledge_request.cpp"],
  [("CMS verification against a store",V+"crypto_ossl.c")],
  ["HTTP status and exit status against the simulated clock"])
p("B20","A server command either serves or exits with failure",
  "The registrar and MASA commands either reach a state where they accept connections on the configured address and port, or exit promptly with a failure status: bad or missing TLS credentials, unusable configuration, and addresses or ports that cannot be bound are reported, and never end in a crash, a hang or a success status.",
  ["fault_sequences","configurations","crash_points"],
  "Every failure of configuration reading, credential loading, socket creation, option setting, binding and listening at start, including an address still held by another process, and restarts.",
  "Tests start each server once with a good configuration.",
  [B+"http/httplib_wrapper.cpp",B+"registrar/registrar_server.cpp",B+"masa/masa_server.cpp",B+"brski.cpp",B+"config.c"],
  [("server start",B+"http/httplib_wrapper.cpp")],
  ["exit status and listening state of the simulated process"])
p("B21","Outcomes do not depend on packetisation or harmless delays",
  "However the network splits, merges or delays the bytes of a conversation (down to one byte at a time, with interrupted or short system calls), as long as no single wait exceeds the server's timeout, every client gets the same result as over an unfragmented, instant network.",
  ["schedules","fault_sequences"],
  "All segmentations and delays below the timeouts of all TLS and HTTP exchanges, with EINTR, EAGAIN and short reads and writes.",
  "Loopback tests deliver every message in one piece.",
  [B+"http/httplib.h",B+"http/httplib_wrapper.cpp",B+"pledge/pledge_request.cpp",B+"registrar/registrar_api.cpp"],
  [("socket and TLS stream reads and writes",B+"http/httplib.h")],
  ["exit status and outputs of the same workload with and without fragmentation"])
p("B22","Base64 and voucher JSON round-trip exactly",
  "For every byte string, base64 encoding followed by decoding yields the same bytes, and for every voucher whose fields are set, serialising and parsing it again yields equal fields.",
  ["inputs"],
  "All byte strings and all combinations of voucher fields.",
  "Tests check a few fixed strings.",
  [V+"serialize.c",V+"voucher.c"],
  [("base64 codec",V+"serialize.c"),("voucher JSON codec",V+"voucher.c")])
p("B23","Configuration values are read exactly as written",
  "Every configuration key documented for the pledge, registrar and MASA sections is read from the given file into the setting it names, repeated keys for certificate lists accumulate in file order, and a key left empty or absent behaves as unset.",
  ["inputs","configurations"],
  "All configuration files within the documented format.",
  "Tests load one configuration file.",
  [B+"config.c"],
  [("configuration loading",B+"config.c")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False)+"\n")
