#!/usr/bin/env python3
"""Development tool: writes DESIGN.md from the text below, props.py, properties.jsonl, known_findings.json and seeded/."""
import json, os, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H); sys.dont_write_bytecode = True
from props import PROPS
props = {p["id"]: p for p in map(json.loads, open(H + "/properties.jsonl"))}
kf = json.load(open(H + "/known_findings.json"))

HEAD = """# HXLibs verification by runtime monitoring and sanitizers

Every claimed property in `properties.jsonl` is decided in the same way: the real headers in `/repo/include` (and
`lib/liburing`) are compiled from the current working tree with clang++-20 under AddressSanitizer +
UndefinedBehaviourSanitizer + (where memory is owned) LeakSanitizer, and ThreadSanitizer for what runs on several
threads, into the harnesses of `harness/`. Seeded realistic, hostile and stress workloads drive them, and oracles that
share no code with the library judge what is observed: reference models, strict parsers and peers written from the
RFCs, OpenSSL and the plain sqlite3 C API, recorded event logs checked for order, exactly-once and conservation,
descriptor / thread / memory accounting. Nothing reads or greps the source text: a check judges only what the code
does.

## Machinery

* `./check <ID> [--thorough] [--only section:index] [--build NAME]` builds the harness of one property, runs its shards
  in parallel (8 processes), collects their verdicts, filters listed known findings, writes `evidence/<ID>.json` and a
  replay file per kind of violation. A sanitizer report, a signal, an uncaught exception, a hang (a per-case watchdog
  dumps the case) and a failed oracle are all violations; a harness that could not run at all exits 2, never 0.
* `harness/vf.hpp`: sections (`VF_SECTION(name, quick, thorough)`), where case *i* is a function of
  (seed, section, *i*) only and can be replayed alone; watchdogs; counters of evaluations and of distinct histories
  seen (hashes), which are what the evidence reports.
* `harness/http.hpp`, `client.hpp`, `ws.hpp`, `tls.hpp`: raw-socket peers which send exact byte segments (the library
  side is observed to have consumed one before the next is sent), strict response/frame parsers, a scripted server, an
  RFC 6455 peer, an OpenSSL peer over memory BIOs. `json_dom.hpp`: a strict JSON parser. `db.hpp`: access to the
  database file with the sqlite3 C API. `tracked.hpp`: payloads that register every construction and destruction.
* Quick tier: 15-110 s per check including 6-70 s of compilation. Thorough tier: the same sections with 10-50 times the
  cases (up to 10 minutes). Both are randomised explorations with a fixed seed (`VERIF_SEED`), level "exploration".
* Why this reaches what the tests cannot: the unit tests of the repository call each facility with a handful of
  inputs, one segmentation (whatever loopback does), one thread schedule, no faults and no instrumentation; the checks
  use thousands of inputs, every cut of short streams, delays, resets, stalls, exhausted descriptors, failing
  allocations of payloads, slow peers, and look at every byte and event.
* No hooks are compiled into /repo: the library is header-only and everything needed is observable from outside
  (sockets, files, event logs of the workload's own coroutines, tracked payloads). All commits in /repo are repairs.
* ThreadSanitizer note: liburing unmaps rings with a raw system call, which the race detector cannot see (a stale
  mapping then looks like a race); the TSan builds compile a copy of liburing.cpp that calls munmap() instead.
  `harness/tsan.supp` holds only entries for runtime internals.

## Properties

For each: what a case is and what is compared (with the bounds), what it cost last time (quick tier, whole run), and
what the oracle is. "Anchors" are in `properties.jsonl`.
"""
ORACLE = {
"C01": "A plain recursive evaluator of the same random program predicts the event history, the outcome and the number of live frames/objects; ASan finds use of freed frames.",
"C02": "The operations write an event log (start, finish, value); an offline checker derives from it which position must have won / which values all() must report; losers that still run after the waiter resumed are seen in the log or by ASan.",
"C03": "An online monitor holds the pending sleepers with their deadlines and judges every resumption at the moment it happens (clock read inside the resumed coroutine); a progress monitor bounds how long each kind of work waits while the others are pending; loop exit is compared with the set of pending work.",
"C04": "Per-task run counters and outcome tokens; concurrency gauge against the configured bounds; ThreadSanitizer build; watchdogs for deadlock; tracked payloads for leaks.",
"C05": "An online FIFO automaton per executor (one running at a time, submission order, submitter after its own task).",
"C06": "A reference model per container (index + value), compared after each step; payload registry for exactly-once destruction, with constructors that throw.",
"C07": "std::map built from the same keys; ASan for reads outside the tables.",
"C08": "An in-memory model of each file, the real file read back with plain system calls, the descriptor table before and after.",
"C09": "The generator knows each component it put into the bytes; what the handler saw is compared with it; every cut of short requests.",
"C10": "The generator knows the body bytes; handler/next-request log; malformed families must never be dispatched as complete.",
"C11": "Sanitizers, strict answer parser, dispatch log (a family of heads that are malformed beyond doubt must never be dispatched), healthy clients next to hostile ones, descriptor and thread counts, time bounds.",
"C12": "Echo of everything the handler can see, compared with what was sent and with the answer the same request gets alone on a fresh connection.",
"C13": "A reference matcher written from the documented precedence; reference conversions (std::from_chars on the whole text).",
"C14": "The event log of each request against the sequence derived from the specification (before* handler? after*).",
"C15": "A strict RFC 9112 response parser on the raw bytes; every field against what the handler set.",
"C16": "A reference evaluation of the Range field (RFC 9110) and a byte source that can be recomputed at any offset.",
"C17": "A scripted raw server knows exactly what it sent and parses strictly what it got; timing bound on late answers; descriptor count.",
"C18": "Every request is uniquely named; receipts at the server and completions at the client are counted per name; TSan build.",
"C19": "The event list pushed/sent against the list received; an independent WHATWG event-stream consumer for the server side.",
"C20": "An independent RFC 6455 peer (frames, masks, handshake proof by OpenSSL SHA-1).",
"C21": "The reference frame decoder decides which messages may be delivered before the first violation and that an error must follow; allocation limit 256 MB in the sanitizer; time bounds.",
"C22": "A strict independent JSON parser and DOM comparison; equality of the value read back; randomly reformatted equivalent texts.",
"C23": "Exact-size heap blocks under ASan; truncations must be rejected; a type-directed judge decides whether a mutated document still is the type.",
"C24": "OpenSSL EVP / first-principles references.",
"C25": "OpenSSL used directly, every single-bit change, nonces collected over all threads.",
"C26": "Independent references (std::from_chars, naive string algorithms, the enumerator list).",
"C27": "An independent formatter; captured log output split back into messages; TSan build.",
"C28": "Stop time, thread count, descriptor table, port re-binding, LeakSanitizer, TSan build; idle clients timed.",
"C29": "The components the URL was assembled from; an RFC 3986 reference splitter; three listeners that record who connected.",
"C30": "Independent proxies that record every byte.",
"C31": "A C++ model of the tables; the database file read through the plain sqlite3 API after every statement.",
"C32": "The same expression evaluated in C++ under three-valued logic over the model rows.",
"C33": "OpenSSL peers; recordings of all wire bytes (plain text must not appear); everything C12/C15/C17/C19/C20 compare, over TLS; mutual-TLS and TSan builds.",
"C35": "An independent server: a strict HTTP request parser, an independent JSON parser and the conversation that was given; the chunk list sent against the list handed to the consumer; the fault plan decides whether an error must be reported.",
"C36": "The same call made as a plain system call (result, errno, descriptor flags, file state), a byte model of every file and socket queue, canaries in the buffers of abandoned operations, the kernel's count of bytes still unread.",
}
out = [HEAD]
for i in sorted(props):
    p = props[i]
    if i not in PROPS:
        out.append(f"### {i} {p['title']}\n\nNot applicable: see MANIFEST.json (the rpc headers do not compile in this tree - `RpcServer.hpp`/`RpcClinet.hpp` are\nunfinished drafts - so there is no execution to observe).\n"); continue
    c = PROPS[i]
    cost = ""
    try:
        e = json.load(open(f"{H}/evidence/{i}.json"))
        if e["tier"] == "quick": cost = f" Cost ~{round(e['wall_s'])} s ({round(e['coverage']['build_s'])} s of it compiling); {e['coverage']['evaluations']} evaluations, {e['coverage']['distinct_nontrivial']} distinct."
    except Exception: pass
    builds = ", ".join(f"{b['name']} ({ {'asan': 'ASan+UBSan' + ('+LSan' if b.get('leaks') else ''), 'tsan': 'TSan'}[b.get('san', 'asan')] }{', sections ' + b['only'] if b.get('only') else ''})" for b in c["builds"])
    seeds = [os.path.basename(os.path.dirname(m)) for m in sorted(glob.glob(H + "/seeded*/*/meta.json")) if json.load(open(m))["property"] == i]
    out.append(f"### {i} {p['title']}\n\n{c['rule']}\n\nOracle: {ORACLE[i]}\n\nBuilds: {builds}.{cost}\n"
        + ("\nAssumptions: " + "; ".join(c["assumptions"]) + ".\n" if c.get("assumptions") else "")
        + (f"\nPlanted bugs: {', '.join(seeds)}.\n" if seeds else ""))
out.append(open(H + "/tools/design_tail.md").read())
out.append("## Defects of the original repository that were found and repaired\n\nOne `fix:` commit each (same list, machine-readable, in `known_findings.json`):\n")
for k in kf:
    if k["status"] == "fixed":
        w = k["what"].split(k.get("commit", "")[:7], 1)[-1].strip() if k["what"].startswith("fixed:") else k["what"]
        out.append(f"* {k['property']} {k.get('commit', '')[:7]} {w}")
open(H + "/DESIGN.md", "w").write("\n".join(out) + "\n")
