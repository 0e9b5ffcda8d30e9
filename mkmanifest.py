#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
M="runtime monitor: "
T={
"C01":(M+"independent GOOG4-RSA-SHA256 verifier over each returned URL","Each observed URL re-derived and its RSA signature verified by an independent verifier of the published V4 rules (not Google's server)."),
"C02":(M+"URL decoded as the service decodes it","Each observed URL parsed by an own byte-level splitter and decoded back to bucket, object and endpoint."),
"C03":(M+"query decoded and compared as a multiset","Each observed URL's query compared with the request's parameters and the six signing parameters."),
"C04":(M+"window against a virtual clock","X-Goog-Date and X-Goog-Expires against the requested window under an interposed clock that may tick during the call."),
"C05":(M+"credential scope and account checker","Credential of every observed URL and form; bound-token ones against fake services."),
"C06":(M+"metamorphic equality of equivalent requests","Pairs of equivalent requests signed in the same build and compared."),
"C07":(M+"metamorphic inequality of differing requests","Pairs differing in one meaning, compared by signature."),
"C08":(M+"refusal oracle for invalid requests","Model of which requests must be refused; observed outcome compared."),
"C09":(M+"unwinding and aborts caught at the API, with overflow checks, debug assertions and unsafe-precondition checks on","Hostile inputs, sizes, key material, JSON and service replies; a dead worker process also counts."),
"C10":(M+"form fields against the builder calls","Each observed form compared field by field with the last value set."),
"C11":(M+"policy document against the form","Each observed policy decoded by an own JSON reader and compared condition by condition."),
"C12":(M+"independent RSA verification of the policy","Signature of each observed form verified over the exact policy text."),
"C13":(M+"refusal oracle for forms","Model of which builds must fail; observed outcome compared."),
"C14":(M+"differential oracle: independent RFC 8259 reader","Generated JSON texts; loading judged against the reader, the loaded key by what it signs."),
"C15":(M+"trace checker over sequenced service and call logs","Token freshness and use, over scenarios with a virtual clock, faults, cancellation and concurrency."),
"C16":(M+"trace checker over sequenced service and call logs","Token reuse and request counts, over scenarios with a virtual clock, faults, cancellation and concurrency."),
"C17":(M+"trace checker over sequenced service and call logs with fault injection","Outcome of each call against the faults its requests met; recovery after them."),
"C18":(M+"trace checker: signed bytes and account of signBlob against outputs","signBlob requests matched to the outputs and to the credential's account."),
"C19":(M+"canary scan of outputs, errors, debug texts and wire log","Secrets searched verbatim and in hex, base64, percent and decimal forms."),
"C20":(M+"linearizability-style comparison of concurrent with sequential results","Same calls alone and together on a multi-threaded runtime, with delays, aborts and cancellations."),
"C21":("ThreadSanitizer, AddressSanitizer, valgrind memcheck and Miri over the monitored workloads","TSan on concurrent rounds, ASan and memcheck on all workloads, Miri on the paths without foreign calls; ring's assembly is not instrumented."),
}
checks=[dict(property=k,quick_cmd=f"./check.sh {k}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {k}",evidence_file=f"evidence/{k}.json",technique=t,level="exploration",level_note=n+" Holds on what was executed; nothing is proved about the rest.") for k,(t,n) in T.items()]
json.dump(dict(version=1,setup_cmd="./build.sh san",checks=checks,not_applicable=[],notes="No hooks: everything is observed at the public API, the process clock and the network. Details in DESIGN.md."),open("/verif/MANIFEST.json","w"),indent=1)
