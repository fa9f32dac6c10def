import json
V='/verif/'
props={json.loads(l)['id']:json.loads(l) for l in open(V+'properties.jsonl')}
common=" Seeded sampling of schedules, faults and inputs over the real library code compiled from the working tree: a clean batch is evidence, not proof. Trusted: the Go toolchain and standard library outside the patched seams, the simulator, the oracle named in DESIGN.md. Preemption granularity is one statement of the library."
note={
'C01':"Decoder fed by a simulated reader that cuts the stream at tape-decided places; oracle: the values the generator wrote.",
'C02':"Decoder fed by a simulated reader that fails at tape-decided offsets; oracle: the values complete before the failure, then that failure.",
'C03':"Byte conservation (InputOffset + Buffered + undelivered = stream) checked after every Decode; takeover by a second consumer at a random point.",
'C04':"Two parties over simulated bounded pipes with delay and fragmentation, plus a reader that objects to being asked while a complete value is held; liveness as absence of a global stall.",
'C05':"Streams in which some values fail to decode into their destination; the others must come out unchanged.",
'C06':"Inputs and buffers overwritten after decoding; retained values compared with the generator's; input snapshots including spare capacity.",
'C07':"Encoders on a scripted faulty writer (short writes, errors, panics, re-entry); one Write per document or a reported failure.",
'C08':"Histories of good, failing and panicking encodes over shared pools and Indenters; each result compared with the same call alone from a pristine state.",
'C09':"Results retained and compared while pools are poisoned, writers re-enter or are preempted; encoder arguments compared by deep snapshot.",
'C10':"2-5 goroutines as tasks under a seeded statement-level scheduler (random, PCT and other policies), race detector whose happens-before edges come from the library alone; each result compared with the call made alone.",
'C11':"Orders of first use over families of related types from an empty codec cache; each result compared with a first use in a pristine process state.",
'C12':"Map build histories and tape-seeded iteration order; byte equality and key order.",
'C13':"Simulated disk (page cache, fsync, crash, torn and lost tails, bit flips, full disk, restart with truncation); oracle: list of acknowledged documents.",
'C14':"The real jc program run as a process with a plan of faults at its read/write/close calls; oracle: a model of jc. The kernel under scratch files is real; which call fails is decided by the tape.",
'C15':"Environment and descriptor histories with real pipes, files and pseudo terminals made and closed at tape-decided moments; oracle: a precedence model. The windows variant is not covered.",
'C16':"Tokenizer histories with abandonment, damage and Reset, compared with a new Tokenizer and an independent lexer.",
'C17':"Failure injected at the n-th user callback or component of an encode or decode; error identity, and the value works again when the fault is gone.",
'C18':"Histories and concurrent conversions of fatih colours with the global switches changed under way, under the race detector; compared with the first conversion and with a model of the escape sequence.",
'C19':"Documents damaged by truncation, flips, drops, repeats given to every parsing entry point; oracle: encoding/json.Valid and a step budget.",
'C20':"Executed statements, bytes allocated and bytes alive of one execution compared with another execution of the same code: a stream in one piece and in pieces, the first and last quarter of a long history with injected failures and panics, a document and one four times its size. Constant-factor regressions are not reported.",
}
checks=[]
for id,p in props.items():
    if id[0]!='C': continue
    checks.append(dict(property=id,quick_cmd=f"bash check.sh {id} quick",thorough_cmd=f"bash check.sh {id} thorough",
      evidence_file=f"evidence/{id}.json",technique="deterministic simulation with fault injection",level="exploration",level_note=note[id]+common))
pure="Pure function of its arguments: no schedule, clock, I/O, fault or history that a simulator could vary. "
reason={
'N01':"Deciding it is differential testing of values against encoding/json, not simulation. (The determinism of the encoding under histories, schedules and faults is C07-C12.)",
'N02':"Comparison of two renderings of one value; nothing to simulate.",
'N03':"Per-token rendering rule of one value and one Colors; nothing to simulate.",
'N04':"Differential testing of decoded values; the part that depends on chunking, faults and histories is C01-C06, C11 and C19.",
'N05':"String escaping of a single value; nothing to simulate.",
'N06':"Layout of a single document; its dependence on history and concurrency is C08 and C10.",
'N07':"Field selection is fixed by the type; its dependence on the order of first use and concurrency is C11 and C10.",
'N08':"Re-rendering of one raw document; nothing to simulate.",
}
na=[dict(property=i,reason=pure+reason[i]) for i in props if i[0]=='N']
m=dict(version=1,setup_cmd="bash check.sh --build plain && bash check.sh --build race",checks=checks,not_applicable=na,
 notes="No hooks are committed in /repo: yield points, the sync replacement, and the runtime seams are inserted into overlay copies of the working tree at build time (go build -overlay). Replay: bash check.sh --replay FILE.")
json.dump(m,open(V+'MANIFEST.json','w'),indent=1,ensure_ascii=False)
open(V+'MANIFEST.json','a').write('\n')
