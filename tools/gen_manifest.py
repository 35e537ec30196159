import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T="deterministic simulation: seeded schedules and faults"
note={
'C01':"seeded interleavings of 2-6 real threads; every outcome compared with the same operation alone in a fresh process",
'C02':"seeded histories of up to 112 look-alike patterns under eviction and concurrency; an independent matcher plus fresh-process references",
'C03':"panics injected at seeded calls; outcomes of everything else compared with references",
'C04':"re-entrant operations injected at seeded calls and depths; inner and outer outcomes compared with references",
'C05':"indefinite suspensions injected; every other operation has to finish first, with its reference outcome",
'C06':"seeded interleavings of pulls, pauses, drops; items and calls compared with the eager result and the demand model",
'C07':"long and repeated faulty histories on the simulated heap; live memory compared between rounds",
'C08':"allocation failures injected at seeded allocation indices; outcomes compared with references",
'C09':"seeded histories and interleavings of parses in seven parsers; outcomes compared with fresh instances",
'C10':"seeded interleaved registration histories; every use compared with a fresh instance configured alike",
'C11':"seeded interleavings and nestings of first uses in fresh processes; outcomes compared with warmed-up ones",
'C12':"writer faults (refusal, partial acceptance, panic, stall, re-entry) injected at seeded writes",
'C13':"call histories under seeded schedules and faults compared with an executable model and with references",
'C14':"seeded operation histories on lists and held results against vector models, with aborts and small stacks",
'C15':"address re-use, hash seeds, clocks, clock jumps and registration orders varied by seed; outcomes compared with a canonical environment",
'C16':"simulated stacks measured at width W and 4W, and small guarded stacks",
'C17':"seeded histories of uses of compiled queries, aborted ones included, compared with freshly compiled copies",
}
na={}
for p in props:
    if p['id'] not in note:
        na[p['id']]="a pure function of its input: no schedule, clock, I/O, randomness, fault or history enters, so simulation has nothing to vary; see DESIGN.md"
m={
 "version":1,
 "setup_cmd":"bash setup.sh",
 "checks":[{
   "property":p['id'],
   "quick_cmd":f"bash check.sh {p['id']} quick",
   "thorough_cmd":f"bash check.sh {p['id']} thorough",
   "technique":T,
   "level":"exploration",
   "level_note":note[p['id']]+". Assurance: no violation in the seeded runs counted in the evidence; assumes sequentially consistent memory and preemption at the instrumented points of the seven crates.",
 } for p in props if p['id'] in note],
 "not_applicable":[{"property":k,"reason":v} for k,v in na.items()],
 "notes":"No hooks in /repo: the seams are compiler instrumentation (RUSTC_WRAPPER), libc symbol interposition, the global allocator and the crates' own traits. bash replay.sh FILE re-executes a reported violation.",
}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
