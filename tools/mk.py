import json
fixed=[
("C09","fecdd6d","effects were initialised with a stale spin, so the trajectory depended on the historic snapshot period (also C10)"),
("C15","e7b41f7","evolution table index ran ahead of the current time: radius etc. froze at later table entries"),
("C15","f71b2a8","the evolved Love number of LeconteChabrier2013 bodies was assigned to a copy and lost"),
("C11","255e77d","resume --time-limit panicked for every value (parsed as u64, read as f64)"),
("C03","c274831","with --limit no periodic recovery snapshot was written, a kill lost all work (also C07)"),
("C04","c866772","JSON snapshot written with write() instead of write_all()"),
("C04","4103289","error of the last flush of a recovery snapshot swallowed: exit 0 with a torn snapshot"),
("C04","a513f68","error of the last flush of the history swallowed: exit 0 with records missing"),
("C13","0e7bf4a","backup of a .json snapshot named .bin: could not be resumed"),
("C01","bf6331c","a whole IAS15 .bin snapshot could be restored as WHFast (trailing bytes ignored): resume panicked (also C02, C08, C16)"),
("C06","219e22d","a failing stat was taken for a missing file: start truncated an existing history, the previous snapshot was not backed up (also C03)"),
("C17","b814bdc","no fsync: a power loss could leave a snapshot referring to history that never reached the disk, or an empty snapshot"),
("C13","6ff56ef","NaN energy loss in the first record: the first JSON recovery snapshots with tides could not be restored"),
("C13","bf16ab1","infinite migration timescale outside the gas disk: such JSON snapshots could not be restored"),
("C06","1386201","existence was checked long before the history was created: of two starts at once the slower one truncated the history of the other"),
("C20","c0f2211","ejections were never detected when the host was not the first body"),
("C15","f116559","a rejected IAS15 step across many table nodes left the table position ahead of the time: records held later table values"),
("C16","17726b5","a body without tides or flattening turned the spin of the star into NaN: endless loop, panic or NaN in the history (also C18)"),
("C16","c8d85dd","two bodies left out of general relativity made the full corrections infinite: endless loop or NaN in the history (also C18, C20)"),
("C16","b8de22e","Kaula tides around a host that is not the most massive body panicked with an out of bounds index"),
("C16","48faea3","a body left out of general relativity blew up the orbits of the others (Anderson, Newhall with WHFast): panic in the Love number lookup, ejections"),
]
known=[{"property":"C13","class":"decimal-rounding","integrator":"whfast",
 "input":"2 bodies, WHFast/Jacobi, time step and historic snapshot period 0.05 days, recovery period 0.375 days, limit 0.95 days, snap.json; killed at the 15th output line, resumed (sim/src/props.rs, fn pinned)",
 "what":"resumed from a JSON snapshot with a time step of 0.05 days the history lacks a record: serde_json without its float_roundtrip feature reads numbers back with an error in the last digit, which tips the comparison that triggers a record"}]
json.dump({"known":known,"fixed":["fixed: property=%s %s %s"%f for f in fixed]},open('/verif/known_findings.json','w'),indent=1)
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
note={
"C01":"random kill points over all storage operations and output lines, any number of restarts, oracle: uninterrupted run",
"C12":"the repository's Python reader runs under python3-vt with a small pandas stand-in, on every prefix the simulated disk can expose",
}
checks=[];na=[]
reasons={
"N01":"A pure function of the initial state: no schedule, clock, fault, I/O or crash is involved, so the simulator has nothing to vary.",
"N02":"A relation between two pure computations with different inputs: nothing nondeterministic to schedule or fail.",
"N03":"Pure functions of their arguments (input generation would decide it, not simulation).",
"N04":"A pure function of the state of two bodies: no schedule, fault or interleaving.",
"N05":"Compares two pure generators; the Python generator needs input tables that are not shipped.",
}
for p in P:
    i=p['id']
    if i[0]=='N': na.append({"property":i,"reason":reasons[i]}); continue
    checks.append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,
     "technique":"deterministic simulation with fault injection (seeded search, replayable)",
     "level":"exploration",
     "level_note":note.get(i,"the real posidonius binary under a simulated disk, clock, output and process death; seeded sampling of cases, schedules of restarts and faults; oracle: an uninterrupted run and small reference models"),
     "evidence_file":"evidence/%s.json"%i})
json.dump({"version":1,"setup_cmd":"./build.sh","hooks":{"guard":"none","enable":"no hooks: the simulator interposes on libc with LD_PRELOAD; /repo is built unchanged","source_commits":[]},"checks":checks,"not_applicable":na},open('/verif/MANIFEST.json','w'),indent=1)
