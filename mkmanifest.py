#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (keep in step with properties.jsonl)."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T="deterministic simulation with fault injection: seeded search over "
CHECKS={
"C01":("exploration",T+"read faults (truncation, failing, short and persistently failing reads and seeks) during loads; usability battery and reload afterwards","Real code for all of DevIL; simulated disk, handles, allocator, clock; address sanitizer as memory oracle. Seeded sampling, so no guarantee beyond the runs reported; covers the formats of the sample catalogue."),
"C02":("exploration",T+"read faults during loads, each compared with a fault-free twin run in a fresh process","Oracle is the library itself on a healthy source; a load that answers success with an empty error queue must give the twin's image. Sampled, not exhaustive."),
"C03":("exploration",T+"source kinds, offsets, buffering and piecewise delivery of the same bytes, compared with the load from memory in a fresh process","Differential oracle: the memory load. Healthy sources only."),
"C04":("exploration",T+"write, seek, close and disk-full faults during saves, each compared byte by byte with a fault-free twin in a fresh process","Oracle is the library itself on a healthy disk. Fault points are fitted to the stream calls of the healthy save. Sampled, not exhaustive."),
"C05":("exploration",T+"memory-buffer sizes (a full disk at every byte position) and refused allocations, compared with a file save of a fresh process","Exact-size heap buffers red-zoned by AddressSanitizer; size query compared with the encoded size. C header output has no memory form."),
"C06":("exploration",T+"refused allocations (one, two, all from some point, all above a size) in every pixel operation, save format, sample load and state call, each compared with a fault-free twin in a fresh process, followed by use, deletion and re-creation of images","Allocations the library makes through its own allocator (the interface it offers applications for this) are refused; the codec libraries' own allocations are not. Sampled, not exhaustive."),
"C07":("exploration",T+"histories of operations with I/O and allocation faults and handler registrations under a recording allocator; every block accounted for at shutdown, no block released twice or by the wrong allocator","Memory the codec libraries allocate for themselves is not tracked."),
"C17":("exploration",T+"histories of operations with I/O and allocation faults; every live image record checked after each call against the simulated allocator's block sizes and the query interface","A record holding only compressed data has no pixel storage to compare."),
"C19":("exploration",T+"refused allocations in every pixel operation, each compared with a fault-free twin in a fresh process","A failed operation must leave a complete image; a successful one the twin's image."),
"C15":("exploration",T+"histories of overwrite settings, attribute pushes and named saves with write and allocation faults on a simulated disk compared before and after each call, against a model of the setting","Named saves of every writable format, palette and raw data."),
"C20":("exploration",T+"write and allocation faults during saves; images, binding and settings compared before and after, and a second save with a fresh process","Sampled over formats, image kinds, sinks and faults."),
"C21":("exploration",T+"crashes: only a prefix of a save's writes survives on the simulated disk, then a fresh library loads what is left","Lossless formats and the image kinds they can hold."),
"C08":("exploration",T+"histories of loads, saves, probes and palette and raw data calls by name, handle, memory and callbacks with read, write, seek, open, close and allocation faults; a ledger of every handle checked after each call, at shutdown and after a restart","Files the codec libraries would open for themselves are not seen; DevIL hands them its own streams."),
"C09":("exploration",T+"disturbed histories (I/O and allocation faults), then faults stop and a suite of operations is compared call by call with a freshly started process","Liveness is bounded: the suite must answer as fresh within a call each and a fixed budget of stream operations and processor time."),
"C10":("exploration",T+"interleavings of two or three clients with their own images and files under a seeded scheduler, with faults, each compared with the client running alone in a fresh process","DevIL is single-threaded by contract, so a switch of client can only happen between calls."),
"C11":("exploration",T+"contents of fresh memory and of the stack, addresses, clock and random numbers: one history run in two environments and compared call by call","iluNoisify, which draws random numbers by contract, is left out; formats that store a date are given the same clock."),
"C12":("exploration",T+"histories of naming, binding, deleting, sub-image, mipmap, layer and face calls with allocation faults, against an executable model of names and chains","Sub-image chains come from registrations, sub-image creation and loads."),
"C13":("exploration",T+"histories of settings, pushes, pops and loads and saves under faults, against an executable model of the settings and the attribute stack","States read back through ilGet*, ilIsEnabled and ilGetString."),
"C14":("exploration",T+"probes of whole, cut and altered contents by every type and source with read, seek, open and allocation faults; images, settings, memory, handles and source positions compared before and after","Images are compared by content and attributes."),
"C16":("exploration",T+"histories with and without faults, misuse, and errors raised and read back, against an executable model of the error queue","Loads that detect their type may report types tried and dismissed, and are left out of the clean-success half."),
"C18":("exploration",T+"registered load and save handlers that succeed, fail, do I/O, or call the library, with faults, against a model of which handler is asked","Handlers are stubs of the simulator."),
"C24":("exploration",T+"histories of clones, copies and every kind of operation over several images with refused allocations; copies compared with their originals field by field and through the savers, all other images and all storage compared after each call","Sub-images are not part of a copy. Sampled, not exhaustive."),
"C25":("exploration",T+"origin, format, type and palette settings, sources, read faults and refused allocations, each load compared with a fresh process that loads without the settings and converts by hand","The conversions themselves are the library's own; Doom and MDL palettes and the origin of raw files follow rules of their own and are only checked for the form asked for."),
"C26":("exploration",T+"histories of toolkit settings, pushes, pops and languages between faulted library calls and restarts, against a model compared after every call, with the effect of filter and placement","ILUT is built without a graphics API here, so only its state is covered."),
}
PURE="Pure arithmetic on a complete image: no I/O, allocation, clock, randomness, schedule or second party for the result to depend on, so there is nothing for a simulator to vary; what faults can do to these operations is decided under C06, C10, C11, C17 and C19."
NA={"C22":PURE,"C23":PURE}
try:
    exec(open('/verif/manifest_checks.py').read())
except FileNotFoundError: pass
m={"version":1,"setup_cmd":"make -s -C sim -j8 B=/verif/build","checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in CHECKS:
        l,t,n=CHECKS[i]
        m["checks"].append({"property":i,"quick_cmd":f"sim/check.sh {i}","thorough_cmd":f"env VERIF_TIER=thorough sim/check.sh {i}","technique":t,"level":l,"level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i) or "the check is still being built"})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
