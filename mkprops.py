#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that long texts stay readable)."""
import json, os
P = []
S = "DevIL/src-IL/src/"
def p(id, title, st, over, qt, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=qt), why_tests_cant=why, anchors=a))

IO = [S+"il_files.cpp", S+"il_io.cpp"]
CODECS = [S+f for f in ["il_bmp.cpp","il_targa.cpp","il_pcx.cpp","il_sgi.cpp","il_pnm.cpp","il_psd.cpp","il_dds.cpp","il_hdr.cpp","il_png.cpp","il_jpeg.cpp","il_tiff.cpp","il_gif.cpp","il_icon.cpp","il_raw.cpp","il_wbmp.cpp","il_vtf.cpp"]]

p("C01", "Read faults are contained",
  "Loading an image whose source ends early, or whose read, seek or open calls start failing at any point, always returns after a bounded number of stream operations and never touches memory the library does not own. Whatever the load answered, every image stays usable: it can be queried, converted, saved and deleted afterwards.",
  ["inputs","fault_sequences"], "every readable format of the catalogue x every truncation point or failing/short stream call x named file, handle, memory and user callbacks as the source",
  "The tests load a handful of complete files from a healthy disk; no test makes a stream end or fail at a chosen call.",
  IO+CODECS, [("stream dispatch (iread/igetc/iseek/ieof) reports short reads", S+"il_files.cpp"), ("each decoder checks headers and read results", S+"il_*.cpp")],
  observe=["return value of ilLoad/ilLoadF/ilLoadL", "memory accesses", "number of stream calls"])

p("C02", "A faulted load never passes for a good one",
  "If a load reports success and leaves no error queued although its source was cut short or one of its read or seek calls failed, the image it delivers (pixels, size, format, palette, sub-images) is identical to what the same load delivers from a healthy source.",
  ["inputs","fault_sequences"], "every readable format of the catalogue x fault point x fault kind x kind of source",
  "Needs a fault at a chosen stream call and a fault-free twin to compare with; the tests have neither.",
  IO+CODECS, [("short reads raise a file-read error", S+"il_files.cpp iReadFile/iReadLump/iGetc*"), ("read cache", S+"il_files.cpp iPreCache/iUnCache")],
  state=[("read cache","buffered prefix of the open source",S+"il_files.cpp")])

p("C03", "Every kind of source gives the same image",
  "The same encoded bytes give the same result and the same image whether they are loaded by file name, from an open file handle, from memory or through user-supplied read callbacks, wherever in a larger file the handle is positioned (given nothing follows the image), whether the type is named or determined by the library, and whether or not reads are delivered in small pieces.",
  ["inputs","configurations","schedules"], "every readable format of the catalogue x source kind x start offset x chunking of the reads x typed or detected",
  "Tests load by file name only (two load one file from memory); offsets, handles, callbacks and chunking are never exercised.",
  IO+CODECS, [("dispatch to file or lump functions", S+"il_files.cpp iSetInputFile/iSetInputLump"), ("relative seeking inside a larger file", S+"il_files.cpp iSeekRFile"), ("type detection", S+"il_io.cpp ilTypeFromExt/ilDetermineType*")])

p("C04", "An acknowledged save is complete and durable",
  "If saving an image or palette reports success although writes could fail, be cut short, run into a full disk or fail only at close, then the file holds exactly the bytes a fault-free save of that image writes, and a save that could not store them all reports failure with an error queued.",
  ["inputs","fault_sequences","crash_points"], "every writable format x image x fault kind x fault position x named file, handle and callbacks",
  "Tests save to a healthy disk and only look at the happy return value; no write, seek or close ever fails.",
  [S+"il_files.cpp", S+"il_io.cpp", S+"il_bmp.cpp", S+"il_targa.cpp", S+"il_pcx.cpp", S+"il_sgi.cpp", S+"il_pnm.cpp", S+"il_psd.cpp", S+"il_dds-save.cpp", S+"il_hdr.cpp", S+"il_png.cpp", S+"il_jpeg.cpp", S+"il_tiff.cpp", S+"il_raw.cpp", S+"il_wbmp.cpp", S+"il_vtf.cpp", S+"il_pal.cpp", S+"il_header.cpp"],
  [("write dispatch raises a file-write error on short writes", S+"il_files.cpp iWriteFile/iPutcFile"), ("per-format save functions propagate it", S+"il_io.cpp ilSave*")])

p("C05", "Saving to memory stays inside the caller's buffer",
  "Saving an image to a memory buffer never writes outside the stated size; if the buffer is too small the save reports failure, and if it succeeds the returned length is the number of bytes that make up the encoded image, equal to what a file save writes. The size query for a format gives a size with which the memory save succeeds.",
  ["inputs","configurations"], "every writable format x image x buffer size from 0 to beyond the encoded size, including every boundary",
  "Tests never save to memory; the boundary sizes at which a writer overruns or mis-reports are unreachable by them.",
  [S+"il_files.cpp", S+"il_io.cpp", S+"il_size.cpp", S+"il_targa.cpp", S+"il_bmp.cpp", S+"il_dds-save.cpp"],
  [("bounded lump writes", S+"il_files.cpp iPutcLump/iWriteLump/iSeekWLump"), ("size query by a counting writer", S+"il_size.cpp")])

p("C06", "Allocation failure is contained",
  "If any single allocation, or every allocation from some point on, is refused during any library call, the call returns without touching memory it does not own, a call that could not do its work does not report success, and an out-of-memory error is queued. Once memory is available again every image can be queried, converted, saved, bound and deleted.",
  ["inputs","fault_sequences"], "every public image operation (creation, load, save, convert, filter, scale, copy, palette, stacks) x every allocation it makes",
  "The tests never have an allocation refused.",
  [S+"il_alloc.cpp", S+"il_devil.cpp", S+"il_stack.cpp", S+"il_convert.cpp", S+"il_manip.cpp", "DevIL/src-ILU/src/ilu_scale.cpp", "DevIL/src-ILU/src/ilu_filter.cpp"],
  [("allocation goes through the replaceable allocator and raises out-of-memory", S+"il_alloc.cpp ialloc"), ("callers check for NULL", "all")])

p("C07", "Every allocation goes back to the allocator it came from",
  "With a user-supplied allocator installed, every block the library hands to the free callback came from the allocate callback and is handed back once, and after all images are deleted and the library is shut down no block is outstanding, whatever sequence of successful and failed operations came before.",
  ["histories","fault_sequences"], "any history of operations incl. failed loads, failed saves and refused allocations, up to shutdown",
  "Tests do not install an allocator and do not count blocks; leaks and mismatched frees on error paths do not change their result.",
  [S+"il_alloc.cpp", S+"il_stack.cpp", S+"il_devil.cpp", S+"il_states.cpp", S+"il_register.cpp"],
  [("ialloc/ifree through replaceable callbacks", S+"il_alloc.cpp"), ("image destruction frees all owned parts", S+"il_devil.cpp ilCloseImage"), ("shutdown", S+"il_stack.cpp ilShutDown")])

p("C08", "File handles are opened, used and closed exactly once",
  "Every file the library opens by name is closed exactly once before the call returns, whether the call succeeds or fails at any point; a handle the caller passes in is never closed; and no handle is used after it was closed.",
  ["inputs","fault_sequences","histories"], "every named-file operation (load, save, probe, palette, raw data, header) x fault point; user callbacks and default I/O",
  "A leaked or doubly closed handle does not change the outcome of any test, and error paths are not reached.",
  IO+[S+"il_pal.cpp", S+"il_header.cpp", S+"il_rawdata.cpp"],
  [("icloser/iclosew on all paths", S+"il_io.cpp and codecs")])

p("C09", "The library recovers completely once faults stop",
  "After any history of operations disturbed by read, write, seek, open, close or allocation faults, once faults stop and the error queue is drained every operation on a fresh image gives the same result, the same pixels, the same file bytes and the same errors as in a freshly started library with the same settings.",
  ["histories","fault_sequences"], "faulted prefix of any length x any follow-up operation",
  "Tests run each operation in a fresh process or after undisturbed ones; residue of a failed operation is invisible to them.",
  IO+[S+"il_states.cpp", S+"il_internal.cpp"],
  [("stream state reset at the start of each operation", S+"il_files.cpp iSetInput*/iSetOutput*"), ("read cache dropped", S+"il_files.cpp iUnCache")],
  state=[("stream state","current source and sink, cache",S+"il_files.cpp"),("current image","binding used by all operations",S+"il_internal.cpp")])

p("C10", "Images are isolated from one another",
  "When several clients in one process take turns on the library, each working only on the images it binds, the images, files and results of each client are the same as if it ran alone, under every interleaving of their calls and also when other clients' calls fail.",
  ["schedules","histories","fault_sequences"], "interleavings of 2 to 4 clients with independent operation sequences, at call granularity, with faults hitting some of them",
  "Tests drive one client; no interleaving of several images' operations is ever tried.",
  [S+"il_stack.cpp", S+"il_internal.cpp", S+"il_devil.cpp"],
  [("image stack indexed by name, operations act on the bound image", S+"il_stack.cpp")],
  state=[("image stack","name to image mapping",S+"il_stack.cpp")])

p("C11", "Results depend on the inputs alone",
  "Apart from the noise filter, the result of every operation (answer, pixels, saved bytes, reported attributes) is a function of the images, settings and source bytes given: it does not depend on what was done before to other images, on what freshly allocated memory happens to contain, on addresses, or on the random generator, and not on the clock except for the date fields a format stores.",
  ["inputs","histories"], "operation sequences x earlier histories on other images x allocator fill patterns x clock x random seed",
  "A run of a test sees one heap, one clock; the use of uninitialised memory or a static left over rarely shows.",
  CODECS+[S+"il_alloc.cpp", S+"il_convert.cpp"],
  [("buffers are filled before use", "codecs and converters")])

p("C12", "Image names and sub-image chains follow their model",
  "Image names behave as a table: generated names are new and distinct, binding an unused name creates an empty image, deleting a name forgets it and lets it be generated again, deleting the bound image falls back to the default image, and operations on names never affect images of other names. Frames, mipmaps, faces and layers attached to an image are counted and selected as created, and selecting one that does not exist fails without changing the selection.",
  ["histories"], "any sequence of generate, bind, delete, query, create-sub-image and select operations, with refused allocations in between",
  "Tests use one or two names in a fixed order; the free-list and chain bookkeeping depends on the whole history.",
  [S+"il_stack.cpp", S+"il_devil.cpp"],
  [("image stack and free-name list", S+"il_stack.cpp"), ("sub-image chains", S+"il_stack.cpp iCreateSubImage, ilActive*")],
  state=[("ImageStack, FreeNames","live images and reusable names",S+"il_stack.cpp")])

p("C13", "Settings and the attribute stack follow their model",
  "A setting reads back as last set within its documented values and is unchanged by a rejected set; pushing attributes opens a new level that keeps the current values of the selected groups and gives the others their defaults, popping restores every setting as it was before the matching push, to the documented depth, with overflow and underflow reported and harmless; and the defaults hold after initialisation.",
  ["histories"], "any sequence of set, enable, disable, hint, push and pop operations",
  "Tests check a few settings once; nesting, partial masks, overflow and string settings are not covered.",
  [S+"il_states.cpp"],
  [("array of state records with a current index", S+"il_states.cpp ilPushAttrib/ilPopAttrib")],
  state=[("ilStates[]","attribute stack",S+"il_states.cpp")])

p("C14", "Probing a source changes nothing",
  "Asking whether a file, handle or memory block is of a given type, or which type it is, leaves the position of the source where it was, leaves the bound image, all images and all settings untouched, and answers the same when asked again, for every type and any content, also when reads fail.",
  ["inputs","fault_sequences"], "every probe function x any content (valid, truncated, foreign, random) x source kind x offset x read fault",
  "Tests probe no source; position and state are never compared around a probe.",
  IO+CODECS, [("iIsValid*/iCheck*, position restored", S+"il_*.cpp")])

p("C15", "An existing file is never overwritten unless asked for",
  "While overwriting is not enabled, every operation that writes to a file name (save, save by type, raw data, palette, C header) refuses if the file exists, reports that, and leaves its content as it was; and no failed call creates or truncates a file other than the one it was asked to write.",
  ["histories","configurations","fault_sequences"], "every writing operation x existing or missing target x overwrite setting along attribute pushes and pops",
  "Tests always enable overwriting.",
  [S+"il_io.cpp", S+"il_pal.cpp", S+"il_header.cpp", S+"il_rawdata.cpp", S+"il_utility.cpp", S+"il_bmp.cpp"],
  [("existence test before opening for writing", S+"il_*.cpp iFileExists")])

p("C16", "Failures are reported through the error queue",
  "A library call that answers failure has queued at least one error, and a call that does what it was asked with nothing going wrong queues none (a load that has to find out the type of its source may report the types it tried). Errors read back most recent first, each once, up to the documented depth beyond which the oldest are dropped, and reading from the empty queue gives no-error.",
  ["histories","fault_sequences"], "any operation sequence with invalid arguments and injected faults, the queue drained at arbitrary times",
  "Tests look at single errors after single calls.",
  [S+"il_error.cpp", S+"il_io.cpp", S+"il_states.cpp"],
  [("fixed-size error stack", S+"il_error.cpp")],
  state=[("ilErrorNum[]","queued errors",S+"il_error.cpp")])

p("C17", "Image records are always self-consistent",
  "After every call, successful or not, each live image reports sizes that agree with each other and with its allocated storage: bytes per line, plane and image follow from width, height, depth, channels and component type, the pixel storage is present and at least that large (a record that holds only compressed texture data has none), and a palette has the length it reports.",
  ["histories","fault_sequences"], "any sequence of creating, loading, converting, resizing, copying, filtering and palette operations with faults",
  "Tests check dimensions after single successful operations.",
  [S+"il_devil.cpp", S+"il_manip.cpp", S+"il_convert.cpp", S+"il_pal.cpp", "DevIL/src-ILU/src/ilu_scale.cpp", "DevIL/src-ILU/src/ilu_manip.cpp"],
  [("one initialiser computes derived sizes", S+"il_devil.cpp ilTexImage_, ilResizeImage")])

p("C18", "Registered handlers are called as registered",
  "A load or save handler registered for an extension is called exactly once for each matching load or save by name and never after it is removed; a save it fails has failed, with its error queued, and a load it fails may only succeed because another type recognises the content; a second registration for an extension replaces or is refused as documented without leaking, and handlers registered for other extensions and the built-in formats are unaffected, also when memory runs out while registering.",
  ["histories","fault_sequences"], "any sequence of register, remove, load and save operations with several extensions and refused allocations",
  "Tests register nothing.",
  [S+"il_register.cpp", S+"il_io.cpp"],
  [("linked lists of handlers by extension", S+"il_register.cpp")],
  state=[("LoadProcs, SaveProcs","handler lists",S+"il_register.cpp")])

p("C19", "Pixel operations are all or nothing",
  "A conversion, scale, resize, flip, rotate, filter, copy, blit or palette operation that reports success has produced the same image as when nothing goes wrong, however short memory was; and one that reports failure leaves the image either exactly as it was or still complete and consistent, never half converted without saying so.",
  ["inputs","fault_sequences"], "every pixel operation x image format and type x every allocation refused",
  "The tests compare fault-free results with reference pictures only.",
  [S+"il_convert.cpp", S+"il_convbuff.cpp", S+"il_manip.cpp", S+"il_devil.cpp", "DevIL/src-ILU/src/ilu_scale.cpp", "DevIL/src-ILU/src/ilu_filter.cpp", "DevIL/src-ILU/src/ilu_manip.cpp", "DevIL/src-ILU/src/ilu_rotate.cpp"],
  [("work on a copy, then swap in", "filters and converters")])

p("C20", "Saving does not change the image",
  "Saving an image in any format, to any kind of sink, whether it succeeds or fails, leaves the bound image, its pixels, size, format, origin, palette, sub-images and all settings exactly as they were, so that saving again gives the same bytes.",
  ["inputs","fault_sequences","histories"], "every writable format x image format, type and origin x write, close and allocation faults",
  "Tests look at the file written, not at the image that was saved.",
  [S+"il_bmp.cpp", S+"il_targa.cpp", S+"il_pcx.cpp", S+"il_sgi.cpp", S+"il_pnm.cpp", S+"il_psd.cpp", S+"il_dds-save.cpp", S+"il_hdr.cpp", S+"il_png.cpp", S+"il_jpeg.cpp", S+"il_tiff.cpp", S+"il_raw.cpp", S+"il_vtf.cpp"],
  [("savers convert a temporary copy and restore the current image", S+"il_*.cpp")])

p("C21", "What was saved comes back after a restart",
  "An image saved with success in a lossless format and loaded by a freshly started library, from the disk as a crash left it, comes back with the same size and pixels (in a format that can hold them) if the file survived whole; if a crash let only the first part of its writes reach the disk, the load fails, queues an error or still gives the same pixels.",
  ["inputs","crash_points"], "lossless writable formats x images x crash after the save or at any write during it",
  "Tests reload in the same healthy process and compare loosely; no crash, no torn file.",
  CODECS+IO, [("encoder and decoder of each format agree", S+"il_*.cpp")])

p("C24", "Copies are exact and independent",
  "Cloning the current image, or copying another image into it, gives an image equal to the original in size, format, type, origin, pixels, palette, colour profile, offsets, duration, cube flags and animation list, which saves to the same bytes; a copy shares no memory with its original, so that whatever is done to one of them, deletion included, leaves the other as it was; nothing but the image asked for is changed or selected; and a copy refused for lack of memory reports that and leaves every image as it was.",
  ["histories","fault_sequences"], "any sequence of clones, copies, operations, loads, saves and deletions over several images x refused allocations",
  "Tests copy once and look at the pixels; later changes to either image and refused memory are not covered.",
  [S+"il_devil.cpp ilCopyImage, ilCloneCurImage, ilCopyImageAttr, ilCopyImage_", S+"il_stack.cpp"],
  [("attributes copied field by field, buffers duplicated", S+"il_devil.cpp ilCopyImageAttr")])

p("C25", "A load honours the form asked for",
  "A load that reports success leaves every image it brought (all frames, faces, layers and mipmaps) in the origin, format and component type that the enabled settings ask for, none of them paletted if palette conversion is on, with the content that loading without the settings and converting afterwards gives; a setting that is not enabled has no influence; and if the image cannot be brought into that form, also for lack of memory, the load fails and reports it.",
  ["inputs","configurations","fault_sequences"], "every loadable file and source x every combination of origin, format, type and palette settings x read faults and refused allocations",
  "Tests load with the default settings only.",
  [S+"il_convert.cpp ilFixImage, ilFixCur", S+"il_states.cpp ilFormatFunc, ilTypeFunc, ilOriginFunc"]+CODECS,
  [("every loader ends by fixing the whole image", S+"il_*.cpp return ilFixImage()")])

p("C26", "Toolkit settings follow their model",
  "The switches, numbers and attribute stack of ILUT and the filter, placement and language of ILU read back as last set within their documented values and take effect as set: a value or name that is not documented is rejected with an error and changes nothing; pushing ILUT attributes opens a level that keeps the settings of the groups named (ILUT_OPENGL_BIT: palette mode, conversion, S3TC switches, texture target and largest texture size; ILUT_D3D_BIT: mipmap levels and alpha key) and gives the others their defaults, popping restores what was before the push, overflow and underflow are reported and harmless; the error strings are those of the language set; and no setting is changed by anything else the library does.",
  ["histories"], "any sequence of set, enable, disable, push, pop, filter, placement and language calls, valid and not, between other library calls, failing ones included",
  "No test pushes, rejects or reads these settings back.",
  ["DevIL/src-ILUT/src/ilut_states.cpp", "DevIL/src-ILU/src/ilu_states.cpp", "DevIL/src-ILU/src/ilu_error.cpp"],
  [("array of ILUT state records with a current index", "DevIL/src-ILUT/src/ilut_states.cpp ilutPushAttrib/ilutPopAttrib"), ("global filter, placement and language tables", "DevIL/src-ILU/src/ilu_states.cpp, ilu_error.cpp")],
  state=[("ilutStates[]","ILUT attribute stack","DevIL/src-ILUT/include/ilut_states.h")])

PX = "Pure computation on a complete image with no I/O, allocation, time or schedule to vary; only the arithmetic decides it."
p("C22", "Pixel conversions keep the values they can represent",
  "Converting between pixel formats and component types keeps every value that the target can represent and rounds the others monotonically.",
  ["inputs"], "all pixel values x format and type pairs", "Tests convert a few pictures with loose tolerance.",
  [S+"il_convert.cpp", S+"il_convbuff.cpp"], [("conversion tables and loops", S+"il_convert.cpp")])
p("C23", "Filters and scaling compute the documented kernel",
  "Each scaling and filter operation computes the documented kernel at every pixel, borders included.",
  ["inputs"], "all images x parameters", "Tests compare a few pictures with tolerance.",
  ["DevIL/src-ILU/src/ilu_filter.cpp", "DevIL/src-ILU/src/ilu_scale.cpp"], [("kernels", "DevIL/src-ILU/src/ilu_filter.cpp")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
    open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
    print(len(P), "properties")
